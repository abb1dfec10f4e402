"""Executors for optimization wrappers, matrix roots and conjugate gradients."""
import numpy as onp
import scipy.optimize as osopt
import autograd.numpy as np

import LinearResponseVariationalBayes as vb
import LinearResponseVariationalBayes.SparseObjectives as obj_lib
import LinearResponseVariationalBayes.OptimizationUtils as opt_lib
import LinearResponseVariationalBayes.ConjugateGradient as cg_lib

from base import executor, build, arr, ints, attempt, eval_terms


def free_objective(case, p):
    """A strictly convex function of the parameter's free coordinates."""
    A, b = arr(case['A']), arr(case['b'])

    def fun():
        f = np.reshape(p.get_free(), (-1,))
        return 0.5 * np.dot(f, np.dot(A, f)) + np.dot(b, f) + eval_terms(case['terms'], f)
    return fun


@executor('c20')
def c20(case):
    p = build(case['spec'])
    o = obj_lib.Objective(p, free_objective(case, p))
    out = {}
    pre = case['pre']
    if pre['kind'] == 'hess':
        r = opt_lib.set_objective_preconditioner(
            o, free_par=arr(pre['at']), ev_min=pre['ev_min'], ev_max=pre['ev_max'])
        out['hess'] = r[0]
    elif pre['kind'] == 'matrix':
        o.preconditioner = arr(pre['m'])
    if o.preconditioner is not None:
        out['P'] = onp.array(o.preconditioner)
    for x in case['warm']:
        o.fun_free(arr(x), verbose=True)
    seen = []
    if case['callback']:
        def callback(logger):
            seen.append(len(logger.x_array))
        o.logger.callback = callback
    o.logger.print_every = 7
    captured = []
    real = osopt.minimize

    def spy(*a, **k):
        res = real(*a, **k)
        captured.append((res, {q: onp.array(v) if isinstance(v, onp.ndarray) else v
                               for q, v in res.items()}))
        return res
    kw = dict(case['kw'])
    fun = {'ncg': opt_lib.minimize_objective_trust_ncg,
           'bfgs': opt_lib.minimize_objective_bfgs}[case['method']]
    x0 = ints(case['x0'], case.get('whole'))
    osopt.minimize = spy
    try:
        x, res = fun(o, x0, case['use_pre'], **kw)
    finally:
        osopt.minimize = real
    out.update({'x': onp.array(x), 'x0': x0,
                'res': {'x': res.x, 'fun': res.fun, 'nit': res.nit, 'success': res.success,
                        'jac': res.jac, 'message': str(res.message)}})
    if len(captured) == 1:
        got, fields = captured[0]
        out['same'] = res is got or all(
            k in res and onp.all(onp.asarray(res[k]) == onp.asarray(fields[k])) for k in fields)
        out['extra'] = sorted(str(k) for k in res if k not in fields)
    out['log'] = {'x': [onp.array(v) for v in o.logger.x_array],
                  'val': [float(v) for v in o.logger.val_array],
                  'iter': o.logger.iter, 'print_every': o.logger.print_every}
    out['seen'] = seen
    out['P_after'] = None if o.preconditioner is None else onp.array(o.preconditioner)
    out['f'] = o.fun_free(x)
    out['g'] = o.fun_free_grad(x)
    return out


@executor('c21')
def c21(case):
    n = len(case['init'])
    p = vb.VectorParam('x', n)
    w, c, l = arr(case['w']), arr(case['c']), arr(case['l'])

    def value():
        x = p.get()
        return np.sum(w * (x - c) ** 2) + np.sum(l * x)
    o = obj_lib.Objective(p, value)
    calls, results, points = [], [], []
    buf = onp.zeros(n)

    def optimizer(x):
        calls.append(onp.array(x))
        k = len(calls) - 1
        out = arr(case['script'][k % len(case['script'])])
        # leave the parameter somewhere else, as a real optimizer would
        o.fun_free(out + 1.0)
        if case['style'] == 'in_place':
            x[:] = out
            out = x
        elif case['style'] == 'buffer':
            buf[:] = out
            out = buf
        else:
            points.append(out)
        results.append('result %d' % k)
        return out, results[-1]
    starts = []

    def initial(x):
        starts.append(onp.array(x))
        return ints(case['first'], case.get('whole')), 'initial result'
    kw = dict(case['kw'])
    if case['first'] is not None:
        kw['initial_optimization_fun'] = initial
    x0 = ints(case['init'], case.get('whole'))
    r = opt_lib.repeatedly_optimize(o, optimizer, x0, **kw)
    x, converged, xc, fc, gc, res, kept = r
    return {'x': onp.array(x), 'flags': [bool(converged), bool(xc), bool(fc), bool(gc)],
            'res': res, 'kept': list(kept), 'calls': calls, 'starts': starts, 'x0': x0,
            'points': points}


@executor('c22')
def c22(case):
    m = arr(case['m'])
    keep = onp.array(m)
    S, C = opt_lib.get_sym_matrix_inv_sqrt(m, **case['kw'])
    return {'S': S, 'C': C, 'input': m, 'kept': bool(onp.array_equal(m, keep))}


@executor('c22_obj')
def c22_obj(case):
    p = build(case['spec'])
    o = obj_lib.Objective(p, free_objective(case, p))
    out = {}
    out['neither'] = attempt(lambda: opt_lib.set_objective_preconditioner(o))
    h = None if case['h'] is None else arr(case['h'])
    x = None if case['at'] is None else arr(case['at'])
    hk = None if h is None else onp.array(h)
    if h is not None and x is not None:
        r = opt_lib.set_objective_preconditioner(o, x, hessian=h, **case['kw'])
    elif h is not None:
        r = opt_lib.set_objective_preconditioner(o, hessian=h, **case['kw'])
    else:
        r = opt_lib.set_objective_preconditioner(o, x, **case['kw'])
    out.update({'ret': list(r), 'P': o.preconditioner, 'x': x, 'h': h})
    return out


@executor('c23')
def c23(case):
    A, d = arr(case['A']), arr(case['d'])
    x0 = arr(case['x0'])
    n = len(x0)

    def hvp(x, v):
        return onp.dot(A, v) + d * x * x * v
    s = cg_lib.ConjugateGradientSolver(hvp, x0)
    out = {'ops': []}
    if case['tol'] is not None:
        s.tol = case['tol']
    for op in case['ops']:
        r = {}
        if op['op'] == 'pre':
            s.preconditioner = None if op['m'] is None else arr(op['m'])
        elif op['op'] == 'init':
            s.initialize()
        elif op['op'] == 'one':
            v = ints(op['v'], op.get('whole'))
            if op['guess'] is None:
                h, info = s.get_hinv_vec(v)
            else:
                g = arr(op['guess'])
                h, info = s.get_hinv_vec(v, x0=g)
                r['guess'] = g
            r.update({'h': h, 'info': int(info), 'v': v})
        elif op['op'] == 'subsets':
            v = ints(op['v'], op.get('whole'))
            masks = [onp.array(m, dtype=bool) for m in op['masks']]
            if op['verbose']:
                s.get_hinv_vec_subsets(v, masks, verbose=True)
            else:
                s.get_hinv_vec_subsets(v, masks)
            r.update({'v': v, 'masks': masks})
        r['vecs'] = [onp.array(a) for a in s.vecs]
        r['hinv'] = [onp.array(a) for a in s.hinv_vecs]
        r['mk'] = [onp.array(a) for a in s.masks]
        r['ntimes'] = len(s.times)
        r['infos'] = [int(i) for i in s.cg_infos]
        out['ops'].append(r)
    out['x0'] = x0
    return out


@executor('c23_masks')
def c23_masks(case):
    mask = onp.array(case['mask'], dtype=bool)
    out = {'masks': cg_lib.get_masks(case['len'], case['block']),
           'split': list(cg_lib.split_vector(mask))}
    res = []
    cg_lib.recursive_split(mask, results=res, terminate_len=case['limit'])
    out['rec'] = res
    out['mask'] = mask
    return out
