"""Executors for derivative arrays and the term algebra (C14)."""
import numpy as onp
import autograd
import autograd.numpy as np

import LinearResponseVariationalBayes.ModelSensitivity as ms

from base import executor, arr, attempt, eval_objective


def vec_fun(fs, nargs):
    def fun(*xs):
        v = np.hstack(xs)
        if len(fs) == 1 and nargs is None:
            return eval_objective(fs[0], v)
        return np.array([eval_objective(f, v) for f in fs])
    return fun


def fun_of(case):
    fs = case['fs']
    if case['scalar']:
        return lambda *xs: eval_objective(fs[0], np.hstack(xs))
    return lambda *xs: np.array([eval_objective(f, np.hstack(xs)) for f in fs])


@executor('c14_array')
def c14_array(case):
    order = case['order']
    arr_ = ms.generate_two_term_derivative_array(fun_of(case), order)
    x1, x2 = arr(case['x'][0]), arr(case['x'][1])
    out = {'shape': [len(r) for r in arr_], 'vals': []}
    for i in range(order):
        for j in range(order + 1):
            vs = [arr(v) for v in case['v1'][:i]]
            ws = [arr(v) for v in case['v2'][:j]]
            out['vals'].append([i, j, onp.asarray(arr_[i][j](x1, x2, *(vs + ws)), dtype=float)])
    return out


@executor('c14_append')
def c14_append(case):
    xs = [arr(x) for x in case['x']]
    f = fun_of(case)
    vals = [onp.asarray(f(*xs), dtype=float)]
    dirs = []
    for a, d in case['appends']:
        if len(xs) == 1 and case['defaults']:
            f = ms.append_jvp(f)
        elif a == 0 and case['defaults']:
            f = ms.append_jvp(f, num_base_args=len(xs))
        else:
            f = ms.append_jvp(f, num_base_args=len(xs), argnum=a)
        dirs.append(arr(d))
        vals.append(onp.asarray(f(*(xs + dirs)), dtype=float))
    return {'vals': vals}


def term_view(t):
    return {'eps': int(t.eps_order), 'eta': [int(k) for k in t.eta_orders],
            'pre': float(t.prefactor), 'order': int(t.order), 'str': str(t)}


@executor('c14_terms')
def c14_terms(case):
    """Hand-made terms along a given curve."""
    x1, x2 = arr(case['x'][0]), arr(case['x'][1])
    deps = arr(case['deps'])
    etas = [arr(d) for d in case['etas']]
    g = ms.generate_two_term_derivative_array(fun_of(case), case['array_order'])
    consts = [(lambda d: lambda eta, eps, de: d)(d) for d in etas]
    k = case['k']
    terms = [ms.DerivativeTerm(
        eps_order=t['eps'], eta_orders=list(t['eta']), prefactor=t['pre'],
        eval_eta_derivs=consts[:k], eval_g_derivs=g) for t in case['terms']]
    out = {'terms': [term_view(t) for t in terms],
           'evals': [t.evaluate(x1, x2, deps) for t in terms]}
    out['sum'] = ms.evaluate_terms(list(terms), x1, x2, deps)
    out['sum_low'] = ms.evaluate_terms(list(terms), x1, x2, deps,
                                       include_highest_eta_order=False)
    cons = ms.consolidate_terms(list(terms))
    out['cons'] = [term_view(t) for t in cons]
    out['cons_sum'] = ms.evaluate_terms(cons, x1, x2, deps)
    out['similar'] = [bool(a.check_similarity(b)) for a in terms for b in terms]
    diff = []
    for t in terms:
        diff += t.differentiate(consts[k])
    out['diff'] = [term_view(t) for t in diff]
    out['diff_each'] = [[d.evaluate(x1, x2, deps) for d in t.differentiate(consts[k])]
                        for t in terms]
    # the same terms differentiated along another curve
    alt = arr(case['alt'])
    out['diff_alt'] = [[d.evaluate(x1, x2, deps) for d in t.differentiate(lambda *a: alt)]
                       for t in terms]
    out['diff_sum'] = ms.evaluate_terms(diff, x1, x2, deps)
    dcons = ms.consolidate_terms(diff)
    out['dcons'] = [term_view(t) for t in dcons]
    out['dcons_sum'] = ms.evaluate_terms(dcons, x1, x2, deps)
    out['again'] = [term_view(t) for t in terms]
    # derivative functions that return stored arrays
    stored = []

    def storing(f):
        memo = {}

        def call(*args):
            key = b''.join(onp.ascontiguousarray(a, dtype=float).tobytes() for a in args)
            if key not in memo:
                memo[key] = onp.array(f(*args), dtype=float)
                stored.append((memo[key], onp.array(memo[key])))
            return memo[key]
        return call

    gs = [[storing(f) for f in row] for row in g]
    held = [ms.DerivativeTerm(
        eps_order=t['eps'], eta_orders=list(t['eta']), prefactor=t['pre'],
        eval_eta_derivs=consts[:k], eval_g_derivs=gs) for t in case['terms']]
    out['sums_stored'] = [ms.evaluate_terms(list(held), x1, x2, deps) for _ in range(2)]
    out['stored_kept'] = all(bool(onp.array_equal(a, b)) for a, b in stored)
    out['etas_kept'] = all(bool(onp.array_equal(a, arr(b))) for a, b in zip(etas, case['etas']))
    out['sum_again'] = ms.evaluate_terms(list(terms), x1, x2, deps)
    return out


@executor('c14_many')
def c14_many(case):
    """Many terms whose values do not matter."""
    k = case['k']
    g = [[(lambda *a: onp.ones(1)) for _ in range(k + 2)] for _ in range(k + 2)]
    eta = [lambda *a: onp.ones(1)] * k
    make = lambda t: ms.DerivativeTerm(
        eps_order=t['eps'], eta_orders=list(t['eta']), prefactor=t['pre'],
        eval_eta_derivs=list(eta), eval_g_derivs=g)
    terms = [make(t) for t in case['terms']]
    out = {'similar': [bool(a.check_similarity(b)) for a in terms for b in terms],
           'cons': [term_view(t) for t in ms.consolidate_terms(list(terms))],
           'pairs': []}
    for a in terms:
        for b in terms:
            r = attempt(lambda: term_view(a.combine_with(b)))
            out['pairs'].append(r.get('ret'))
    out['after'] = [term_view(t) for t in terms]
    return out


@executor('c14_chain')
def c14_chain(case):
    """The chain of terms from the base terms, with the solved derivatives."""
    x1, x2 = arr(case['x0']), arr(case['h0'])
    deps = arr(case['dh'])
    obj = lambda a, b: eval_objective(case['F'], a) + \
        eval_objective(case['G'], np.hstack([a, b]))
    grad = autograd.grad(obj, argnum=0)
    order = case['order']
    g = ms.generate_two_term_derivative_array(grad, order + 1)
    hess = arr(case['hess'])
    terms = ms.get_taylor_base_terms(g)
    out = {'base': [term_view(t) for t in terms], 'levels': []}
    for k in range(1, order + 1):
        d = ms.evaluate_dketa_depsk(hess, terms, x1, x2, deps)
        low = ms.evaluate_terms(terms, x1, x2, deps, include_highest_eta_order=False)
        # all terms, with the solved derivative put in
        total = 0.0
        for t in terms:
            full = ms.DerivativeTerm(
                eps_order=t.eps_order, eta_orders=t.eta_orders, prefactor=t.prefactor,
                eval_eta_derivs=list(t.eval_eta_derivs) + [lambda a, b, c, d=d: d],
                eval_g_derivs=t.eval_g_derivs)
            total = total + full.evaluate(x1, x2, deps)
        out['levels'].append({'d': d, 'low': low, 'total': total,
                              'terms': [term_view(t) for t in terms]})
        if k < order:
            terms = ms.differentiate_terms(hess, terms)
    return out
