"""Executors for objectives, converters and call histories (C07-C11)."""
import copy

import numpy as onp
import scipy.sparse as osparse
import autograd.numpy as np

import LinearResponseVariationalBayes as vb
import LinearResponseVariationalBayes.SparseObjectives as obj_lib
from LinearResponseVariationalBayes.Parameters import \
    convert_vector_to_free_hessian

from base import (executor, Buffers, build, bases, flat_values, raw_values, arr, ints, attempt,
                  eval_terms, eval_objective)


def make_fun(get_v, case, data=None):
    """fun(a, b, scale=, shift=) = scale * (a k F + b G) + sum(shift * v), where
    the function closes over k = data['k']"""
    F, G, unit = case['F'], case['G'], case.get('unit', 1.0)
    data = {'k': 1.0} if data is None else data

    def fun(a=1.0, b=0.5, scale=1.0, shift=0.0):
        v = get_v()
        out = (a * data['k']) * eval_objective(F, v) + b * eval_objective(G, v)
        return (scale * out + np.sum(shift * v)) * unit
    return fun


def make_vec_fun(get_v, case, data=None):
    F, G, unit = case['F'], case['G'], case.get('unit', 1.0)
    data = {'k': 1.0} if data is None else data

    def fun(a=1.0, b=0.5, scale=1.0, shift=0.0):
        v = get_v()
        f, g = eval_objective(F, v), eval_objective(G, v)
        entries = [(a * data['k']) * f + b * g, scale * f, g * f + np.sum(shift * v), scale * g]
        shape = case.get('vshape', [3])
        out = np.array(entries[:int(onp.prod(shape))]) * unit
        return out if len(shape) == 1 else np.reshape(out, shape)
    return fun


def extra(pt):
    kw = dict(pt['kw'])
    if isinstance(kw.get('shift'), list):
        kw['shift'] = arr(kw['shift'])
    return list(pt['args']), kw


def in_order(pt, calls):
    """Make the named calls in the point's order."""
    order = [i for i in pt.get('order', []) if i < len(calls)]
    order += [i for i in range(len(calls)) if i not in order]
    out = {}
    for i in order:
        out[calls[i][0]] = calls[i][1]()
    return out


def matrix(P):
    m = ints(P['m'], P.get('t') == 'int64')
    k = P.get('kind', 'dense')
    if k == 'csr':
        return osparse.csr_matrix(m)
    if k == 'csc':
        return osparse.csc_matrix(m)
    if k == 'coo':
        return osparse.coo_matrix(m)
    return m


@executor('c07')
def c07(case):
    spec = case['spec']
    p = build(spec)
    get_v = lambda: flat_values(spec, p)
    data = {'k': 1.0}
    o = obj_lib.Objective(p, make_fun(get_v, case, data))
    ov = obj_lib.Objective(p, make_vec_fun(get_v, case, data))
    buf = Buffers(case.get('reuse'))
    out = {'bases': bases(spec), 'points': []}
    for pt in case['points']:
        args, kw = extra(pt)
        data['k'] = pt['data']
        x, d = buf('x', pt['x']), buf('d', pt['d'])
        if pt['move']:
            p.set_free(onp.full(p.free_size(), 0.125))
        pre = 'fun_free' if pt['free'] else 'fun_vector'
        f = lambda ob, m, *more: (lambda: getattr(ob, pre + m)(x, *(args + list(more)), **kw))
        r = in_order(pt, [('value', f(o, '')), ('grad', f(o, '_grad')), ('hess', f(o, '_hessian')),
                          ('hvp', f(o, '_hvp', d)), ('vvalue', f(ov, '')),
                          ('jac', f(ov, '_jacobian'))])
        r['x'], r['arg_d'] = x, d
        out['points'].append(copy.deepcopy(r))
    return out


@executor('c08')
def c08(case):
    spec = case['spec']
    p = build(spec)
    data = {'k': 1.0}
    o = obj_lib.Objective(p, make_fun(lambda: flat_values(spec, p), case, data))
    out = {'bases': bases(spec), 'points': [], 'unset': []}
    pt = case['points'][0]
    buf = Buffers(case.get('reuse'))
    y, d = buf('x', pt['x']), buf('d', pt['d'])
    for f in (lambda: o.fun_free_cond(y), lambda: o.fun_free_grad_cond(y),
              lambda: o.fun_free_hessian_cond(y), lambda: o.fun_free_hvp_cond(y, d)):
        out['unset'].append('exc' in attempt(f))
    for pt in case['points']:
        P = matrix(pt['P'])
        if isinstance(P, onp.ndarray):
            P = buf('P', P)
        o.preconditioner = P
        args, kw = extra(pt)
        data['k'] = pt['data']
        y, d = buf('x', pt['x']), buf('d', pt['d'])
        st = {}

        def f(name, m, *more):
            def run():
                p.set_free(onp.zeros(p.free_size()))
                res = getattr(o, m)(y, *(args + list(more)), **kw)
                st[name] = onp.array(p.get_vector())
                return res
            return name, run
        r = in_order(pt, [f('value', 'fun_free_cond'), f('grad', 'fun_free_grad_cond'),
                          f('hess', 'fun_free_hessian_cond'), f('hvp', 'fun_free_hvp_cond', d)])
        r['uncond'] = o.uncondition_x(y)
        r['condx'] = o.get_conditioned_x(y)
        yi = ints(pt['whole'], True)
        r['whole'] = {'uncond': o.uncondition_x(yi), 'condx': o.get_conditioned_x(yi),
                      'value': o.fun_free_cond(yi, *args, **kw)}
        r['states'] = st
        r['y'], r['P'] = y, P
        out['points'].append(copy.deepcopy(r))
    return out


@executor('c10')
def c10(case):
    s1, s2 = case['spec1'], case['spec2']
    p1, p2 = build(s1), build(s2)
    get_v = lambda: np.hstack([flat_values(s1, p1), flat_values(s2, p2)])
    data = {'k': 1.0}
    fun = make_fun(get_v, case, data)
    o = obj_lib.TwoParameterObjective(p1, p2, fun)
    out = {'bases1': bases(s1), 'bases2': bases(s2), 'points': []}
    buf = Buffers(case.get('reuse'))
    joint = vb.ModelParamsDict('joint')
    joint.push_param(p1)
    joint.push_param(p2)
    oj = obj_lib.Objective(joint, fun)
    for pt in case['points']:
        args, kw = extra(pt)
        data['k'] = pt['data']
        x1, x2 = buf('x1', pt['x1']), buf('x2', pt['x2'])
        f1, f2 = pt['free1'], pt['free2']
        if pt['move']:
            p1.set_free(onp.full(p1.free_size(), 0.125))
            p2.set_free(onp.full(p2.free_size(), -0.25))
        flags = lambda m: (lambda: getattr(o, m)(x1, x2, f1, f2, *args, **kw))
        plain = lambda m: (lambda: getattr(o, m)(x1, x2, *args, **kw))
        calls = [('value', flags('eval_fun')), ('grad1', flags('fun_grad1')),
                 ('grad2', flags('fun_grad2'))]
        if f1 == f2:
            pre = 'fun_free' if f1 else 'fun_vector'
            calls += [('value2', plain(pre)), ('h12', plain(pre + '_hessian12')),
                      ('h21', plain(pre + '_hessian21'))]
        else:
            calls.append(('h12', plain('fun_hessian_free1_vector2' if f1
                                       else 'fun_hessian_vector1_free2')))
        r = in_order(pt, calls)
        r['after1'], r['after2'] = onp.array(p1.get_vector()), onp.array(p2.get_vector())
        if f1 == f2:
            r['joint'] = getattr(oj, pre + '_hessian')(onp.hstack([x1, x2]), *args, **kw)
        r['arg1'], r['arg2'] = x1, x2
        out['points'].append(copy.deepcopy(r))
    return out


def make_converter(s_in, p_in, p_out, conv):
    rows = conv['rows']

    def converter():
        v = flat_values(s_in, p_in)
        y = np.array([eval_terms(r, v) for r in rows])
        if conv['mode'] == 'free':
            p_out.set_free(y)
        else:
            p_out.set_vector(y)
    return converter


@executor('c11')
def c11(case):
    s1, s2 = case['spec1'], case['spec2']
    p1, p2 = build(s1), build(s2)
    cv = obj_lib.ParameterConverter(
        p1, p2, make_converter(s1, p1, p2, case['conv']))
    out = {'bases1': bases(s1), 'bases2': bases(s2), 'points': []}
    p2.set_free(arr(case['out0']))
    buf = Buffers(case.get('reuse'))
    for pt in case['points']:
        x, v = buf('x', pt['x']), buf('v', pt['v'])
        r = {}
        before = onp.array(p2.get_vector())
        r['j_ff'] = cv.free_to_free_jacobian(x)
        r['j_fv'] = cv.free_to_vec_jacobian(x)
        r['j_vf'] = cv.vec_to_free_jacobian(v)
        r['j_vv'] = cv.vec_to_vec_jacobian(v)
        r['out_before'], r['out_after'] = before, onp.array(p2.get_vector())
        r['in_after'] = onp.array(p1.get_vector())
        r['ff'] = onp.array(cv.converter_free_to_free(x))
        r['fv'] = onp.array(cv.converter_free_to_vec(x))
        r['vf'] = onp.array(cv.converter_vec_to_free(v))
        r['vv'] = onp.array(cv.converter_vec_to_vec(v))
        out['points'].append(copy.deepcopy(r))
    return out


@executor('c09')
def c09(case):
    sa, sb, sc = case['sa'], case['sb'], case['sc']
    D = vb.ModelParamsDict('D')
    D.push_param(build(sa))
    D.push_param(build(sb))
    A, B = D[sa['name']], D[sb['name']]
    C = build(sc)
    va = lambda: flat_values(sa, A)
    vb_ = lambda: flat_values(sb, B)
    vab = lambda: np.hstack([va(), vb_()])
    fun = make_fun(vab, case)
    objs = {'A': obj_lib.Objective(A, fun), 'B': obj_lib.Objective(B, fun),
            'D': obj_lib.Objective(D, fun)}
    two = {'AB': obj_lib.TwoParameterObjective(A, B, fun),
           'BA': obj_lib.TwoParameterObjective(B, A, fun)}
    conv = obj_lib.ParameterConverter(
        A, C, make_converter(sa, A, C, case['conv']))
    vecfun = make_vec_fun(vab, case)
    vobjs = {'A': obj_lib.Objective(A, vecfun), 'B': obj_lib.Objective(B, vecfun),
             'D': obj_lib.Objective(D, vecfun)}
    C.set_free(arr(case['out0']))

    def snap():
        return {'A': onp.array(A.get_vector()) if not boxed(A) else A.get_vector(),
                'B': onp.array(B.get_vector()) if not boxed(B) else B.get_vector(),
                'C': onp.array(C.get_vector()) if not boxed(C) else C.get_vector(),
                'values': [raw_values(sa, A), raw_values(sb, B), raw_values(sc, C)]}

    def boxed(par):
        from autograd.tracer import Box
        v = par.get_vector()
        return isinstance(v, Box) or getattr(v, 'dtype', None) == object

    out = {'bases': [bases(sa), bases(sb), bases(sc)], 'snaps': [snap()]}
    for c in case['calls']:
        k = c['k']
        if k == 'obj':
            o = objs[c['o']]
            x = arr(c['x'])
            m = c['m']
            pre = 'fun_free' if c['free'] else 'fun_vector'
            if m == 'value':
                getattr(o, pre)(x)
            elif m == 'hvp':
                getattr(o, pre + '_hvp')(x, arr(c['d']))
            elif m == 'jacobian':
                getattr(vobjs[c['o']], pre + '_jacobian')(x)
            else:
                getattr(o, pre + '_' + m)(x)
        elif k == 'cond':
            o = objs[c['o']]
            o.preconditioner = matrix(c['P'])
            y = arr(c['x'])
            m = c['m']
            if m == 'value':
                o.fun_free_cond(y)
            elif m == 'hvp':
                o.fun_free_hvp_cond(y, arr(c['d']))
            elif m == 'grad':
                o.fun_free_grad_cond(y)
            else:
                o.fun_free_hessian_cond(y)
        elif k == 'two':
            o = two[c['o']]
            x1, x2, f1, f2, m = arr(c['x1']), arr(c['x2']), c['free1'], c['free2'], c['m']
            if m in ('grad1', 'grad2'):
                getattr(o, 'fun_' + m)(x1, x2, f1, f2)
            elif m == 'value':
                o.eval_fun(x1, x2, f1, f2)
            elif f1 and f2:
                (o.fun_free_hessian12 if m == 'h12' else o.fun_free_hessian21)(x1, x2)
            elif not f1 and not f2:
                (o.fun_vector_hessian12 if m == 'h12' else o.fun_vector_hessian21)(x1, x2)
            elif f1:
                o.fun_hessian_free1_vector2(x1, x2)
            else:
                o.fun_hessian_vector1_free2(x1, x2)
        elif k == 'conv_jac':
            getattr(conv, c['m'] + '_jacobian')(arr(c['x']))
        elif k == 'conv':
            getattr(conv, 'converter_' + c['m'])(arr(c['x']))
        elif k == 'set':
            par = {'A': A, 'B': B, 'C': C}[c['o']]
            (par.set_free if c['free'] else par.set_vector)(arr(c['x']))
        elif k == 'sparse':
            par = {'A': A, 'B': B, 'C': C, 'D': D}[c['o']]
            x = arr(c['x'])
            if c['m'] == 'jac':
                par.free_to_vector_jac(x)
            elif c['m'] == 'hess':
                par.free_to_vector_hess(x)
            elif c['m'] == 'map':
                par.free_to_vector(x)
            elif c['m'] == 'index':
                obj_lib.make_index_param(par)
            else:
                n = par.vector_size()
                convert_vector_to_free_hessian(par, x, onp.ones(n), onp.eye(n))
        else:
            raise KeyError(k)
        out['snaps'].append(snap())
    return out
