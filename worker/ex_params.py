"""Executors for the parameter properties (C01-C06)."""
import copy
import numbers
import warnings

import autograd
import autograd.numpy as np
import numpy as onp
import scipy.sparse as osparse

import LinearResponseVariationalBayes as vb
import LinearResponseVariationalBayes.SparseObjectives as obj_lib
import LinearResponseVariationalBayes.MatrixParameters as mp_lib
from LinearResponseVariationalBayes.Parameters import \
    convert_vector_to_free_hessian

from base import (executor, build, bases, leaves, raw_values, arr, ints, attempt, layout)


def child(par, path):
    for n in path:
        par = par[n]
    return par


@executor('c01_free')
def c01_free(case):
    spec = case['spec']
    p = build(spec)
    if case.get('before') is not None:
        p.set_free(arr(case['before']))
    x = ints(case['free'], case.get('whole'))
    p.set_free(x)
    out = {'vec': p.get_vector(), 'values': raw_values(spec, p),
           'free_size': int(p.free_size()), 'vector_size': int(p.vector_size()),
           'bases': bases(spec), 'free': attempt(p.get_free)}
    out['arg'] = x
    return out


@executor('c01_value')
def c01_value(case):
    spec = case['spec']
    p = build(spec)
    if case.get('whole'):
        vals = [int(v) if isinstance(v, float) and v == round(v) else ints(v) if isinstance(v, dict) else v
                for v in case['values']]
    else:
        vals = [v if isinstance(v, float) else arr(v) for v in case['values']]
    ls = leaves(spec, p)
    for (s, q), v in zip(ls, vals):
        q.set(v)
    free = p.get_free()
    vec = p.get_vector()
    out = {'free': onp.array(free), 'vec': onp.array(vec),
           'before': raw_values(spec, p), 'bases': bases(spec)}
    p2 = build(spec)
    p2.set_free(onp.array(free))
    out['back'] = raw_values(spec, p2)
    out['vec_back'] = p2.get_vector()
    if len(vals) == 1 and ls[0][0] is not None and spec['t'] != 'dict':
        p3 = build(spec, value=vals[0])
        out['ctor'] = p3.get_vector()
    return out


@executor('c02')
def c02(case):
    spec = case['spec']
    p = build(spec)
    out = {'free_size': int(p.free_size()), 'vector_size': int(p.vector_size())}
    got = []
    for v in case['vecs']:
        p.set_vector(ints(v, case.get('whole')))
        got.append({'vec': onp.array(p.get_vector()), 'values': raw_values(spec, p)})
    out['got'] = got
    ind = obj_lib.make_index_param(p)
    out['index_vec'] = ind.get_vector()
    out['index_values'] = raw_values(spec, ind)
    out['after'] = p.get_vector()
    out['after_values'] = raw_values(spec, p)
    # by value
    q = build(spec)
    for (s, l), v in zip(leaves(spec, q), out['got'][-1]['values']):
        l.set(layout(onp.array(v)))
    out['by_value'] = q.get_vector()
    return out


@executor('c02_helpers')
def c02_helpers(case):
    M, v, d = arr(case['M']), arr(case['v']), arr(case['d'])
    out = {'ld': mp_lib.vectorize_ld_matrix(M), 'un': mp_lib.unvectorize_ld_matrix(v),
           'sym': mp_lib.unvectorize_symmetric_matrix(v),
           'pack': mp_lib.pack_posdef_matrix(arr(case['A']), case['lb']),
           'unpack': mp_lib.unpack_posdef_matrix(v, case['lb']),
           'flat': mp_lib.pos_def_matrix_free_to_vector(v, case['lb'])}
    un = mp_lib.unvectorize_ld_matrix
    out['jvp'] = autograd.make_jvp(un)(v)(d)[1]
    out['vjp'] = autograd.grad(lambda x: np.sum(M * un(x)))(v)
    quad = lambda x: np.sum(M * un(x) * un(x))
    out['hvp'] = autograd.hessian_vector_product(quad)(v, d)
    out['fwd'] = autograd.make_jvp(autograd.grad(quad))(v)(d)[1]
    s = vb.SimplexParam('s', tuple(case['shape']))
    s.set(arr(case['S']))
    out['rows'] = [[int(i) for i in s.get_vector_indices(r)] for r in range(case['shape'][0])]
    out['svec'] = s.get_vector()
    out['kept'] = bool(onp.array_equal(M, arr(case['M'])) and onp.array_equal(v, arr(case['v'])))
    return out


@executor('c03')
def c03(case):
    spec = case['spec']
    p = build(spec)
    p.set_free(arr(case['start']))
    other = build(spec)
    other.set_free(arr(case['start']))
    cp = copy.deepcopy(p)
    q = {'orig': p, 'copy': cp}[case['who']]
    out = {'bases': bases(spec), 'points': []}
    out['start'] = onp.array(p.get_vector())
    for x in case['points']:
        jac = q.free_to_vector_jac(arr(x))
        hess = q.free_to_vector_hess(arr(x))
        out['points'].append({'jac': jac, 'hess': list(hess)})
    out['states'] = [raw_values(spec, z) for z in (p, cp, other)]
    out['vecs'] = [z.get_vector() for z in (p, cp, other)]
    out['frees'] = [z.get_free() for z in (p, cp, other)]
    maps = []
    for x in case['points']:
        y = q.free_to_vector(arr(x))
        maps.append({'map': onp.reshape(y, (-1,)), 'vec': q.get_vector()})
    out['maps'] = maps
    return out


@executor('c04')
def c04(case):
    spec = case['spec']
    p = build(spec)
    p.set_free(arr(case['start']))
    out = {'bases': bases(spec), 'points': []}
    for pt in case['points']:
        h = ints(pt['hess'], pt.get('whole'))
        if pt['sparse'] == 'csr':
            h = osparse.csr_matrix(h)
        elif pt['sparse'] == 'coo':
            h = osparse.coo_matrix(h)
        elif pt['sparse'] == 'csc':
            h = osparse.csc_matrix(h)
        elif pt['sparse'] == 'lil':
            h = osparse.lil_matrix(h)
        elif pt['sparse'] == 'dup':
            # every entry in two halves, as an assembled Hessian has them
            c = osparse.coo_matrix(h)
            h = osparse.coo_matrix((onp.hstack([0.5 * c.data, 0.5 * c.data[::-1]]),
                                    (onp.hstack([c.row, c.row[::-1]]),
                                     onp.hstack([c.col, c.col[::-1]]))), shape=h.shape)
        elif pt['sparse'] == 'unsorted':
            c = osparse.csr_matrix(h)
            order = onp.hstack([onp.arange(a, b)[::-1] for a, b in zip(c.indptr[:-1], c.indptr[1:])]
                               + [onp.zeros(0, int)]).astype(int)
            h = osparse.csr_matrix((c.data[order], c.indices[order], c.indptr), shape=h.shape)
        u = pt.get('unit', 1.0)
        g = ints(pt['grad'], pt.get('whole'))
        if u != 1.0:
            g, h = u * g, u * h
        res = convert_vector_to_free_hessian(p, arr(pt['free']), layout(g), h)
        out['points'].append({
            'res': res if osparse.issparse(res) else onp.asarray(res),
            'vec': p.get_vector(), 'values': raw_values(spec, p)})
    return out


def plain_data(x):
    if isinstance(x, dict):
        return all(isinstance(k, str) and plain_data(v) for k, v in x.items())
    if isinstance(x, list):
        return all(plain_data(v) for v in x)
    return isinstance(x, numbers.Number)


def c05_snap(par):
    s = {'free_size': int(par.free_size()), 'vector_size': int(par.vector_size()),
         'vec': onp.array(par.get_vector()), 'free': attempt(lambda: onp.array(par.get_free())),
         'names': [str(n) for n in par.names()], 'str': str(par),
         'dictkeys': list(par.dictval().keys()), 'dictval': par.dictval(),
         'plain': plain_data(par.dictval()),
         'name': par.name, 'entries': [],
         'idx_keys': [[str(k) for k in d.keys()]
                      for d in (par.free_indices_dict, par.vector_indices_dict)]}
    for n in par.param_dict.keys():
        q = par[n]
        e = {'name': n, 'free_idx': [int(i) for i in par.free_indices_dict[n]],
             'vec_idx': [int(i) for i in par.vector_indices_dict[n]],
             'free_size': int(q.free_size()), 'vector_size': int(q.vector_size()),
             'vec': onp.array(q.get_vector()),
             'free': attempt(lambda: onp.array(q.get_free())),
             'names': [str(t) for t in onp.atleast_1d(q.names())],
             'str': str(q), 'dictval': q.dictval()}
        if isinstance(q, vb.ModelParamsDict):
            e['sub'] = c05_snap(q)
        else:
            v = q.get()
            e['value'] = v
            e['valstr'] = str(v)
            e['via_get'] = par.get()[n]
            e['via_values'] = par.values[n]
        s['entries'].append(e)
    return s


@executor('c05')
def c05(case):
    d = {'o': vb.ModelParamsDict(case['name'])}
    for c in case['init']:
        d['o'].push_param(build(c))
    snaps = [{'o': c05_snap(d['o'])}]
    for op in case['ops']:
        k = op['k']
        if k == 'copy':
            src = op['on']
            d['c' if src == 'o' else 'o'] = copy.deepcopy(d[src])
        else:
            t = d[op['on']]
            if k == 'push':
                t.push_param(build(op['spec']))
            elif k == 'free':
                t.set_free(arr(op['x']))
            elif k == 'vec':
                t.set_vector(arr(op['x']))
            elif k == 'name':
                t.set_name(op['name'])
            elif k == 'cfree':
                child(t, op['path']).set_free(arr(op['x']))
            elif k == 'cvec':
                child(t, op['path']).set_vector(arr(op['x']))
            elif k in ('cval', 'cval_get', 'cval_values'):
                v = op['x'] if isinstance(op['x'], float) else arr(op['x'])
                par = child(t, op['path'][:-1])
                if k == 'cval':
                    par[op['path'][-1]].set(v)
                elif k == 'cval_get':
                    par.get()[op['path'][-1]] = v
                else:
                    par.values[op['path'][-1]] = v
            elif k == 'range_vec':
                v = onp.array(t.get_vector(), dtype=float)
                v[onp.array(list(t.vector_indices_dict[op['path'][0]]))] = arr(op['x'])
                t.set_vector(v)
            elif k == 'range_free':
                v = onp.array(t.get_free(), dtype=float)
                v[onp.array(list(t.free_indices_dict[op['path'][0]]))] = arr(op['x'])
                t.set_free(v)
            else:
                raise KeyError(k)
        snaps.append({w: c05_snap(par) for w, par in d.items()})
    return {'snaps': snaps}


@executor('c06_refuse')
def c06_refuse(case):
    spec = case['spec']
    p = build(spec)
    if case.get('start') is not None:
        p.set_free(arr(case['start']))
    target = child(p, case['path'])
    before = {'vec': onp.array(p.get_vector()), 'free': onp.array(p.get_free()),
              'shapes': [list(onp.shape(v)) for v in raw_values(spec, p)]}
    out = {'before': before, 'calls': []}
    for c in case['calls']:
        x = arr(c['x'])
        res = attempt({'free': lambda: target.set_free(x),
                       'vec': lambda: target.set_vector(x),
                       'value': lambda: target.set(x)}[c['via']])
        res.pop('ret', None)
        res['after'] = {'vec': onp.array(p.get_vector()),
                        'free': attempt(lambda: onp.array(p.get_free())),
                        'shapes': [list(onp.shape(v)) for v in raw_values(spec, p)]}
        out['calls'].append(res)
    return out


@executor('c06_ctor')
def c06_ctor(case):
    value = case.get('value')
    if isinstance(value, dict):
        value = arr(value)
    r = attempt(lambda: build(case['spec'], value))
    return {'exc': r.get('exc')}


@executor('c06_oob')
def c06_oob(case):
    spec = case['spec']
    p = build(spec)
    target = child(p, case['path'])
    v = case['value']
    v = v if isinstance(v, float) else arr(v)
    target.set(v)
    r1 = attempt(lambda: onp.array(target.get_free()))
    r2 = attempt(lambda: onp.array(p.get_free()))
    return {'leaf': r1, 'whole': r2}


@executor('c06_default')
def c06_default(case):
    spec = case['spec']
    p = build(spec)
    out = {'values': raw_values(spec, p), 'vec': p.get_vector(),
           'free': p.get_free(),
           'free_size': int(p.free_size()), 'vector_size': int(p.vector_size()),
           'api': []}
    for s, q in leaves(spec, p):
        a = {}
        for m in ('size', 'shape', 'length', 'matrix_size', 'dim', 'free_shape'):
            if hasattr(q, m):
                r = getattr(q, m)()
                a[m] = [int(k) for k in r] if isinstance(r, (tuple, list)) else int(r)
        out['api'].append(a)
    return out
