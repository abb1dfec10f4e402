"""Reference model of the parameter encodings, written from the documented
maps and generic over the number type (floats, jets, series)."""
import math
import numpy as np

from pbt import jets
from pbt.core import Violation, need, close

CHILDREN = {
    'mvn': lambda s: [
        dict(t='vector', name='mean', size=s['dim'], lb=None, ub=None),
        dict(t='pd', name='info', size=s['dim'], diag_lb=s['min_info'])],
    'uvn': lambda s: [
        dict(t='scalar', name='mean', lb=None, ub=None),
        dict(t='scalar', name='info', lb=s['min_info'], ub=None)],
    'uvnvec': lambda s: [
        dict(t='vector', name='mean', size=s['length'], lb=None, ub=None),
        dict(t='vector', name='info', size=s['length'], lb=s['min_info'], ub=None)],
    'uvnarr': lambda s: [
        dict(t='array', name='mean', shape=s['shape'], lb=None, ub=None),
        dict(t='array', name='info', shape=s['shape'], lb=s['min_info'], ub=None)],
    'uvnmoment': lambda s: [
        dict(t='array', name='e', shape=s['shape'], lb=None, ub=None),
        dict(t='array', name='e2', shape=s['shape'], lb=s['min_info'], ub=None)],
    'mvnarr': lambda s: [
        dict(t='array', name='mean', shape=s['shape'], lb=None, ub=None),
        dict(t='vector', name='info', size=s['shape'][0], lb=s['min_info'], ub=None)],
    'gamma': lambda s: [
        dict(t='scalar', name='shape', lb=s['min_shape'], ub=None),
        dict(t='scalar', name='rate', lb=s['min_rate'], ub=None)],
    'wishart': lambda s: [
        dict(t='scalar', name='df', ub=None,
             lb=s['min_df'] if s['min_df'] else s['size'] - 1),
        dict(t='pd', name='v', size=s['size'], diag_lb=s['diag_lb'])],
    'dirichlet': lambda s: [
        dict(t='array', name='alpha', shape=s['shape'], lb=s['min_alpha'], ub=None)],
}


def is_dict(spec):
    return spec['t'] == 'dict' or spec['t'] in CHILDREN


def children(spec):
    return spec['children'] if spec['t'] == 'dict' else CHILDREN[spec['t']](spec)


def leaf_specs(spec, path=()):
    if is_dict(spec):
        out = []
        for c in children(spec):
            out += leaf_specs(c, path + (c['name'],))
        return out
    return [(path, spec)]


def tri(n):
    return n * (n + 1) // 2


def prod(shape):
    p = 1
    for k in shape:
        p *= k
    return p


def sizes(spec):
    """(free size, vector size)"""
    t = spec['t']
    if is_dict(spec):
        f = v = 0
        for c in children(spec):
            a, b = sizes(c)
            f, v = f + a, v + b
        return f, v
    if t == 'scalar':
        return 1, 1
    if t == 'vector':
        return spec['size'], spec['size']
    if t == 'array':
        p = prod(spec['shape'])
        return p, p
    if t == 'pd':
        p = tri(spec['size'])
        return p, p
    if t == 'pdvec':
        p = tri(spec['size']) * spec['length']
        return p, p
    if t == 'pdarr':
        p = tri(spec['size']) * prod(spec['shape'])
        return p, p
    if t == 'simplex':
        r, c = spec['shape']
        return r * (c - 1), r * c
    if t == 'subspace':
        k = 1 if spec['B'] is None else len(spec['B'])
        return spec['dim'] - k, spec['dim']
    raise KeyError(t)


def value_shape(spec):
    t = spec['t']
    if t == 'scalar':
        return ()
    if t == 'vector':
        return (spec['size'],)
    if t in ('array', 'simplex'):
        return tuple(spec['shape'])
    if t == 'pd':
        return (spec['size'],) * 2
    if t == 'pdvec':
        return (spec['length'], spec['size'], spec['size'])
    if t == 'pdarr':
        return tuple(spec['shape']) + (spec['size'],) * 2
    if t == 'subspace':
        return (spec['dim'],)
    raise KeyError(t)


def constrain1(x, lb, ub):
    if ub is None:
        return x if lb is None else jets.exp(x) + lb
    if lb is None:
        return ub - jets.exp(-x)
    return lb + (ub - lb) * jets.sigmoid(x)


def unconstrain1(v, lb, ub):
    if ub is None:
        return v if lb is None else jets.log(v - lb)
    if lb is None:
        return -jets.log(ub - v)
    return jets.log(v - lb) - jets.log(ub - v)


def pd_from_free(free, n, diag_lb):
    """lower triangle by rows of L L' + diag_lb I"""
    L, k = [], 0
    for i in range(n):
        row = []
        for j in range(i + 1):
            row.append(jets.exp(free[k]) if i == j else free[k])
            k += 1
        L.append(row)
    out = []
    for i in range(n):
        for j in range(i + 1):
            s = 0.0
            for m in range(j + 1):
                s = L[i][m] * L[j][m] + s
            if i == j:
                s = s + diag_lb
            out.append(s)
    return out


def pd_to_free(vec, n, diag_lb):
    A, k = [[0.0] * n for _ in range(n)], 0
    for i in range(n):
        for j in range(i + 1):
            A[i][j] = vec[k] - (diag_lb if i == j else 0.0)
            k += 1
    L = [[0.0] * n for _ in range(n)]
    out = []
    for i in range(n):
        for j in range(i + 1):
            s = A[i][j]
            for m in range(j):
                s = s - L[i][m] * L[j][m]
            if i == j:
                L[i][i] = jets.sqrt(s)
                out.append(jets.log(L[i][i]))
            else:
                L[i][j] = s / L[j][j]
                out.append(L[i][j])
    return out


def sym_full(vec, n):
    idx = lambda i, j: i * (i + 1) // 2 + j if j <= i else j * (j + 1) // 2 + i
    return [vec[idx(i, j)] for i in range(n) for j in range(n)]


def softmax_ref(x):
    """probabilities with reference entry first (logit 0)"""
    z = [0.0] + list(x)
    m = max(jets.val(a) for a in z)
    e = [jets.exp(a - m) if not isinstance(a, float) else math.exp(a - m) for a in z]
    s = e[0]
    for a in e[1:]:
        s = a + s
    return [a / s for a in e]


def free_to_vec(spec, x, bases=None):
    """vector encoding (list) of the value the free vector x sets."""
    bases = list(bases or [])
    out = _f2v(spec, list(x), bases)
    return out


def _f2v(spec, x, bases):
    t = spec['t']
    if is_dict(spec):
        out, o = [], 0
        for c in children(spec):
            f, _ = sizes(c)
            out += _f2v(c, x[o:o + f], bases)
            o += f
        return out
    if t in ('scalar', 'vector', 'array'):
        return [constrain1(a, spec['lb'], spec['ub']) for a in x]
    if t in ('pd', 'pdvec', 'pdarr'):
        n = spec['size']
        k = tri(n)
        out = []
        for o in range(0, len(x), k):
            out += pd_from_free(x[o:o + k], n, spec['diag_lb'])
        return out
    if t == 'simplex':
        r, c = spec['shape']
        out = []
        for i in range(r):
            out += softmax_ref(x[i * (c - 1):(i + 1) * (c - 1)])
        return out
    if t == 'subspace':
        P = np.asarray(bases.pop(0), dtype=float)
        out = []
        for i in range(P.shape[0]):
            s = 0.0
            for j in range(P.shape[1]):
                s = x[j] * float(P[i, j]) + s
            out.append(s)
        return out
    raise KeyError(t)


def vec_to_free(spec, v, bases=None):
    return _v2f(spec, list(v), list(bases or []))


def _v2f(spec, v, bases):
    t = spec['t']
    if is_dict(spec):
        out, o = [], 0
        for c in children(spec):
            _, k = sizes(c)
            out += _v2f(c, v[o:o + k], bases)
            o += k
        return out
    if t in ('scalar', 'vector', 'array'):
        return [unconstrain1(a, spec['lb'], spec['ub']) for a in v]
    if t in ('pd', 'pdvec', 'pdarr'):
        n = spec['size']
        k = tri(n)
        out = []
        for o in range(0, len(v), k):
            out += pd_to_free(v[o:o + k], n, spec['diag_lb'])
        return out
    if t == 'simplex':
        r, c = spec['shape']
        out = []
        for i in range(r):
            row = v[i * c:(i + 1) * c]
            out += [jets.log(a) - jets.log(row[0]) for a in row[1:]]
        return out
    if t == 'subspace':
        P = np.asarray(bases.pop(0), dtype=float)
        out = []
        for j in range(P.shape[1]):
            s = 0.0
            for i in range(P.shape[0]):
                s = v[i] * float(P[i, j]) + s
            out.append(s)
        return out
    raise KeyError(t)


def vec_to_values(spec, v):
    """entries of get() of all leaves, flattened, in order."""
    t = spec['t']
    v = list(v)
    if is_dict(spec):
        out, o = [], 0
        for c in children(spec):
            _, k = sizes(c)
            out += vec_to_values(c, v[o:o + k])
            o += k
        return out
    if t in ('pd', 'pdvec', 'pdarr'):
        n = spec['size']
        k = tri(n)
        out = []
        for o in range(0, len(v), k):
            out += sym_full(v[o:o + k], n)
        return out
    return v


def n_values(spec):
    return sum(max(1, prod(value_shape(s))) if s['t'] == 'scalar' else prod(value_shape(s))
               for _, s in leaf_specs(spec))


def check_bases(spec, bases):
    """The observed coordinate maps of subspace leaves are orthonormal bases
    of the complement of the declared rows."""
    leaves = [s for _, s in leaf_specs(spec) if s['t'] == 'subspace']
    need(len(leaves) == len(bases), 'subspace leaf count')
    for s, P in zip(leaves, bases):
        B = np.ones((1, s['dim'])) if s['B'] is None else np.array(s['B'], float)
        close(P, np.asarray(P, float).reshape(s['dim'], s['dim'] - len(B)),
              'subspace coordinates')
        P = np.asarray(P, float)
        close(P.T @ P, np.eye(P.shape[1]), 'orthonormality of the subspace coordinates',
              rtol=1e-9, atol=1e-9)
        scale = np.abs(B).max(axis=1, keepdims=True)
        close((B @ P) / scale, np.zeros((len(B), P.shape[1])),
              'orthogonality of the subspace coordinates', rtol=0, atol=1e-8)


def enc_fun(spec, bases, is_free):
    """encoding -> list of get() values, generic over numbers."""
    if is_free:
        return lambda x: vec_to_values(spec, free_to_vec(spec, x, bases))
    return lambda x: vec_to_values(spec, x)


# ----------------------------------------------------------------- objectives
def prim(name, z):
    if name == 'id':
        return z
    if name == 'sq':
        return z * z
    if name == 'cube':
        return z * z * z
    if name == 'quart':
        return (z * z) * (z * z)
    if name == 'exp':
        return jets.exp(0.3 * z)
    if name == 'sin':
        return jets.sin(z)
    if name == 'sp':
        return jets.log1pexp(z)
    raise KeyError(name)


def eval_terms(terms, v):
    total = 0.0
    for t in terms:
        z = t['b']
        for a, x in zip(t['a'], v):
            if a != 0.0:
                z = x * a + z
        total = prim(t['p'], z) * t['w'] + total
    return total


def eval_objective(obj, v):
    total = eval_terms(obj['terms'], v)
    if obj.get('ridge'):
        for x, r in zip(v, obj['center']):
            d = x - r
            total = d * d * obj['ridge'] + total
    return total
