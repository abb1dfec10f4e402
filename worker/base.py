"""Shared worker-side helpers: encoding, parameter construction, objectives."""
import sys
import copy
import numbers
import zlib

import numpy as onp
import scipy.sparse as osparse
import autograd
import autograd.numpy as np
from autograd.tracer import Box

import LinearResponseVariationalBayes as vb

EXECUTORS = {}


def executor(name):
    def deco(fn):
        EXECUTORS[name] = fn
        return fn
    return deco


def enc(x):
    if isinstance(x, Box):
        return {'weird': 'autograd box %s' % type(x).__name__}
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, onp.bool_):
        return bool(x)
    if osparse.issparse(x):
        c = x.tocoo()
        return {'sp': x.format, 's': [int(k) for k in c.shape],
                'r': [int(k) for k in c.row], 'c': [int(k) for k in c.col],
                'v': [_num(k) for k in c.data.tolist()], 'd': c.dtype.kind}
    if isinstance(x, onp.ndarray):
        x = onp.asarray(x)
        if x.dtype == object:
            return {'weird': 'object array holding %s' % sorted(
                set(type(v).__name__ for v in x.ravel()))}
        return {'a': [_num(v) for v in x.ravel().tolist()],
                's': [int(k) for k in x.shape], 'd': x.dtype.kind}
    if isinstance(x, onp.generic):
        if x.dtype.kind in 'SU':
            return str(x)
        return {'a': [_num(x.item())], 's': [], 'd': x.dtype.kind}
    if isinstance(x, numbers.Number):
        return _num(x)
    if isinstance(x, dict):
        return {str(k): enc(v) for k, v in x.items()}
    if isinstance(x, range):
        return [int(k) for k in x]
    if isinstance(x, (list, tuple)):
        return [enc(v) for v in x]
    return {'weird': 'unexpected %s' % type(x).__name__}


def _num(v):
    if isinstance(v, complex):
        return {'weird': 'complex'}
    return v


def attempt(fn):
    """Run fn; report the exception it raised, or its result."""
    try:
        return {'ret': fn()}
    except Exception as exc:
        return {'exc': type(exc).__name__, 'msg': str(exc)[:300]}


def arr(x):
    """float array from nested lists; {'a','s'} form keeps empty shapes."""
    if isinstance(x, dict):
        a = onp.array(x['a'], dtype=x.get('t', 'float64')).reshape(x['s'])
    else:
        a = onp.array(x, dtype='float64')
    return layout(a)


def ints(x, on=True):
    """arr(x), as integers when on and every entry is a whole number"""
    a = arr(x)
    if on and a.size and onp.all(onp.isfinite(a)) and onp.all(a == onp.round(a)) and onp.abs(a).max() < 2 ** 53:
        return layout(a.astype('int64'))
    return a


def forgiving(run):
    """run(True), with whole numbers given as integers; run(False) where autograd
    refuses to differentiate with respect to integers."""
    try:
        return run(True)
    except TypeError as exc:
        if 'differentiate w.r.t. type' not in str(exc):
            raise
    return run(False)


class Buffers(object):
    """Arrays by name.  When on, a name's array is one object, overwritten in
    place by the next values of the same shape, as callers do who keep their
    points in one array."""

    def __init__(self, on):
        self.on, self.held = on, {}

    def __call__(self, name, values):
        a = values if isinstance(values, onp.ndarray) else arr(values)
        old = self.held.get(name)
        if not self.on or old is None or old.shape != a.shape or old.dtype != a.dtype:
            self.held[name] = a
            return a
        old[...] = a
        return old


def layout(a):
    """The same array in a memory layout chosen by its contents."""
    if a.ndim == 0 or a.size < 2:
        return a
    k = zlib.crc32(a.tobytes()) % 6
    if k == 0:
        return onp.array(a, order='F')
    if k == 1:
        # every other entry of a wider array
        b = onp.full(a.shape[:-1] + (2 * a.shape[-1],), 7.25).astype(a.dtype)
        b[..., ::2] = a
        return b[..., ::2]
    if k == 2:
        return a[::-1].copy()[::-1]
    if k == 3 and a.ndim > 1:
        # a block inside a larger matrix
        b = onp.full(tuple(n + 2 for n in a.shape), -3.5).astype(a.dtype)
        ix = tuple(slice(1, n + 1) for n in a.shape)
        b[ix] = a
        return b[ix]
    return a


def lo(x):
    return -float('inf') if x is None else x


def hi(x):
    return float('inf') if x is None else x


def build(spec, value=None):
    """Construct the parameter a spec describes (at its default value)."""
    t = spec['t']
    name = spec.get('name', 'p')
    kw = {}
    if value is not None:
        kw['val'] = value
    if t == 'scalar':
        return vb.ScalarParam(name, lb=lo(spec['lb']), ub=hi(spec['ub']), **kw)
    if t == 'vector':
        return vb.VectorParam(name, spec['size'], lb=lo(spec['lb']),
                              ub=hi(spec['ub']), **kw)
    if t == 'array':
        return vb.ArrayParam(name, tuple(spec['shape']), lb=lo(spec['lb']),
                             ub=hi(spec['ub']), **kw)
    if t == 'pd':
        return vb.PosDefMatrixParam(name, spec['size'],
                                    diag_lb=spec['diag_lb'], **kw)
    if t == 'pdvec':
        return vb.PosDefMatrixParamVector(
            name, spec['length'], spec['size'], diag_lb=spec['diag_lb'], **kw)
    if t == 'pdarr':
        return vb.PosDefMatrixParamArray(
            name, tuple(spec['shape']), spec['size'],
            diag_lb=spec['diag_lb'], **kw)
    if t == 'simplex':
        return vb.SimplexParam(name, tuple(spec['shape']), **kw)
    if t == 'subspace':
        B = spec['B']
        return vb.SubspaceVectorParam(
            name, spec['dim'],
            perp_subspace=None if B is None else arr(B), **kw)
    if t == 'dict':
        d = vb.ModelParamsDict(name)
        for c in spec['children']:
            d.push_param(build(c))
        return d
    if t == 'mvn':
        return vb.MVNParam(name, spec['dim'], min_info=spec['min_info'])
    if t == 'uvn':
        return vb.UVNParam(name, min_info=spec['min_info'])
    if t == 'uvnvec':
        return vb.UVNParamVector(name, spec['length'], min_info=spec['min_info'])
    if t == 'uvnarr':
        return vb.UVNParamArray(name, tuple(spec['shape']),
                                min_info=spec['min_info'])
    if t == 'uvnmoment':
        return vb.UVNMomentParamArray(name, tuple(spec['shape']),
                                      min_info=spec['min_info'])
    if t == 'mvnarr':
        return vb.MVNArray(name, tuple(spec['shape']),
                           min_info=spec['min_info'])
    if t == 'gamma':
        return vb.GammaParam(name, min_shape=spec['min_shape'],
                             min_rate=spec['min_rate'])
    if t == 'wishart':
        return vb.WishartParam(name, spec['size'], diag_lb=spec['diag_lb'],
                               min_df=spec['min_df'])
    if t == 'dirichlet':
        return vb.DirichletParamArray(name, tuple(spec['shape']),
                                      min_alpha=spec['min_alpha'])
    raise KeyError(t)


CHILD_NAMES = {
    'mvn': ('mean', 'info'), 'uvn': ('mean', 'info'),
    'uvnvec': ('mean', 'info'), 'uvnarr': ('mean', 'info'),
    'uvnmoment': ('e', 'e2'), 'mvnarr': ('mean', 'info'),
    'gamma': ('shape', 'rate'), 'wishart': ('df', 'v'),
    'dirichlet': ('alpha',)}


def leaves(spec, par):
    """The leaf parameters in order, as (spec or None, parameter)."""
    t = spec['t']
    if t == 'dict':
        out = []
        for c in spec['children']:
            out += leaves(c, par[c['name']])
        return out
    if t in CHILD_NAMES:
        return [(None, par[n]) for n in CHILD_NAMES[t]]
    return [(spec, par)]


def flat_values(spec, par):
    """All entries of all leaves' get(), flattened in order (autograd-safe)."""
    return np.hstack([np.reshape(p.get(), (-1,))
                      for _, p in leaves(spec, par)])


def raw_values(spec, par):
    """List of each leaf's get() as-is."""
    return [p.get() for _, p in leaves(spec, par)]


def bases(spec):
    """For each subspace leaf: matrix whose columns are set_free(e_i)."""
    out = []
    for s, _ in leaves(spec, build(spec)):
        if s is not None and s['t'] == 'subspace':
            p = build(s)
            k = p.free_size()
            cols = []
            for i in range(k):
                e = onp.zeros(k)
                e[i] = 1.0
                p.set_free(e)
                cols.append(onp.array(p.get(), dtype=float))
            out.append(onp.array(cols).T)
    return out


# ---------------------------------------------------------------------------
# Objective language, interpreted here with autograd and on the driver's side
# with jets.  An objective is a list of terms over a vector of values v:
#   {"p": prim, "w": weight, "a": [coef...], "b": const}
# -> w * prim(a . v + b); plus ridge  c0 * sum (v_i - r_i)^2.
def prim(name, z):
    if name == 'id':
        return z
    if name == 'sq':
        return z * z
    if name == 'cube':
        return z * z * z
    if name == 'quart':
        return (z * z) * (z * z)
    if name == 'exp':
        return np.exp(0.3 * z)
    if name == 'sin':
        return np.sin(z)
    if name == 'sp':
        return np.logaddexp(0., z)
    raise KeyError(name)


def lin(coefs, v):
    return np.dot(onp.array(coefs, dtype=float), v)


def eval_terms(terms, v):
    total = 0.0
    for t in terms:
        z = lin(t['a'], v) + t['b']
        total = total + t['w'] * prim(t['p'], z)
    return total


def eval_objective(obj, v):
    total = eval_terms(obj['terms'], v)
    if obj.get('ridge'):
        r = onp.array(obj['center'], dtype=float)
        total = total + obj['ridge'] * np.sum((v - r) ** 2)
    return total


def snapshot(par):
    """Everything observable about a parameter's state."""
    return {'vec': par.get_vector()}
