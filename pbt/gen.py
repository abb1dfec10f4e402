"""Hypothesis strategies for parameters, encodings and objectives."""
import math
import numpy as np
from hypothesis import strategies as st

from pbt import ref

nice = st.integers(-12, 12).map(lambda k: k / 4.0)


def real(lo=-3.0, hi=3.0):
    """A mix of round numbers and arbitrary doubles in [lo, hi]."""
    return st.one_of(
        st.integers(math.ceil(lo * 4), math.floor(hi * 4)).map(lambda k: k / 4.0),
        st.floats(lo, hi, allow_nan=False, allow_subnormal=False))


def whole(x):
    """Nested numbers rounded to whole ones."""
    if isinstance(x, dict):
        return {k: whole(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [whole(v) for v in x]
    return float(round(x)) if isinstance(x, float) and abs(x) < 1e15 else x


def vec(n, elem=None):
    return st.lists(elem if elem is not None else real(), min_size=n, max_size=n)


bound_kinds = st.sampled_from(['none', 'none', 'lb', 'lb', 'ub', 'both', 'both'])


@st.composite
def bounds(draw, modest=False, extreme=False):
    kind = draw(bound_kinds)
    if kind == 'none':
        return None, None
    if modest:
        b = draw(st.sampled_from([0.0, 0.0, -1.0, 0.5, 2.0, -3.25]))
        w = draw(st.sampled_from([1.0, 2.0, 0.5, 4.0]))
    else:
        b = draw(st.one_of(
            st.sampled_from([0.0, 0, 1.0, -1, 10.0, -7.5, 100.0, 1e-3] + [1e6, -3e5, -1e9, 3e8] * extreme),
            st.floats(-50, 50, allow_nan=False, allow_subnormal=False)))
        w = draw(st.one_of(st.sampled_from([1.0, 2.0, 0.01, 1000.0] + [1e-5, 1e9] * extreme),
                           st.floats(0.1, 100.0)))
    if kind == 'lb':
        return b, None
    if kind == 'ub':
        return None, b
    return b, b + w


diag_lbs = st.sampled_from([0.0, 0.0, 0, 0.5, 2, 0.1, 1e-3, 1e-6, 1e-12, 30.0])
minima = st.sampled_from([0.0, 0.0, 0, 0.1, 1, 0.5, 1e-5, 20.0])


@st.composite
def leaf(draw, name='p', small=False, modest=False, types=None):
    t = draw(st.sampled_from(types or [
        'scalar', 'vector', 'vector', 'array', 'array', 'pd', 'pd', 'pdvec',
        'pdarr', 'simplex', 'simplex', 'subspace']))
    if t == 'scalar':
        lb, ub = draw(bounds(modest, not small))
        return dict(t=t, name=name, lb=lb, ub=ub)
    if t == 'vector':
        lb, ub = draw(bounds(modest, not small))
        return dict(t=t, name=name, size=draw(st.integers(1, 3 if small else 5)),
                    lb=lb, ub=ub)
    if t == 'array':
        lb, ub = draw(bounds(modest, not small))
        shape = draw(st.lists(st.integers(1, 2 if small else 3), min_size=1,
                              max_size=2 if small else 3))
        return dict(t=t, name=name, shape=shape, lb=lb, ub=ub)
    if t == 'pd':
        return dict(t=t, name=name, size=draw(st.integers(1, 2 if small else 4)),
                    diag_lb=draw(diag_lbs))
    if t == 'pdvec':
        return dict(t=t, name=name, length=draw(st.integers(1, 2 if small else 3)),
                    size=draw(st.integers(1, 2 if small else 3)),
                    diag_lb=draw(diag_lbs))
    if t == 'pdarr':
        shape = draw(st.lists(st.integers(1, 2), min_size=1, max_size=2))
        return dict(t=t, name=name, shape=shape,
                    size=draw(st.integers(1, 2 if small else 3)),
                    diag_lb=draw(diag_lbs))
    if t == 'simplex':
        return dict(t=t, name=name,
                    shape=[draw(st.integers(1, 2 if small else 3)),
                           draw(st.integers(2, 3 if small else 4))])
    if t == 'subspace':
        dim = draw(st.integers(2, 3 if small else 5))
        if draw(st.booleans()):
            B = None
        else:
            k = draw(st.integers(1, dim - 1))
            # rows made independent by a unit lower-left pattern
            B = []
            for i in range(k):
                row = draw(vec(dim, st.integers(-2, 2).map(float)))
                for j in range(i):
                    row[j] = 0.0
                row[i] = draw(st.sampled_from([1.0, 2.0, -1.0]))
                B.append(row)
            # rows of different sizes
            if draw(st.booleans()):
                B = [[a * u for a in row] for row, u in zip(B, draw(vec(
                    k, st.sampled_from([1.0, 2.0 ** -20, 2.0 ** 12, 2.0 ** -6]))))]
        return dict(t=t, name=name, dim=dim, B=B)
    raise KeyError(t)


@st.composite
def wide(draw, name='p', huge=False):
    """Larger parameters of one type, or dictionaries of many entries."""
    t = draw(st.sampled_from(['vector', 'array', 'pd', 'pdvec', 'pdarr', 'simplex', 'subspace',
                              'dict']))
    i = lambda a, b: draw(st.integers(a, b))
    if t == 'vector':
        lb, ub = draw(bounds(extreme=True))
        return dict(t=t, name=name, size=i(8, 40) * (1000 if huge else 1), lb=lb, ub=ub)
    if t == 'array':
        lb, ub = draw(bounds(extreme=True))
        shape = draw(st.lists(st.integers(2, 4), min_size=2, max_size=5))
        if huge:
            shape = [i(50, 90), 2, i(200, 400)]
        elif draw(st.booleans()):
            shape = draw(st.permutations([i(1, 3), i(10, 14)]))
        return dict(t=t, name=name, shape=shape, lb=lb, ub=ub)
    if t == 'pd':
        return dict(t=t, name=name, size=i(5, 8) * (9 if huge else 1), diag_lb=draw(diag_lbs))
    if t == 'pdvec':
        if draw(st.booleans()):
            return dict(t=t, name=name, length=i(10, 15), size=i(1, 2), diag_lb=draw(diag_lbs))
        return dict(t=t, name=name, length=i(2, 6), size=i(3, 6) * (4 if huge else 1),
                    diag_lb=draw(diag_lbs))
    if t == 'pdarr':
        if draw(st.booleans()):
            return dict(t=t, name=name, shape=draw(st.permutations([i(1, 3), i(10, 13)])), size=i(1, 2),
                        diag_lb=draw(diag_lbs))
        return dict(t=t, name=name, shape=draw(st.lists(st.integers(1, 3), min_size=1, max_size=3)),
                    size=i(3, 5) * (4 if huge else 1), diag_lb=draw(diag_lbs))
    if t == 'simplex':
        return dict(t=t, name=name, shape=[i(3, 13), i(3, 12) * (50 if huge else 1)])
    if t == 'subspace':
        return dict(t=t, name=name, dim=i(6, 12) * (10 if huge else 1), B=None)
    n = i(10, 25)
    names = draw(st.permutations(['p%d' % k for k in range(n)]))
    return dict(t='dict', name=name, children=[
        draw(leaf(nm, small=True)) if not huge or k % 5 else
        dict(t='vector', name=nm, size=2500, lb=None, ub=None)
        for k, nm in enumerate(names)])


@st.composite
def dist(draw, name='p', small=False, types=None):
    t = draw(st.sampled_from(types or [
        'mvn', 'mvn', 'uvn', 'uvnvec', 'uvnarr', 'uvnmoment', 'mvnarr',
        'gamma', 'wishart', 'wishart', 'dirichlet']))
    shape = lambda a, b: draw(st.lists(st.integers(1, 2 if small else 3),
                                       min_size=a, max_size=b))
    m = draw(minima)
    if t == 'mvn':
        return dict(t=t, name=name, dim=draw(st.integers(1, 2 if small else 4)),
                    min_info=m)
    if t == 'uvn':
        return dict(t=t, name=name, min_info=m)
    if t == 'uvnvec':
        return dict(t=t, name=name, length=draw(st.integers(1, 2 if small else 4)),
                    min_info=m)
    if t in ('uvnarr', 'uvnmoment'):
        return dict(t=t, name=name, shape=shape(1, 2 if small else 3), min_info=m)
    if t == 'mvnarr':
        return dict(t=t, name=name, shape=shape(2, 2), min_info=m)
    if t == 'gamma':
        return dict(t=t, name=name, min_shape=m, min_rate=draw(minima))
    if t == 'wishart':
        size = draw(st.integers(1, 2 if small else 4))
        extra = draw(st.sampled_from([None, None, 0.0, 0.5, 3.0]))
        return dict(t=t, name=name, size=size, diag_lb=draw(diag_lbs),
                    min_df=None if extra is None else size - 1 + extra)
    if t == 'dirichlet':
        return dict(t=t, name=name, shape=shape(1, 2), min_alpha=m)
    raise KeyError(t)


NAMES = ['a', 'b', 'c', 'd', 'e', 'x y', 'z', 'mu', 'k_1', '%d{0}']


@st.composite
def mdict(draw, name='p', depth=2, small=False, modest=False, max_children=4,
          leaf_types=None):
    n = draw(st.integers(1, max_children))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=n, max_size=n,
                          unique=True))
    kids = []
    for nm in names:
        kids.append(draw(param(nm, depth - 1, small, modest, leaf_types)))
    return dict(t='dict', name=name, children=kids)


def param(name='p', depth=2, small=False, modest=False, leaf_types=None,
          max_children=4):
    opts = [leaf(name, small, modest, leaf_types)] * 4
    if leaf_types is None:
        opts += [dist(name, small)] * 2
    if depth > 0:
        opts += [mdict(name, depth, small, modest, min(max_children, 3 if small else 4),
                       leaf_types)] * 2
    return st.one_of(*opts)


def some_wide(depth=2):
    """param(), one time in eight larger"""
    return st.integers(0, 7).flatmap(lambda k: wide() if k == 0 else param(depth=depth))


@st.composite
def larger(draw, name='p'):
    """Parameters of ten to some thirty entries, for objectives."""
    i = lambda a, b: draw(st.integers(a, b))
    t = draw(st.sampled_from(['vector', 'array', 'pd', 'pdvec', 'pdarr', 'simplex', 'subspace',
                              'dict', 'mvn', 'dirichlet', 'uvnarr']))
    lb, ub = draw(bounds())
    if t == 'vector':
        return dict(t=t, name=name, size=i(10, 24), lb=lb, ub=ub)
    if t == 'array':
        return dict(t=t, name=name, shape=draw(st.sampled_from([[3, 5], [2, 2, 4], [12, 2], [1, 17]])), lb=lb, ub=ub)
    if t == 'pd':
        return dict(t=t, name=name, size=i(4, 5), diag_lb=draw(diag_lbs))
    if t == 'pdvec':
        l, k = draw(st.sampled_from([(5, 2), (12, 1), (3, 3)]))
        return dict(t=t, name=name, length=l, size=k, diag_lb=draw(diag_lbs))
    if t == 'pdarr':
        s, k = draw(st.sampled_from([([2, 3], 2), ([1, 11], 1), ([3, 1], 3)]))
        return dict(t=t, name=name, shape=s, size=k, diag_lb=draw(diag_lbs))
    if t == 'simplex':
        return dict(t=t, name=name, shape=draw(st.sampled_from([[3, 5], [2, 8], [11, 2], [1, 14]])))
    if t == 'subspace':
        return dict(t=t, name=name, dim=i(8, 13), B=None)
    if t == 'mvn':
        return dict(t=t, name=name, dim=i(4, 5), min_info=draw(minima))
    if t == 'dirichlet':
        return dict(t=t, name=name, shape=draw(st.sampled_from([[3, 4], [11], [2, 2, 3]])), min_alpha=draw(minima))
    if t == 'uvnarr':
        return dict(t=t, name=name, shape=draw(st.sampled_from([[3, 2], [7], [1, 2, 4]])), min_info=draw(minima))
    return dict(t='dict', name=name, children=[draw(leaf(nm, small=True)) for nm in draw(
        st.permutations(NAMES))[:i(4, 6)]])


def some_larger(usual, name='p', one_in=10):
    return st.integers(0, one_in - 1).flatmap(lambda k: larger(name) if k == one_in - 1 else usual)


def pattern(draw, n, elem, k=7):
    """n numbers from few draws"""
    base = draw(vec(k, elem))
    step = draw(st.integers(0, k - 1))
    return [base[(i * i + step * i + i // k) % k] for i in range(n)]


def param_sized(maxfree, **kw):
    return param(**kw).filter(lambda s: ref.sizes(s)[1] <= maxfree)


@st.composite
def free_vec(draw, spec, lo=-2.5, hi=2.5):
    n = ref.sizes(spec)[0]
    if n and draw(st.integers(0, 15)) == 15:
        return [draw(st.sampled_from([0.0, 0.0, 1.0, -0.5]))] * n
    return draw(vec(n, real(lo, hi)))


def round_values(s):
    lb, ub = s['lb'], s['ub']
    if lb is None and ub is None:
        return [0.0, 0.0, 1.0]
    gaps = lambda v: [g for g in (v - lb if lb is not None else None,
                                  ub - v if ub is not None else None) if g is not None]
    ok = [v for v in (0.0, 0.0, 0.0, 0.0, 1.0, -1.0, 2.0) if all(0.05 <= g <= 60 for g in gaps(v))]
    if ok:
        return ok
    if lb is not None and ub is not None:
        return [lb + 0.5 * (ub - lb)]
    return [lb + 1.0 if lb is not None else ub - 1.0]


@st.composite
def point_vec(draw, spec, lo=-2.0, hi=2.0):
    """A valid vector encoding."""
    out = []
    even = draw(st.integers(0, 5)) == 5
    for _, s in ref.leaf_specs(spec):
        f, v = ref.sizes(s)
        if even:
            # zeros and other round values
            if s['t'] == 'subspace':
                out += [0.0] * v
            elif s['t'] in ('scalar', 'vector', 'array'):
                out += [draw(st.sampled_from(round_values(s)))] * v
            else:
                out += [float(a) for a in ref.free_to_vec(s, [0.0] * f)]
        elif s['t'] == 'subspace':
            x = np.array(draw(vec(v, real(lo, hi))))
            B = np.ones((1, v)) if s['B'] is None else np.array(s['B'], float)
            B = B / np.abs(B).max(axis=1, keepdims=True)
            out += (x - B.T @ np.linalg.solve(B @ B.T, B @ x)).tolist()
        else:
            out += [float(a) for a in ref.free_to_vec(s, draw(vec(f, real(lo, hi))))]
    return out


prims = st.sampled_from(['sq', 'cube', 'exp', 'sin', 'sp', 'sq', 'id', 'quart'])
coef = st.sampled_from([0.0, 0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 0.25])


@st.composite
def terms(draw, nvals, lo=1, hi=4, primset=None):
    n = draw(st.integers(lo, hi))
    out = []
    for _ in range(n):
        a = draw(vec(nvals, coef)) if nvals < 10 else [
            0.25 * x for x in pattern(draw, nvals, coef)]
        if not any(a):
            a[draw(st.integers(0, nvals - 1))] = 1.0
        out.append(dict(p=draw(prims if primset is None else primset), a=a,
                        b=draw(st.sampled_from([0.0, 0.5, -1.0, 0.25])),
                        w=draw(st.sampled_from([1.0, -1.0, 0.5, 2.0, -0.3]))))
    return out
