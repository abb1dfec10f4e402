"""Sensitivity problems: generated objectives of an input and a hyperparameter,
strictly convex in the input's encoding around a base point that is an optimum,
and their exact solution curves."""
import math
import numpy as np
from hypothesis import strategies as st, assume

from pbt import gen, ref, jets
from pbt.core import Skip, need, close, equal

NOSUB = ['scalar', 'vector', 'vector', 'array', 'pd', 'pdvec', 'simplex']


def spec(name, most, least=1):
    return st.one_of(
        gen.leaf(name, small=True, modest=True, types=NOSUB),
        gen.leaf(name, small=True, modest=True, types=NOSUB),
        gen.dist(name, small=True),
        gen.mdict(name, 1, small=True, modest=True, max_children=2, leaf_types=NOSUB)
    ).filter(lambda s: least <= ref.sizes(s)[0] and ref.sizes(s)[1] <= most)


BIG = [dict(t='vector', size=n, lb=lb, ub=ub) for n, lb, ub in
       ((11, None, None), (14, 0.0, None), (9, -1.0, 3.0), (21, None, 2.0))] + [
    dict(t='array', shape=[3, 4], lb=None, ub=None), dict(t='array', shape=[2, 2, 3], lb=0.0, ub=None),
    dict(t='pd', size=4, diag_lb=0.0), dict(t='pdvec', length=4, size=2, diag_lb=0.1),
    dict(t='simplex', shape=[3, 4]), dict(t='simplex', shape=[1, 10])]


@st.composite
def big_spec(draw, name):
    return dict(draw(st.sampled_from(BIG)), name=name)


def values(sp, x, free):
    return ref.enc_fun(sp, [], free)(x)


def full(case, va, vb):
    return ref.eval_objective(case['F'], va) + ref.eval_objective(case['G'], list(va) + list(vb))


def in_enc(case, x, h):
    return full(case, values(case['sa'], x, case['afree']), values(case['sb'], h, case['bfree']))


def derivs(case, x, h):
    """(gradient, Hessian, cross Hessian) at (x, h) in the declared encodings."""
    n, m = len(x), len(h)
    z = jets.D2.variables(list(x) + list(h))
    _, g, H = jets.d2_parts(in_enc(case, z[:n], z[n:]), n + m)
    return g[:n], H[:n, :n], H[:n, n:]


def solve(case, x0, h0, steps=30):
    """Newton's method for the optimum in x at h."""
    x = np.array(x0, float)
    for _ in range(steps):
        g, H, _ = derivs(case, x.tolist(), h0)
        if not (np.all(np.isfinite(g)) and np.all(np.isfinite(H))):
            return None
        if np.linalg.eigvalsh(0.5 * (H + H.T))[0] <= 0.05:
            return None
        step = np.linalg.solve(H, g)
        if np.abs(step).max() > 1.0:
            return None
        x = x - step
        if np.abs(step).max() < 1e-14 * (1 + np.abs(x).max()):
            break
    else:
        if np.abs(step).max() > 1e-12 * (1 + np.abs(x).max()):
            return None
    return x.tolist()


def good(H, worst=1e4, least=0.3):
    w = np.linalg.eigvalsh(0.5 * (H + H.T))
    return np.all(np.isfinite(w)) and w[0] >= least and w[-1] <= worst * w[0]


def _small(terms, k):
    for t in terms:
        t['a'] = [k * a for a in t['a']]
    return terms


@st.composite
def problem(draw, most_in=4, most_hyper=3, force_free=None, rebase=True, big=None):
    sa, sb = draw(spec('a', most_in)), draw(spec('b', most_hyper))
    if big is not None:
        if 'a' in big:
            sa = draw(big_spec('a'))
        if 'b' in big:
            sb = draw(big_spec('b'))
    afree = draw(st.booleans()) if force_free is None else force_free[0]
    bfree = draw(st.booleans()) if force_free is None else force_free[1]
    x0 = draw(gen.free_vec(sa, -1, 1) if afree else gen.point_vec(sa, -1, 1))
    h0 = draw(gen.free_vec(sb, -1, 1) if bfree else gen.point_vec(sb, -1, 1))
    # directions and new hyperparameters of whole numbers, given as integers.
    # (Points of differentiation stay floats: the installed autograd truncates or
    # refuses derivatives at integer arrays.)
    whole = draw(st.sampled_from([False, False, True]))
    na, nb = ref.n_values(sa), ref.n_values(sb)
    F = dict(terms=_small(draw(gen.terms(na, 1, 3)), 0.5))
    G = dict(terms=_small(draw(gen.terms(na + nb, 1, 3)), 0.5))
    # tie the two together in at least one term
    t = G['terms'][0]
    if not any(t['a'][:na]):
        t['a'][draw(st.integers(0, na - 1))] = 0.5
    if not any(t['a'][na:]):
        t['a'][na + draw(st.integers(0, nb - 1))] = -0.5
    if t['p'] == 'id':
        t['p'] = 'sin'
    case = dict(sa=sa, sb=sb, afree=afree, bfree=bfree, F=F, G=G, x0=x0, h0=h0, whole=whole)
    # make the base point stationary with a linear term in the values
    g, H, _ = derivs(case, x0, h0)
    z = jets.D2.variables(x0)
    va = [jets.d2_parts(v, len(x0)) for v in values(sa, z, afree)]
    J = np.array([v[1] for v in va])
    l = np.linalg.lstsq(J.T, g, rcond=None)[0]
    F['terms'].append(dict(p='id', a=(-l).tolist(), b=0.0, w=1.0))
    F['center'] = [float(v[0]) for v in va]
    for c in (0.25, 0.5, 1.0, 2.0, 4.0, 8.0, 16.0, 32.0, 64.0, 128.0):
        F['ridge'] = c
        g, H, _ = derivs(case, x0, h0)
        if good(H):
            break
    else:
        assume(False)
    assume(np.abs(g).max() < 1e-9 * (1 + np.abs(H).max()))
    if rebase:
        d = draw(gen.vec(len(h0), st.sampled_from([0.1, -0.1, 0.0, 0.2])))
        if sb['t'] == 'simplex' and not bfree:
            d = [0.0] * len(d)
        h1 = [a + b for a, b in zip(h0, d)]
        x1 = solve(case, x0, h1)
        assume(x1 is not None)
        _, H1, _ = derivs(case, x1, h1)
        assume(good(H1))
        assume(np.abs(np.array(x1) - x0).max() < 3)
        case['x1'], case['h1'] = x1, h1
    return case


def curve(case, x0, h0, dh, order):
    """[eta_1, ..., eta_order]: derivatives of the curve of solutions of
    grad(x(t), h0 + t dh) = grad(x0, h0)."""
    n = len(x0)
    K = order + 1
    _, H, _ = derivs(case, x0, h0)
    hs = []
    for a, d in zip(h0, dh):
        c = np.zeros(K)
        c[0] = a
        if K > 1:
            c[1] = d
        hs.append(jets.Series(c))
    vb = values(case['sb'], hs, case['bfree'])
    eta = np.zeros((n, K))
    eta[:, 0] = x0
    for it in range(order):
        xs = jets.Dual.variables([jets.Series(e) for e in eta])
        va = values(case['sa'], xs, case['afree'])
        y = full(case, va, vb)
        G = np.zeros((n, K))
        if isinstance(y, jets.Dual):
            for i, gi in enumerate(y.g):
                if isinstance(gi, jets.Series):
                    G[i] = gi.c
                else:
                    G[i, 0] = gi
        G[:, 0] = 0.0
        k = it + 1
        eta[:, k] -= np.linalg.solve(H, G[:, k])
    return [eta[:, k] * math.factorial(k) for k in range(1, K)]


# ------------------------------------------------ C09: state after each call
@st.composite
def state_case(draw):
    cls = draw(st.sampled_from(['taylor', 'taylor', 'linear', 'old']))
    p = draw(problem(force_free=(True, False) if cls == 'old' else None))
    p['cls'] = cls
    p['order'] = draw(st.integers(1, 2))
    p['part'] = draw(st.booleans())
    p['dh'] = draw(gen.vec(len(p['h0']), st.sampled_from([0.5, -0.25, 1.0, 0.0])))
    calls = ['deriv', 'predict', 'rebase']
    if cls == 'taylor':
        # only these evaluations set the parameters back after someone else
        # has moved them
        calls = ['deriv', 'deriv', 'predict', 'set_order', 'rebase', 'move']
    p['calls'] = draw(st.lists(st.sampled_from(calls), min_size=1, max_size=6))
    return p


def state_judge(case, obs):
    base = (case['x0'], case['h0'])
    labels = [case['cls']]

    def check(s, what):
        for k, x, free, sp in (('in', base[0], case['afree'], case['sa']),
                               ('hyper', base[1], case['bfree'], case['sb'])):
            want = np.array(ref.free_to_vec(sp, x, []) if free else x, float)
            close(s[k], want, 'the %s parameter after %s' % (k, what), rtol=1e-9,
                  atol=1e-11 * (1 + np.abs(want).max()))
    check(obs['start'], 'construction')
    moved = False
    for c, s in zip(case['calls'], obs['snaps']):
        if c == 'rebase':
            base = (case['x1'], case['h1'])
        if c == 'move' or c == 'set_order':
            moved = True if c == 'move' else moved
        else:
            moved = False
        if not moved:
            check(s, c)
        labels.append(c)
    return labels
