import math
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Prop, Sub, Violation, Skip, need, close, equal, check_shape, fail

EPS = np.finfo(float).eps
TINY = 1e-322  # spacing of subnormal numbers


def check_constraints(spec, values, what):
    """values: observed get() of each leaf, against the declared constraints"""
    for (path, s), v in zip(ref.leaf_specs(spec), values):
        w = '%s of %s' % (what, '.'.join(path) or s['t'])
        v = np.asarray(v, dtype=float)
        shape = ref.value_shape(s)
        if s['t'] == 'scalar':
            need(v.size == 1, '%s: scalar holds %s', w, v.shape)
        else:
            check_shape(v, shape, w)
        need(np.all(np.isfinite(v)), '%s is not finite: %s', w, v.tolist())
        t = s['t']
        if t in ('scalar', 'vector', 'array'):
            # one rounding of the affine map is allowed at the end points
            for b, sg in ((s['lb'], 1), (s['ub'], -1)):
                if b is not None:
                    span = abs(b) + (s['ub'] - s['lb'] if None not in (s['lb'], s['ub']) else 0)
                    need(np.all(sg * (v - b) >= -2 * EPS * span),
                         '%s = %s violates the bound %r', w, v.tolist(), b)
        elif t in ('pd', 'pdvec', 'pdarr'):
            n = s['size']
            for A in v.reshape((-1, n, n)):
                need(np.array_equal(A, A.T), '%s is not symmetric: %s', w, A.tolist())
                ev = np.linalg.eigvalsh(A - s['diag_lb'] * np.eye(n))
                need(ev[0] >= -20 * n * EPS * (np.abs(A).max() + s['diag_lb']),
                     '%s is not positive definite above %r: eigenvalues %s',
                     w, s['diag_lb'], ev.tolist())
                need(np.all(np.diag(A) >= s['diag_lb'] * (1 - 4 * EPS)),
                     '%s has diagonal below %r', w, s['diag_lb'])
        elif t == 'simplex':
            need(np.all(v >= 0), '%s has negative entries', w)
            close(v.sum(axis=1), np.ones(shape[0]), 'row sums of ' + w, rtol=0, atol=1e-12 * shape[1])
        elif t == 'subspace':
            B = np.ones((1, s['dim'])) if s['B'] is None else np.array(s['B'], float)
            close(B @ v, np.zeros(len(B)), w + ' against the declared rows', rtol=0,
                  atol=1e-8 * np.abs(B).sum(axis=1) * max(np.abs(v).max(), 1e-300))


def ratio(a, b):
    b = float(b)
    return a / b if b > 0 and a / 1e300 < b else math.inf


def free_tol(s, x):
    """absolute error to expect when reading back the free vector x of leaf s;
    inf where the map has lost the information."""
    t = s['t']
    out = []
    if t in ('scalar', 'vector', 'array'):
        lb, ub = s['lb'], s['ub']
        for a in x:
            if lb is None and ub is None:
                out.append(0.0)
                continue
            v = float(ref.constrain1(a, lb, ub))
            size = abs(v) + sum(abs(b) for b in (lb, ub) if b is not None)
            tol = 8 * EPS * (1 + abs(a))
            # a logistic below the normal range, times the width
            tiny = TINY * (1 + (ub - lb if lb is not None and ub is not None else 0))
            if lb is not None:
                gap = math.exp(a) if ub is None else (ub - lb) * ref.jets.sig(a)
                tol += ratio(8 * EPS * (abs(v) + abs(lb)) + tiny, gap)
            if ub is not None:
                gap = math.exp(-a) if lb is None else (ub - lb) * ref.jets.sig(-a)
                tol += ratio(8 * EPS * size + tiny, gap)
            if tol > 1e-3 or not tol == tol:
                tol = math.inf
            out.append(tol)
    elif t in ('pd', 'pdvec', 'pdarr'):
        n = s['size']
        k = ref.tri(n)
        for o in range(0, len(x), k):
            L = np.zeros((n, n))
            L[np.tril_indices(n)] = x[o:o + k]
            L[np.diag_indices(n)] = np.exp(np.diag(L))
            A = L @ L.T
            sv = np.linalg.svd(L, compute_uv=False)
            lam = sv[-1] ** 2
            big = sv[0] ** 2 + s['diag_lb']
            # also guards the accuracy of lam itself
            rel = 40 * n * EPS * big / lam if lam > 0 else math.inf
            if not rel < 1e-4 or sv[0] / max(sv[-1], 1e-300) > 1e7:
                out += [math.inf] * k
            else:
                out += [rel * (1 + sv[0])] * k
    elif t == 'simplex':
        r, c = s['shape']
        for i in range(r):
            z = [0.0] + list(x[i * (c - 1):(i + 1) * (c - 1)])
            big = max(z) - min(z)
            out += [math.inf if big > 650 else 20 * EPS * (1 + big)] * (c - 1)
    elif t == 'subspace':
        m = max([abs(a) for a in x] + [0.0])
        out += [1e-9 * (m + 1e-300)] * len(x)
    return out


def split(spec, x, which):
    o = 0
    for path, s in ref.leaf_specs(spec):
        k = ref.sizes(s)[which]
        yield path, s, x[o:o + k]
        o += k


def judge_free(case, obs):
    spec, x = case['spec'], case['free']
    f, v = ref.sizes(spec)
    need(obs['free_size'] == f, 'free size %s, expected %d', obs['free_size'], f)
    need(obs['vector_size'] == v, 'vector size %s, expected %d', obs['vector_size'], v)
    equal(obs['arg'], np.array(x, float), 'the caller\'s free vector after set_free')
    ref.check_bases(spec, obs['bases'])
    check_constraints(spec, obs['values'], 'value')
    want = np.array(ref.free_to_vec(spec, x, obs['bases']), float)
    atol = []
    for path, s, xs in split(spec, x, 0):
        nv = ref.sizes(s)[1]
        if s['t'] in ('pd', 'pdvec', 'pdarr'):
            m = max([1e-300] + [abs(a) for a in ref._f2v(s, list(xs), [])])
            atol += [1e-13 * m] * nv
        elif s['t'] in ('scalar', 'vector', 'array'):
            lb, ub = s['lb'], s['ub']
            m = max(abs(lb or 0), abs(ub or 0))
            tiny = TINY * (1 + (ub - lb if lb is not None and ub is not None else 0))
            # near the lower of two bounds only that bound's size matters
            atol += [1e-14 * (abs(lb) if a < 0 and lb is not None and ub is not None else m) + tiny
                     for a in xs]
        elif s['t'] == 'subspace':
            atol += [1e-12 * max([abs(a) for a in xs] + [0])] * nv
        else:
            atol += [1e-307] * nv
    close(obs['vec'], want, 'vector encoding after set_free', rtol=1e-11, atol=np.array(atol))
    # values agree with the vector encoding
    flat = np.concatenate([np.asarray(a, float).ravel() for a in obs['values']])
    equal(flat, np.array(ref.vec_to_values(spec, list(obs['vec']))), 'value against vector encoding')
    tol = np.array(sum([free_tol(s, xs) for _, s, xs in split(spec, x, 0)], []))
    labels = []
    r = obs['free']
    if 'exc' in r:
        if np.all(np.isfinite(tol)):
            fail('get_free after set_free raised %s: %s', r['exc'], r['msg'])
        return ['saturated']
    got = np.asarray(r['ret'], float)
    check_shape(got, (f,), 'free encoding')
    ok = np.isfinite(tol)
    close(got[ok], np.array(x, float)[ok], 'free encoding read back', rtol=0, atol=tol[ok])
    labels.append('readback')
    for _, s, _ in split(spec, x, 0):
        labels.append(s['t'])
    if max([abs(a) for a in x] + [0]) > 20:
        labels.append('large')
    return labels


@st.composite
def free_case(draw):
    spec = draw(gen.some_wide())
    extreme = draw(st.sampled_from([False, False, False, True]))
    x = []
    for _, s in ref.leaf_specs(spec):
        k = ref.sizes(s)[0]
        if not extreme:
            x += draw(gen.vec(k, gen.real(-3, 3)))
        elif s['t'] in ('scalar', 'vector', 'array'):
            two = s['lb'] is not None and s['ub'] is not None
            one = s['lb'] is not None or s['ub'] is not None
            m = 1e6 if two else (600.0 if one else 1e12)
            x += draw(gen.vec(k, st.one_of(gen.real(-40, 40), gen.real(-m, m),
                                           gen.real(max(-m, -744), min(m, 744)))))
        elif s['t'] == 'simplex':
            x += draw(gen.vec(k, st.one_of(gen.real(-40, 40), gen.real(-800, 800))))
        elif s['t'] == 'subspace':
            x += draw(gen.vec(k, gen.real(-1e6, 1e6)))
        else:
            x += draw(gen.vec(k, draw(st.sampled_from([gen.real(-7, 7), gen.real(-40, 8)]))))
    before = None
    if draw(st.booleans()):
        before = draw(gen.free_vec(spec))
    # whole numbers, given as integers
    ints = draw(st.integers(0, 7)) == 0
    return dict(spec=spec, free=gen.whole(x) if ints else x, before=before, whole=ints)


@st.composite
def valid_value(draw, s):
    """a valid value built without the free map"""
    t = s['t']
    shape = ref.value_shape(s)
    n = ref.prod(shape)
    if t in ('scalar', 'vector', 'array'):
        lb, ub = s['lb'], s['ub']
        out = []
        # distances from the bound over the whole range the bound's own size allows
        low = max([1e-5 * abs(b) for b in (lb, ub) if b is not None] + [1e-280])
        top = 14.0 if ub is None or lb is None else math.log10((ub - lb) / 4)
        far = st.floats(min(math.log10(low), top), top).map(lambda k: 10.0 ** k)
        far = st.one_of(far, st.floats(-20.0, 20.0).map(lambda k: max(10.0 ** k, low)))
        for _ in range(max(n, 1)):
            if lb is None and ub is None:
                out.append(draw(st.one_of(gen.real(-20, 20), gen.real(-1e300, 1e300))))
            elif ub is None:
                out.append(lb + draw(st.one_of(st.sampled_from([1.0, 0.25, 3.0]), st.floats(1e-3, 50), far)))
            elif lb is None:
                out.append(ub - draw(st.one_of(st.sampled_from([1.0, 0.25, 3.0]), st.floats(1e-3, 50), far)))
            else:
                v = lb + (ub - lb) * draw(st.one_of(
                    st.sampled_from([0.5, 0.25, 0.75]), st.floats(0.01, 0.99)))
                near = draw(st.one_of(st.none(), far))
                if near is not None and near < (ub - lb) / 4:
                    v = draw(st.sampled_from([lb + near, ub - near]))
                out.append(v)
        return out[0] if t == 'scalar' else dict(a=out, s=list(shape))
    if t in ('pd', 'pdvec', 'pdarr'):
        k = s['size']
        out = []
        for _ in range(n // (k * k)):
            sc = 1.0 if s['diag_lb'] else draw(st.sampled_from([1.0, 1.0, 1e-12, 1e12, 2.0 ** -40]))
            M = np.array(draw(gen.vec(k * k, st.integers(-3, 3).map(float)))).reshape(k, k)
            A = M @ M.T + (s['diag_lb'] + draw(st.sampled_from([1.0, 0.25, 4.0]))) * np.eye(k)
            out += (sc * A).ravel().tolist()
        return dict(a=out, s=list(shape))
    if t == 'simplex':
        r, c = shape
        out = []
        for _ in range(r):
            w = draw(st.lists(st.one_of(st.integers(1, 9), st.integers(1, 9), st.just(1e-18), st.just(1e-250)),
                              min_size=c, max_size=c))
            out += [a / float(sum(w)) for a in w]
        return dict(a=out, s=list(shape))
    if t == 'subspace':
        B = np.ones((1, s['dim'])) if s['B'] is None else np.array(s['B'], float)
        v = np.array(draw(gen.vec(s['dim'], gen.real(-5, 5))))
        B = B / np.abs(B).max(axis=1, keepdims=True)
        w = v - B.T @ np.linalg.solve(B @ B.T, B @ v)
        w[np.abs(w) < 1e-12 * np.abs(v).max()] = 0.0
        # what remains may be all rounding error
        w = w - B.T @ np.linalg.solve(B @ B.T, B @ w)
        w[np.abs(w) < 1e-12 * np.abs(w).max()] = 0.0
        return dict(a=w.tolist(), s=list(shape))
    raise KeyError(t)


@st.composite
def whole_value(draw, s):
    """a valid value of whole numbers, where there is one"""
    t, shape = s['t'], ref.value_shape(s)
    n = ref.prod(shape)
    if t in ('scalar', 'vector', 'array'):
        lb, ub = s['lb'], s['ub']
        lo = math.floor(lb) + 1 if lb is not None else (-9 if ub is None else math.ceil(ub) - 9)
        hi = math.ceil(ub) - 1 if ub is not None else lo + 9
        big = max([abs(b) for b in (lb, ub) if b is not None] + [0])
        if lo > hi or big > 1e6 or any(b is not None and abs(a - b) < 0.01 for a, b in ((lo, lb), (hi, ub))):
            return draw(valid_value(s))
        out = draw(gen.vec(max(n, 1), st.integers(lo, hi).map(float)))
        return out[0] if t == 'scalar' else dict(a=out[:n], s=list(shape))
    if t in ('pd', 'pdvec', 'pdarr') and s['diag_lb'] < 1e6:
        k = s['size']
        out = []
        for _ in range(n // (k * k)):
            K = np.tril(np.array(draw(gen.vec(k * k, st.integers(-1, 1).map(float)))).reshape(k, k), -1)
            out += (K + K.T + np.eye(k) * (k + 1 + math.ceil(s['diag_lb']))).ravel().tolist()
        return dict(a=out, s=list(shape))
    return draw(valid_value(s))


@st.composite
def value_case(draw):
    spec = draw(gen.some_wide(1))
    if draw(st.integers(0, 7)) == 0:
        return dict(spec=spec, whole=True, values=[draw(whole_value(s)) for _, s in ref.leaf_specs(spec)])
    return dict(spec=spec, values=[draw(valid_value(s)) for _, s in ref.leaf_specs(spec)])


def judge_value(case, obs):
    spec = case['spec']
    ref.check_bases(spec, obs['bases'])
    vec = []
    for (path, s), v in zip(ref.leaf_specs(spec), case['values']):
        a = np.array([v] if isinstance(v, float) else v['a']).reshape(ref.value_shape(s))
        if s['t'] in ('pd', 'pdvec', 'pdarr'):
            n = s['size']
            for A in a.reshape((-1, n, n)):
                vec += A[np.tril_indices(n)].tolist()
        else:
            vec += a.ravel().tolist()
    equal(np.asarray(obs['vec'], float), np.array(vec), 'vector encoding of a value that was set')
    want = np.array(ref.vec_to_free(spec, vec, obs['bases']), float)
    ftol, vtol, o, p = [], [], 0, 0
    for path, s in ref.leaf_specs(spec):
        nf, nv = ref.sizes(s)
        x, v = want[o:o + nf].tolist(), vec[p:p + nv]
        o, p = o + nf, p + nv
        ftol += free_tol(s, x)
        big = max(abs(a) for a in v)
        if s['t'] in ('scalar', 'vector', 'array'):
            far = [abs(b) for b in (s['lb'], s['ub']) if b is not None]
            vtol += [1e-13 * (abs(a) * (1 + (abs(b) if far else 0)) + sum(far)) for a, b in zip(v, x)]
        elif s['t'] == 'simplex':
            vtol += [1e-12 * a for a in v]
        elif s['t'] == 'subspace':
            vtol += [1e-9 * big] * nv
        else:
            vtol += [1e-12 * (big + s['diag_lb'])] * nv
    ok = np.isfinite(ftol)
    close(np.asarray(obs['free'], float)[ok], want[ok], 'free encoding of a valid value', rtol=0,
          atol=4 * np.array(ftol)[ok])
    close(obs['vec_back'], np.array(vec), 'value restored from its free encoding', rtol=0,
          atol=np.array(vtol))
    check_constraints(spec, obs['back'], 'restored value')
    if 'ctor' in obs:
        equal(np.asarray(obs['ctor'], float), np.array(vec), 'vector encoding of a value given at construction')
    return [s['t'] for _, s in ref.leaf_specs(spec)]


PROP = Prop(
    'C01', ['ex_params'],
    [Sub('free', free_case(), 'c01_free', judge_free, 9600, 96000,
         nontrivial=lambda c: any(c['free'])),
     Sub('value', value_case(), 'c01_value', judge_value, 4800, 48000)],
    rule='Parameter specs (every type, nested dictionaries to depth 2, bounds none/lower/'
         'upper/both, diagonal bounds, subspace rows) with free vectors (moderate and '
         'extreme) or valid values; non-trivial = free vector not all zero, or a value case.',
    assumptions=['The reference maps in pbt/ref.py are the documented ones.',
                 'Tolerances follow the conditioning of the map; entries where the map '
                 'has lost the information in rounding are not compared.'])
