import math
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Prop, Sub, Skip, need, close, equal
from pbt.props.c20 import convex, derivs


@st.composite
def thresholds(draw, must=False):
    lo = draw(st.sampled_from([1e-3, 0.5, 1.0, 2.0] if must else [None, None, 1e-3, 0.5, 1.0, 2.0]))
    hi = draw(st.sampled_from([None, None, 2.5, 4.0, 100.0, 0.75]))
    if lo is not None and hi is not None and hi < lo:
        hi = lo + hi
    kw = {}
    if lo is not None or draw(st.booleans()):
        kw['ev_min'] = lo
    if hi is not None or draw(st.booleans()):
        kw['ev_max'] = hi
    return kw


def entries(draw, n, elem):
    return draw(gen.vec(n * n, elem)) if n < 10 else gen.pattern(draw, n * n, elem, 23)


@st.composite
def case(draw):
    n = draw(st.one_of(st.integers(1, 5), st.integers(1, 8)))
    kw = draw(thresholds())
    lo = kw.get('ev_min')
    ev = [1.0, 2.0, 3.0, 0.25, 50.0, 1e-2]
    if lo is not None:
        ev += [-1.0, 0.0, -20.0, 1e-9, lo]
    if kw.get('ev_max') is not None:
        ev.append(kw['ev_max'])
    # just inside and outside the thresholds
    for b in (lo, kw.get('ev_max')):
        if b is not None:
            d = draw(st.sampled_from([1e-3, 1e-5, 1e-7, 1e-9]))
            ev += [b * (1 - d), b * (1 + d)]
    big = draw(st.integers(0, 11)) == 0
    if big:
        n = draw(st.sampled_from([10, 13, 17, 24, 40]))
    w = draw(gen.vec(n, st.one_of(st.sampled_from(ev), st.floats(0.05, 20.0)))) if not big else \
        gen.pattern(draw, n, st.one_of(st.sampled_from(ev), st.floats(0.05, 20.0)))
    kind = draw(st.sampled_from(['diag', 'full', 'full', 'full', 'int']))
    if kind == 'int':
        m = np.array(entries(draw, n, st.integers(-2, 2))).reshape(n, n)
        m = (m @ m.T + 2 * np.eye(n, dtype=int)).astype(int)
    else:
        Q = np.eye(n)
        if kind == 'full':
            Q = np.linalg.qr(np.array(entries(draw, n, gen.real(-1, 1))).reshape(n, n)
                             + 2 * np.tri(n))[0]
        m = Q @ np.diag(w) @ Q.T
        if kind == 'full':
            m = 0.5 * (m + m.T)
    skew = draw(st.booleans())
    if skew:
        K = np.array(entries(draw, n, st.sampled_from(
            [0.0, 0.0, 1.0, -2.0, 0.5] if kind != 'int' else [0, 1, -2]))).reshape(n, n)
        m = m + K - K.T
    if kind == 'int' and draw(st.booleans()):
        # a symmetric part with halves in it
        m = m + np.triu(np.array(entries(draw, n, st.integers(-1, 1))).reshape(n, n), 1)
    t = 'int64' if kind == 'int' else 'float64'
    # the unit the matrix is in: powers of four change no rounding
    u = 1.0 if kind == 'int' else draw(st.sampled_from([1.0, 1.0, 4.0 ** -20, 4.0 ** 20, 4.0 ** -60, 4.0 ** -9]))
    m = m * u if kind != 'int' else m
    kw = {k: None if v is None else v * u for k, v in kw.items()}
    return dict(m=dict(a=m.ravel().tolist(), s=[n, n], t=t), kw=kw, unit=u)


def check_root(H, S, C, kw, what=''):
    """S, C against the symmetric part of H with clipped eigenvalues."""
    H = np.array(H, float)
    n = len(H)
    w, V = np.linalg.eigh(0.5 * (H + H.T))
    c = np.clip(w, kw.get('ev_min', None), kw.get('ev_max', None)) \
        if any(v is not None for v in kw.values()) else w
    if c.min() <= 1e-7 * max(1.0, np.abs(w).max()):
        raise Skip('eigenvalues not positive')
    s = max(1.0, np.abs(w).max())
    want = (V * c) @ V.T
    close(C, want, what + 'corrected matrix', rtol=1e-10, atol=1e-12 * s * n)
    close(S, S.T, what + 'inverse square root against its transpose', rtol=1e-10,
          atol=1e-12 * np.abs(S).max() * n)
    cond = c.max() / c.min() * s / c.min()
    close(S @ want @ S, np.eye(n), what + 'root of the inverse of the corrected matrix', rtol=0,
          atol=1e-13 * n * n * cond + 1e-10)
    close(S @ S, np.linalg.inv(want), what + 'square of the root', rtol=1e-8,
          atol=1e-12 * n * cond / c.min() + 1e-10)
    return ['clip_low' * bool((w < c - 1e-12).any()) or 'no_low',
            'clip_high' * bool((w > c + 1e-12).any()) or 'no_high']


def judge(case, obs):
    m = case['m']
    H = np.array(m['a']).reshape(m['s'])
    need(obs['kept'], 'the input matrix was modified')
    equal(obs['input'], H, 'the input matrix afterwards')
    u = case['unit']
    lab = check_root(H / u, np.asarray(obs['S']) * math.sqrt(u), np.asarray(obs['C']) / u,
                     {k: None if v is None else v / u for k, v in case['kw'].items()})
    return lab + ['sym' if np.array_equal(H, H.T) else 'nonsym', m['t']]


@st.composite
def obj_case(draw):
    c = draw(convex())
    n = len(c['b'])
    c['kw'] = draw(thresholds())
    c['at'] = c['h'] = None
    given = draw(st.sampled_from(['at', 'at', 'hessian', 'hessian', 'both']))
    if given != 'hessian':
        c['at'] = draw(gen.vec(n, gen.real(-2, 2)))
    if given != 'at':
        c['kw'] = draw(thresholds(must=True))
        c['h'] = draw(gen.vec(n, gen.vec(n, gen.nice)))
    return c


def obj_judge(case, obs):
    need('exc' in obs['neither'], 'a preconditioner was set from nothing')
    H, S, C = obs['ret']
    if case['at'] is not None:
        equal(obs['x'], np.array(case['at'], float), 'the caller\'s point')
    # a supplied Hessian is used in place of one evaluated at the point
    if case['h'] is None:
        want = derivs(case, case['at'])[2]
        close(H, want, 'Hessian at the point', rtol=1e-8, atol=1e-9 * (1 + np.abs(want).max()))
    else:
        want = np.array(case['h'], float)
        equal(H, want, 'returned Hessian')
        equal(obs['h'], want, 'the caller\'s Hessian')
    equal(obs['P'], S, 'installed preconditioner')
    lab = check_root(H, S, C, case['kw'], 'objective: ')
    return lab + ['at' if case['h'] is None else 'hessian' if case['at'] is None else 'both']


PROP = Prop(
    'C22', ['ex_opt'],
    [Sub('root', case(), 'c22', judge, 6400, 64000,
         nontrivial=lambda c: c['m']['s'][0] > 1),
     Sub('objective', obj_case(), 'c22_obj', obj_judge, 2560, 25600,
         nontrivial=lambda c: len(c['b']) > 1)],
    rule='Spectra with repeated, negative, tiny and threshold-valued eigenvalues, random rotations, '
         'skew perturbations, integer matrices, every threshold combination; convex objectives whose '
         'preconditioner is set from a point or a Hessian; non-trivial = more than one dimension. '
         'Oracle: eigenvalue clipping and the defining equations.',
    assumptions=['ev_min <= ev_max; corrected eigenvalues at least 1e-7 of the spectral norm.'])
