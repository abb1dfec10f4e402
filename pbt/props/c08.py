import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, jets, funs
from pbt.core import Prop, Sub, need, close, equal, dense
from pbt.props.c07 import small, compare


@st.composite
def preconditioner(draw, n):
    kind = draw(st.sampled_from(['dense', 'dense', 'csr', 'csc', 'coo']))
    pattern = draw(st.sampled_from(['any', 'any', 'perm', 'lower', 'upper', 'diag']))
    if pattern != 'any':
        d = np.array(draw(gen.vec(n, st.sampled_from([1.0, 2.0, -1.5, 0.5, 0.25]))))
        m = np.diag(d)
        if pattern == 'perm':
            m = m[draw(st.permutations(range(n)))]
        elif pattern != 'diag':
            for i in range(1, n):
                m[i, i - 1] = draw(st.sampled_from([0.0, 0.5, -0.25]))
            if pattern == 'upper':
                m = m.T
        return dict(m=m.tolist(), kind=kind)
    e = st.sampled_from([0.0, 0.0, 0.25, -0.5, 1.0])
    m = np.array(draw(gen.vec(n * n, e)) if n < 10 else gen.pattern(draw, n * n, e, 23)).reshape(n, n)
    m = m / max(1.0, n / 2.0)
    if draw(st.booleans()):
        m = 0.5 * (m + m.T)
    d = draw(gen.vec(n, st.sampled_from([1.0, 2.0, -1.5, 0.5])))
    # diagonally dominant, hence invertible
    m = m + np.diag([np.sign(a) * (abs(a) + np.abs(m[i]).sum()) for i, a in enumerate(d)])
    m = m / max(1.0, np.abs(m).sum(axis=1).max() / 2.0)
    how = draw(st.sampled_from(['as is', 'as is', 'as is', 'near identity', 'scaled']))
    if how == 'near identity':
        m = np.eye(n) + m * 2.0 ** -draw(st.sampled_from([10, 18, 24, 27, 30]))
    elif how == 'scaled':
        m = m * 2.0 ** draw(st.sampled_from([-20, -12, -6, 1]))
    return dict(m=m.tolist(), kind=kind)


@st.composite
def case(draw):
    spec = draw(small)
    nv = ref.n_values(spec)
    n = ref.sizes(spec)[0]
    pts = []
    for i in range(draw(st.integers(1, 3))):
        pt = draw(funs.call(nv))
        pt.update(P=draw(preconditioner(n)), x=draw(gen.vec(n, gen.real(-1.5, 1.5))),
                  d=draw(gen.vec(n, gen.real(-2, 2))))
        if i and draw(st.booleans()):
            q = draw(st.sampled_from(pts))
            pt.update({k: q[k] for k in draw(st.sampled_from(
                [('x', 'd'), ('P', 'x', 'd'), ('args', 'kw', 'x', 'd')]))})
        pt['whole'] = [float(k) for k in draw(gen.vec(n, st.integers(-1, 1)))]
        pts.append(pt)
    return dict(spec=spec, F=draw(funs.objective(nv)), G=draw(funs.objective(nv)), points=pts, reuse=draw(st.booleans()), unit=draw(funs.units))


def judge(case, obs):
    spec = case['spec']
    ref.check_bases(spec, obs['bases'])
    need(all(obs['unset']), 'a conditioned method ran without a preconditioner: %s', obs['unset'])
    labels = []
    for pt, o in zip(case['points'], obs['points']):
        n = len(pt['x'])
        P = np.array(pt['P']['m'])
        y = jets.D2.variables(pt['x'])
        x = []
        for i in range(n):
            s = 0.0
            for j in range(n):
                s = y[j] * P[i, j] + s
            x.append(s)
        xv = [jets.val(a) for a in x]
        v = ref.vec_to_values(spec, ref.free_to_vec(spec, x, obs['bases']))
        sc = funs.magnitude(case, [jets.val(a) for a in v], v, n)
        o = funs.in_units(case, o, 'value', 'grad', 'hess', 'hvp')
        compare(o, funs.fun(case, v, pt['args'], pt['kw'], pt['data']), n, pt['d'], 'conditioned', scale=sc,
                step=min(1.0, np.abs(P).max()))
        close(o['uncond'], np.array(xv), 'unconditioned point', rtol=1e-12, atol=1e-13 * np.abs(P).max())
        close(o['condx'], np.array(xv), 'conditioned point', rtol=1e-12, atol=1e-13 * np.abs(P).max())
        want = np.array(ref.free_to_vec(spec, xv, obs['bases']), float)
        wx = P @ np.array(pt['whole'])
        for k in 'uncond', 'condx':
            close(o['whole'][k], wx, 'conditioned point (%s) of an integer point' % k, rtol=1e-12,
                  atol=1e-13 * np.abs(P).max())
        wv = ref.vec_to_values(spec, ref.free_to_vec(spec, wx.tolist(), obs['bases']))
        we = funs.fun(case, wv, pt['args'], pt['kw'], pt['data'])
        close(np.float64(o['whole']['value']) / case['unit'], np.float64(we), 'conditioned value at an integer point', rtol=1e-9,
              atol=1e-11 * funs.magnitude(case, wv))
        for k, s in sorted(o['states'].items()):
            close(s, want, 'the parameter after the conditioned ' + k, rtol=1e-10,
                  atol=1e-11 * max(1.0, np.abs(want).max()))
        equal(o['y'], np.array(pt['x'], float), 'the caller\'s point after the calls')
        equal(dense(o['P']), P, 'the caller\'s preconditioner after the calls')
        labels.append(pt['P']['kind'])
        labels.append('symmetric' if np.array_equal(P, P.T) else 'nonsymmetric')
    return labels


PROP = Prop(
    'C08', ['ex_obj'],
    [Sub('cond', case(), 'c08', judge, 2400, 24000,
         nontrivial=lambda c: any(any(p['x']) and not np.array_equal(
             np.diag(np.diag(p['P']['m'])), np.array(p['P']['m'])) for p in c['points']))],
    rule='Objectives as in C07 with one to three invertible preconditioners (dense, csr, csc, coo; '
         'symmetric or not; scaled permutations, bidiagonal, diagonal), set in turn; non-trivial = non-zero point and a preconditioner that is '
         'not diagonal. Oracle: second-order jets of y -> f(Py).',
    assumptions=['Preconditioners are diagonally dominant with row sums of order one.'])
