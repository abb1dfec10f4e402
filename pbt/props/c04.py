import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, jets
from pbt.funs import units
from pbt.core import Prop, Sub, need, close, equal, dense

entry = st.one_of(st.integers(-4, 4).map(float), gen.real(-5, 5))


@st.composite
def case(draw):
    spec = draw(gen.some_larger(gen.param(depth=2, small=draw(st.booleans())).filter(
        lambda s: ref.sizes(s)[0] <= 10 and ref.sizes(s)[1] <= 13)))
    n, v = ref.sizes(spec)
    pts = []
    for _ in range(draw(st.integers(1, 2))):
        g = draw(gen.vec(v, entry))
        sp = draw(st.sampled_from(['dense', 'dense', 'csr', 'coo', 'csc', 'dup', 'unsorted', 'lil']))
        k, e = v * (v + 1) // 2, st.one_of(st.just(0.0), entry) if sp != 'dense' else entry
        low = draw(gen.vec(k, e)) if v < 14 else gen.pattern(draw, k, e, 23)
        H = [[0.0] * v for _ in range(v)]
        k = 0
        for i in range(v):
            for j in range(i + 1):
                H[i][j] = H[j][i] = low[k]
                k += 1
        pt = dict(free=draw(gen.vec(n, gen.real(-2, 2))), grad=g, hess=H, sparse=sp, unit=draw(units))
        if draw(st.sampled_from([False] * 5 + [True])):
            # whole numbers, given as integers
            pt.update(whole=True, grad=gen.whole(g), hess=gen.whole(H), unit=1.0)
        pts.append(pt)
    return dict(spec=spec, start=draw(gen.free_vec(spec)), points=pts)


def judge(case, obs):
    spec = case['spec']
    f, v = ref.sizes(spec)
    bases = obs['bases']
    ref.check_bases(spec, bases)
    for pt, o in zip(case['points'], obs['points']):
        ys = ref.free_to_vec(spec, jets.D2.variables(pt['free']), bases)
        parts = [jets.d2_parts(y, f) for y in ys]
        J = np.array([p[1] for p in parts])
        H = np.array(pt['hess'])
        want = J.T @ H @ J
        # rounding is relative to the first derivatives as well: second
        # derivatives (and the simplex Jacobian) come out of cancellations
        scale = np.abs(J).T @ np.abs(H) @ np.abs(J)
        scale = scale + 0.1 * np.abs(pt['grad']) @ np.abs(J).max(axis=1)
        if any(s['t'] == 'simplex' for _, s in ref.leaf_specs(spec)):
            scale = scale + np.abs(H).sum() + np.abs(pt['grad']).sum()
        for g, p in zip(pt['grad'], parts):
            want = want + g * p[2]
            scale = scale + abs(g) * np.abs(p[2])
        close(dense(o['res']) / pt['unit'], want, 'free Hessian', rtol=1e-9,
              atol=1e-11 * (scale.max() + 1e-300))
        wv = np.array([p[0] for p in parts])
        close(o['vec'], wv, 'the parameter after the conversion', rtol=1e-10,
              atol=1e-12 * np.abs(wv).max())
        flat = np.concatenate([np.asarray(a, float).ravel() for a in o['values']])
        equal(flat, np.array(ref.vec_to_values(spec, list(np.asarray(o['vec'], float)))),
              'value against vector encoding')
    return sorted(set(s['t'] for _, s in ref.leaf_specs(spec))) + \
        [p['sparse'] for p in case['points']]


PROP = Prop(
    'C04', ['ex_params'],
    [Sub('convert', case(), 'c04', judge, 2400, 32000,
         nontrivial=lambda c: any(any(map(any, p['hess'])) and any(p['grad']) for p in c['points']))],
    rule='Parameter specs (every type, nesting) with one or two (point, gradient, symmetric '
         'Hessian; dense, csr, coo, csc or lil, with repeated or unsorted entries; of floats or of integers); non-trivial = gradient and Hessian both non-zero. '
         'Oracle: J\'HJ + sum of gradient times second derivatives by jets.',
    assumptions=['The Hessian handed in is symmetric, as the Hessian of a function is.'])
