import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, jets
from pbt.core import Prop, Sub, Sparse, need, close, equal, check_shape, dense


@st.composite
def case(draw):
    spec = draw(gen.some_larger(gen.param(depth=2, small=draw(st.booleans())).filter(
        lambda s: ref.sizes(s)[0] <= 14)))
    n = ref.sizes(spec)[0]
    wide = draw(st.sampled_from([2.0, 2.0, 6.0, 20.0, 60.0, 300.0]))
    elem = st.one_of(gen.real(-2, 2), gen.real(-wide, wide)) if wide > 20 else gen.real(-wide, wide)
    pts = [draw(gen.vec(n, elem)) for _ in range(draw(st.integers(1, 2)))]
    # points and rows that are almost the same
    near = draw(st.sampled_from([None, None, 0.0, 1e-9, 1e-7, 1e-5]))
    if near is not None:
        if len(pts) == 2:
            pts[1] = [a + near * (i % 3) for i, a in enumerate(pts[0])]
        for x in pts:
            o = 0
            for _, s in ref.leaf_specs(spec):
                k = ref.sizes(s)[0]
                r = {'simplex': lambda: s['shape'][0], 'pdvec': lambda: s['length'],
                     'pdarr': lambda: ref.prod(s['shape'])}.get(s['t'], lambda: 1)()
                for i in range(k // r, k):
                    x[o + i] = x[o + i - k // r] + near * (1 + i % 2)
                o += k
    # keep Cholesky entries moderate
    for x in pts:
        o = 0
        for _, s in ref.leaf_specs(spec):
            k = ref.sizes(s)[0]
            if s['t'].startswith('pd'):
                x[o:o + k] = [max(-3.0, min(3.0, a)) for a in x[o:o + k]]
            o += k
    return dict(spec=spec, start=draw(gen.free_vec(spec)), points=pts,
                who=draw(st.sampled_from(['orig', 'copy'])))


def judge(case, obs):
    spec = case['spec']
    f, v = ref.sizes(spec)
    bases = obs['bases']
    ref.check_bases(spec, bases)
    simplex = np.array(sum([[s['t'] == 'simplex'] * ref.sizes(s)[1]
                            for _, s in ref.leaf_specs(spec)], []))
    for x, pt in zip(case['points'], obs['points']):
        ys = ref.free_to_vec(spec, jets.D2.variables(x), bases)
        # derivatives of a simplex entry are the entry times differences of
        # numbers of order one
        floor = 1e-13 * simplex * np.abs([jets.val(y) for y in ys]) + 1e-300
        J = np.zeros((v, f))
        H = []
        for i, y in enumerate(ys):
            _, g, h = jets.d2_parts(y, f)
            J[i] = g
            H.append(h)
        need(isinstance(pt['jac'], Sparse), 'the Jacobian is not sparse')
        close(pt['jac'], J, 'Jacobian of free_to_vector', rtol=1e-9,
              atol=1e-12 * (1e-300 + np.abs(J).max(axis=1, keepdims=True)) + floor[:, None])
        need(len(pt['hess']) == v, 'there are %d Hessians for %d vector entries',
             len(pt['hess']), v)
        for i in range(v):
            need(isinstance(pt['hess'][i], Sparse), 'Hessian %d is not sparse', i)
            scale = max(np.abs(H[i]).max(), 1e-3 * np.abs(J[i]).max())
            close(pt['hess'][i], H[i], 'Hessian of vector entry %d' % i, rtol=1e-8,
                  atol=1e-11 * scale + floor[i])
    for who, vec, fr in zip(('the parameter', 'its copy', 'another parameter'),
                            obs['vecs'], obs['frees']):
        equal(np.asarray(vec, float), np.asarray(obs['start'], float),
              '%s after its derivatives were asked for' % who)
    for x, m in zip(case['points'], obs['maps']):
        want = np.array(ref.free_to_vec(spec, x, bases))
        close(m['map'], want, 'free_to_vector', rtol=1e-10, atol=1e-12 * np.abs(want).max())
        equal(np.asarray(m['map'], float), np.asarray(m['vec'], float),
              'free_to_vector against the vector encoding of the value it set')
    return sorted(set(s['t'] for _, s in ref.leaf_specs(spec))) + [case['who']]


PROP = Prop(
    'C03', ['ex_params'],
    [Sub('derivs', case(), 'c03', judge, 1600, 32000,
         nontrivial=lambda c: any(any(p) for p in c['points']))],
    rule='Parameter specs (every type, nested dictionaries, up to 14 free entries), one or two '
         'points, derivatives asked of the parameter or of a copy; non-trivial = a point with a '
         'non-zero entry. Oracle: second-order jets through the documented maps.',
    assumptions=['Subspace coordinates are observed through set_free on unit vectors and '
                 'checked to be an orthonormal basis of the complement.'])
