import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, jets, funs
from pbt.core import Prop, Sub, need, close, equal

small = lambda nm: gen.some_larger(
    gen.param(nm, depth=1, small=True).filter(lambda s: ref.sizes(s)[1] <= 6), nm, 16)


@st.composite
def case(draw):
    s1, s2 = draw(small('a')), draw(small('b'))
    nv = ref.n_values(s1) + ref.n_values(s2)
    pts = []
    for i in range(draw(st.integers(1, 3))):
        pt = draw(funs.call(nv))
        if i and draw(st.booleans()):
            q = draw(st.sampled_from(pts))
            pt.update({k: q[k] for k in ('free1', 'free2', 'x1', 'x2')})
            pts.append(pt)
            continue
        f1, f2 = draw(st.booleans()), draw(st.booleans())
        x = [draw(gen.free_vec(s, -2, 2)) if f else draw(gen.point_vec(s, -1.5, 1.5))
             for s, f in ((s1, f1), (s2, f2))]
        pt.update(free1=f1, free2=f2, x1=x[0], x2=x[1])
        pts.append(pt)
    return dict(spec1=s1, spec2=s2, F=draw(funs.objective(nv, 2, 5)), G=draw(funs.objective(nv)),
                points=pts, reuse=draw(st.booleans()), unit=draw(funs.units))


def judge(case, obs):
    s1, s2 = case['spec1'], case['spec2']
    ref.check_bases(s1, obs['bases1'])
    ref.check_bases(s2, obs['bases2'])
    labels = []
    for pt, o in zip(case['points'], obs['points']):
        n1, n2 = len(pt['x1']), len(pt['x2'])
        o = funs.in_units(case, o, 'value', 'value2', 'grad1', 'grad2', 'h12', 'h21', 'joint')
        n = n1 + n2
        z = jets.D2.variables(pt['x1'] + pt['x2'])
        e1 = ref.enc_fun(s1, obs['bases1'], pt['free1'])
        e2 = ref.enc_fun(s2, obs['bases2'], pt['free2'])
        zs = e1(z[:n1]) + e2(z[n1:])
        v, g, h = jets.d2_parts(
            funs.fun(case, zs, pt['args'], pt['kw'], pt['data']), n)
        sc = funs.magnitude(case, e1(pt['x1']) + e2(pt['x2']), zs, n)
        s = max(sc, abs(v), np.abs(g).max(), np.abs(h).max())
        what = '%s/%s ' % ('free' if pt['free1'] else 'vector', 'free' if pt['free2'] else 'vector')
        close(o['value'], v, what + 'value', rtol=1e-10, atol=1e-12 * s)
        if 'value2' in o:
            close(o['value2'], v, what + 'value', rtol=1e-10, atol=1e-12 * s)
        close(o['grad1'], g[:n1], what + 'gradient in the first', rtol=1e-9, atol=1e-11 * s)
        close(o['grad2'], g[n1:], what + 'gradient in the second', rtol=1e-9, atol=1e-11 * s)
        close(o['h12'], h[:n1, n1:], what + 'cross Hessian 12', rtol=1e-9, atol=1e-10 * s)
        if 'h21' in o:
            close(o['h21'], h[n1:, :n1], what + 'cross Hessian 21', rtol=1e-9, atol=1e-10 * s)
            close(o['joint'], h, what + 'joint Hessian', rtol=1e-9, atol=1e-10 * s)
        for k, e, x, sp, b, f in (('after1', e1, pt['x1'], s1, obs['bases1'], pt['free1']),
                                  ('after2', e2, pt['x2'], s2, obs['bases2'], pt['free2'])):
            want = np.array(ref.free_to_vec(sp, x, b) if f else x, float)
            close(o[k], want, what + 'parameter afterwards', rtol=1e-10, atol=1e-12 * (1 + np.abs(want).max()))
        equal(o['arg1'], np.array(pt['x1'], float), 'the caller\'s first point after the calls')
        equal(o['arg2'], np.array(pt['x2'], float), 'the caller\'s second point after the calls')
        labels.append(what.strip())
    return labels


PROP = Prop(
    'C10', ['ex_obj'],
    [Sub('cross', case(), 'c10', judge, 1280, 12800,
         nontrivial=lambda c: len(c['F']['terms']) > 1)],
    rule='Two parameter specs, generated joint objectives with extra arguments and data they close '
         'over, one to three points, some visited again, in varying order of calls '
         'over the four combinations of encodings; non-trivial = more than one term. Oracle: '
         'second-order jets of the joint function.',
    assumptions=[])
