import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, jets, funs
from pbt.core import Prop, Sub, need, close, equal

small = gen.some_larger(gen.param(depth=1, small=True).filter(lambda s: ref.sizes(s)[1] <= 9))


@st.composite
def case(draw):
    spec = draw(small)
    nv = ref.n_values(spec)
    pts = []
    for i in range(draw(st.integers(1, 3))):
        pt = draw(funs.call(nv))
        if i and draw(st.booleans()):
            # an earlier point again, with other arguments or data
            q = draw(st.sampled_from(pts))
            pt.update({k: q[k] for k in ('free', 'x', 'd')})
            if draw(st.booleans()):
                pt.update({k: q[k] for k in ('args', 'kw')})
        else:
            free = draw(st.booleans())
            x = draw(gen.free_vec(spec, -2, 2)) if free else draw(gen.point_vec(spec, -1.5, 1.5))
            pt.update(free=free, x=x, d=draw(gen.vec(len(x), gen.real(-2, 2))))
        pts.append(pt)
    return dict(spec=spec, F=draw(funs.objective(nv)), G=draw(funs.objective(nv)), points=pts,
                vshape=draw(st.sampled_from([[3], [3], [1], [2], [4], [1, 1], [1, 3], [3, 1], [2, 2], [1, 1, 2]])),
                reuse=draw(st.booleans()), unit=draw(funs.units))


def compare(got, y, n, d, what, scale=1.0, step=1.0):
    v, g, h = jets.d2_parts(y, n)
    s = max(scale, np.abs(g).max() if n else 0, np.abs(h).max() if n else 0, abs(v))
    close(got['value'], v, what + ' value', rtol=1e-10, atol=1e-12 * s)
    close(got['grad'], g, what + ' gradient', rtol=1e-9, atol=1e-11 * s * step)
    close(got['hess'], h, what + ' Hessian', rtol=1e-9, atol=1e-10 * s * step * step)
    close(got['hvp'], h @ np.array(d), what + ' Hessian-vector product', rtol=1e-9,
          atol=1e-10 * s * step * step * (1 + np.abs(d).sum()))


def judge(case, obs):
    spec = case['spec']
    ref.check_bases(spec, obs['bases'])
    labels = []
    for pt, o in zip(case['points'], obs['points']):
        n = len(pt['x'])
        o = funs.in_units(case, o, 'value', 'grad', 'hess', 'hvp', 'vvalue', 'jac')
        enc = ref.enc_fun(spec, obs['bases'], pt['free'])
        v = enc(jets.D2.variables(pt['x']))
        what = 'free' if pt['free'] else 'vector'
        sc = funs.magnitude(case, enc(pt['x']), v, n)
        compare(o, funs.fun(case, v, pt['args'], pt['kw'], pt['data']), n, pt['d'], what, scale=sc)
        shape = case['vshape']
        ys = [jets.d2_parts(y, n) for y in funs.vec_fun(case, v, pt['args'], pt['kw'], pt['data'])]
        ys = ys[:int(np.prod(shape))]
        s = max(sc, max(abs(y[0]) for y in ys), max(np.abs(y[1]).max() for y in ys))
        close(o['vvalue'], np.array([y[0] for y in ys]).reshape(shape), what + ' vector-valued function',
              rtol=1e-10, atol=1e-12 * s * sc)
        close(o['jac'], np.array([y[1] for y in ys]).reshape(shape + [n]), what + ' Jacobian', rtol=1e-9, atol=1e-11 * s * sc)
        equal(o['x'], np.array(pt['x'], float), 'the caller\'s point after the calls')
        equal(o['arg_d'], np.array(pt['d'], float), 'the caller\'s direction after the calls')
        labels += [what, 'args' if pt['args'] else 'noargs', 'kw' if pt['kw'] else 'nokw']
    return labels


PROP = Prop(
    'C07', ['ex_obj'],
    [Sub('derivs', case(), 'c07', judge, 2000, 20000,
         nontrivial=lambda c: any(any(p['x']) for p in c['points']))],
    rule='Parameter specs (every type, one level of nesting), pairs of generated objectives with '
         'positional and keyword arguments (numbers, arrays) and data they close over, one to three '
         'points in the free or vector encoding, some visited again with other arguments or data, '
         'methods called in varying order; '
         'non-trivial = a non-zero point. Oracle: second-order jets.',
    assumptions=['Objectives are smooth compositions of squares, cubes, quartics, exp, sin and '
                 'softplus of linear forms of the parameter\'s entries.'])
