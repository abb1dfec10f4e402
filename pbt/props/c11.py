import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, jets, funs
from pbt.core import Prop, Sub, Skip, need, close, equal

small = lambda nm: gen.some_larger(
    gen.param(nm, depth=1, small=True).filter(lambda s: ref.sizes(s)[1] <= 7), nm, 16)
mild = st.sampled_from(['id', 'id', 'sin', 'sp', 'exp', 'sq'])


@st.composite
def converter(draw, s_in, s_out):
    nv = ref.n_values(s_in)
    leafs = ref.leaf_specs(s_out)
    plain = all(s['t'] in ('scalar', 'vector', 'array') and s['ub'] is None for _, s in leafs)
    mode = 'vector' if plain and draw(st.booleans()) else 'free'
    rows = []
    for _, s in leafs:
        k = ref.sizes(s)[1 if mode == 'vector' else 0]
        for _ in range(k):
            if mode == 'vector' and s['lb'] is not None:
                r = draw(gen.terms(nv, 1, 2, st.just('sin')))
                for t in r:
                    t['w'] = max(-0.5, min(0.5, t['w']))
                r.append(dict(p='id', a=[0.0] * nv, b=s['lb'] + 1.25, w=1.0))
            elif s['t'] in ('vector', 'array', 'scalar', 'subspace') and (
                    mode == 'vector' or s.get('lb') is None and s.get('ub') is None):
                r = draw(gen.terms(nv, 1, 2, mild))
                for t in r:
                    t['a'] = [a * 0.25 for a in t['a']]
            else:
                # free coordinates of a constrained output: keep them moderate
                r = draw(gen.terms(nv, 1, 2, st.just('sin')))
                for t in r:
                    t['w'] = max(-1.0, min(1.0, t['w']))
            rows.append(r)
    return dict(mode=mode, rows=rows)


@st.composite
def case(draw):
    s1, s2 = draw(small('a')), draw(small('b'))
    pts = [dict(x=draw(gen.free_vec(s1, -1.5, 1.5)), v=draw(gen.point_vec(s1, -1.5, 1.5)))
           for _ in range(draw(st.integers(1, 2)))]
    return dict(spec1=s1, spec2=s2, conv=draw(converter(s1, s2)),
                out0=draw(gen.free_vec(s2)), points=pts, reuse=draw(st.booleans()))


def apply(case, v, b2):
    """(out vec, out free) given the input's values"""
    s2 = case['spec2']
    y = [ref.eval_terms(r, v) for r in case['conv']['rows']]
    if case['conv']['mode'] == 'free':
        vec = ref.free_to_vec(s2, y, b2)
        return vec, y
    return y, ref.vec_to_free(s2, y, b2)


def judge(case, obs):
    s1, s2 = case['spec1'], case['spec2']
    b1, b2 = obs['bases1'], obs['bases2']
    ref.check_bases(s1, b1)
    ref.check_bases(s2, b2)
    want0 = np.array(ref.free_to_vec(s2, case['out0'], b2), float)
    for i, (pt, o) in enumerate(zip(case['points'], obs['points'])):
        if i == 0:
            close(o['out_before'], want0, 'output parameter', rtol=1e-9, atol=1e-11 * (1 + np.abs(want0).max()))
        equal(np.asarray(o['out_after'], float), np.asarray(o['out_before'], float),
              'output parameter after converter Jacobians')
        close(o['in_after'], np.array(pt['v']), 'input parameter after the last Jacobian', rtol=1e-12, atol=1e-13)
        for src, x in (('f', pt['x']), ('v', pt['v'])):
            n = len(x)
            z = jets.D2.variables(x)
            vals = ref.enc_fun(s1, b1, src == 'f')(z)
            vec, free = apply(case, vals, b2)
            pf = np.array([jets.val(a) for a in free])
            if len(pf) and np.abs(pf).max() > 25:
                # the inverse map has lost digits out here
                raise Skip()
            cond = np.exp(min(np.abs(pf).max() if len(pf) else 0, 30.0))
            for dst, ys in (('v', vec), ('f', free)):
                parts = [jets.d2_parts(a, n) for a in ys]
                val = np.array([p[0] for p in parts])
                J = np.array([p[1] for p in parts])
                at = 1e-12 * (1 + np.abs(val).max()) * (cond ** 2 if dst == 'f' else 1.0)
                close(o[src + dst], val, 'map %s to %s' % (src, dst), rtol=1e-9, atol=at)
                aj = 1e-11 * (1 + np.abs(J).max()) * (cond ** 2 if dst == 'f' else 1.0)
                if aj > 1e-5 * (1 + np.abs(J).max()):
                    continue
                close(o['j_' + src + dst], J, 'Jacobian %s to %s' % (src, dst), rtol=1e-8, atol=aj)
    return [case['conv']['mode']] + [s['t'] for _, s in ref.leaf_specs(s2)]


PROP = Prop(
    'C11', ['ex_obj'],
    [Sub('convert', case(), 'c11', judge, 2000, 20000,
         nontrivial=lambda c: any(any(p['x']) for p in c['points']))],
    rule='Input and output specs, generated converters setting the output\'s free or vector '
         'encoding from smooth functions of the input, one or two points; non-trivial = non-zero '
         'input. Oracle: jets of the four maps.',
    assumptions=['Converters set the whole output parameter.'])
