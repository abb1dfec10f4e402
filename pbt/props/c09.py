import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, jets, funs, sens
from pbt.core import Prop, Sub, need, close, equal
from pbt.props.c08 import preconditioner
from pbt.props.c11 import converter, apply

few = lambda nm: gen.param(nm, depth=1, small=True).filter(lambda s: ref.sizes(s)[1] <= 5)


@st.composite
def call(draw, sa, sb, sc):
    sp = {'A': sa, 'B': sb, 'C': sc, 'D': dict(t='dict', name='D', children=[sa, sb])}
    pt = lambda o, free: draw(gen.free_vec(sp[o], -1.5, 1.5) if free
                              else gen.point_vec(sp[o], -1.2, 1.2))
    k = draw(st.sampled_from(['obj'] * 4 + ['cond'] * 2 + ['two'] * 3 + ['conv_jac'] * 2
                             + ['conv', 'set', 'sparse']))
    if k == 'obj':
        o, free = draw(st.sampled_from('ABD')), draw(st.booleans())
        x = pt(o, free)
        return dict(k=k, o=o, free=free, x=x, d=draw(gen.vec(len(x), gen.nice)),
                    m=draw(st.sampled_from(['value', 'grad', 'hessian', 'hvp', 'jacobian'])))
    if k == 'cond':
        o = draw(st.sampled_from('ABD'))
        n = ref.sizes(sp[o])[0]
        return dict(k=k, o=o, x=draw(gen.vec(n, gen.real(-1.5, 1.5))),
                    d=draw(gen.vec(n, gen.nice)), P=draw(preconditioner(n)),
                    m=draw(st.sampled_from(['value', 'grad', 'hessian', 'hvp'])))
    if k == 'two':
        o = draw(st.sampled_from(['AB', 'BA']))
        f1, f2 = draw(st.booleans()), draw(st.booleans())
        return dict(k=k, o=o, free1=f1, free2=f2, x1=pt(o[0], f1), x2=pt(o[1], f2),
                    m=draw(st.sampled_from(['value', 'grad1', 'grad2', 'h12', 'h12', 'h21'])))
    if k in ('conv_jac', 'conv'):
        m = draw(st.sampled_from(['free_to_free', 'free_to_vec', 'vec_to_free', 'vec_to_vec']))
        return dict(k=k, m=m, x=pt('A', m.startswith('free')))
    if k == 'sparse':
        o = draw(st.sampled_from('ABCD'))
        return dict(k=k, o=o, x=pt(o, True),
                    m=draw(st.sampled_from(['jac', 'hess', 'map', 'f2v', 'index'])))
    o = draw(st.sampled_from('ABC'))
    free = draw(st.booleans())
    return dict(k='set', o=o, free=free, x=pt(o, free))


@st.composite
def case(draw):
    sa, sb, sc = draw(few('a')), draw(few('b')), draw(few('c'))
    nv = ref.n_values(sa) + ref.n_values(sb)
    return dict(sa=sa, sb=sb, sc=sc, F=draw(funs.objective(nv)), G=draw(funs.objective(nv)),
                conv=draw(converter(sa, sc)), out0=draw(gen.free_vec(sc)),
                calls=[draw(call(sa, sb, sc)) for _ in range(draw(st.integers(1, 7)))])


def judge(case, obs):
    spec = {'A': case['sa'], 'B': case['sb'], 'C': case['sc']}
    B = dict(zip('ABC', obs['bases']))
    for k in 'ABC':
        ref.check_bases(spec[k], B[k])
    fsize = {k: ref.sizes(spec[k])[0] for k in 'ABC'}
    vsize = {k: ref.sizes(spec[k])[1] for k in 'ABC'}
    state = {}          # expected vector, and whether it must be exact

    def put(k, x, free):
        if free:
            v = np.array(ref.free_to_vec(spec[k], list(x), B[k]), float)
            return v, False
        return np.array(x, float), True

    def check(new, prev, touched, what):
        for k in 'ABC':
            if k in touched:
                want, exact = touched[k]
                if exact:
                    equal(np.asarray(new[k], float), want, '%s after %s' % (k, what))
                else:
                    close(new[k], want, '%s after %s' % (k, what), rtol=1e-9,
                          atol=1e-10 * (1 + np.abs(want).max()))
            elif prev is not None:
                equal(np.asarray(new[k], float), np.asarray(prev[k], float),
                      '%s (not involved) after %s' % (k, what))
        for k, vals in zip('ABC', new['values']):
            vs = np.concatenate([np.asarray(a, float).ravel() for a in vals])
            equal(vs, np.array(ref.vec_to_values(spec[k], np.asarray(new[k], float).tolist()), float),
                  'values of %s against its vector encoding after %s' % (k, what))

    snaps = obs['snaps']
    check(snaps[0], None, {'C': put('C', case['out0'], True)}, 'the start')
    labels = []
    for i, c in enumerate(case['calls']):
        k = c['k']
        t = {}
        what = 'call %d (%s %s %s)' % (i, k, c.get('m', ''), c.get('o', ''))

        def split(o, x, free):
            if o == 'D':
                n = (fsize if free else vsize)['A']
                t['A'], t['B'] = put('A', x[:n], free), put('B', x[n:], free)
            else:
                t[o] = put(o, x, free)
        if k == 'obj' or k == 'set':
            split(c['o'], c['x'], c['free'])
        elif k == 'cond':
            split(c['o'], (np.array(c['P']['m']) @ np.array(c['x'])).tolist(), True)
        elif k == 'two':
            split(c['o'][0], c['x1'], c['free1'])
            split(c['o'][1], c['x2'], c['free2'])
        elif k in ('conv', 'conv_jac'):
            free = c['m'].startswith('free')
            split('A', c['x'], free)
            if k == 'conv':
                av = ref.vec_to_values(spec['A'], t['A'][0].tolist())
                vec, _ = apply(dict(spec2=case['sc'], conv=case['conv']), av, B['C'])
                t['C'] = np.array(vec, float), False
        elif k == 'sparse':
            # derivatives of the map are taken on copies; only the map itself
            # and the vector conversion set the parameter
            if c['m'] in ('map', 'f2v'):
                split(c['o'], c['x'], True)
        check(snaps[i + 1], snaps[i], t, what)
        labels.append(k)
    return labels


PROP = Prop(
    'C09', ['ex_obj', 'ex_sens'],
    [Sub('history', case(), 'c09', judge, 1200, 12000,
         nontrivial=lambda c: len(c['calls']) >= 2),
     Sub('sensitivity', sens.state_case(), 'c09_sens', sens.state_judge, 400, 4000)],
    rule='Three parameters (two sharing a dictionary), generated objectives and a converter; up to '
         'seven calls; the encoding of every parameter is read after every call. Non-trivial = at '
         'least two calls. Second part: sensitivity objects and histories of their methods.',
    assumptions=['The point of the last call that set a parameter is P y for conditioned calls.'])
