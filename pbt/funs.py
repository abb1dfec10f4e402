"""Driver-side counterpart of the generated objectives."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, jets
from pbt.core import dense, Skip

argsets = st.sampled_from([
    ([], {}), ([], {}), ([2.0], {}), ([1.5, -0.5], {}), ([], {'scale': 2.0}),
    ([0.5], {'scale': -1.5}), ([2.0, 3.0], {'scale': 0.5, 'shift': 0.25}),
    ([], {'shift': -1.0}), ([], {'b': 2.0}), ([-1.0], {'b': 0.25, 'shift': 2.0})])


@st.composite
def objective(draw, nvals, lo=1, hi=4, primset=None):
    o = dict(terms=draw(gen.terms(nvals, lo, hi, primset)))
    if draw(st.booleans()):
        o['ridge'] = draw(st.sampled_from([0.5, 1.0, -0.25]))
        o['center'] = draw(gen.vec(nvals, gen.nice)) if nvals < 10 else gen.pattern(draw, nvals, gen.nice)
    return o


@st.composite
def call(draw, nvals):
    """Extra arguments (one may be an array) and the data the function closes over."""
    args, kw = draw(argsets)
    kw = dict(kw)
    if draw(st.integers(0, 3)) == 0:
        kw['shift'] = draw(gen.vec(nvals, gen.nice)) if nvals < 10 else gen.pattern(draw, nvals, gen.nice)
    return dict(args=list(args), kw=kw, data=draw(st.sampled_from([1.0, 1.0, 2.0, -0.5])),
                order=draw(st.permutations(range(6))), move=draw(st.booleans()))


def _bind(v, args, kw):
    p = dict(a=1.0, b=0.5, scale=1.0, shift=0.0)
    for n, x in zip(['a', 'b'], args):
        p[n] = x
    p.update(kw)
    tot = 0.0
    w = p['shift'] if isinstance(p['shift'], list) else [p['shift']] * len(v)
    for x, k in zip(v, w):
        tot = x * k + tot
    return p, tot


def fun(case, v, args, kw, data=1.0):
    p, tot = _bind(v, args, kw)
    out = ref.eval_objective(case['F'], v) * (p['a'] * data) + ref.eval_objective(case['G'], v) * p['b']
    return out * p['scale'] + tot


def vec_fun(case, v, args, kw, data=1.0):
    p, tot = _bind(v, args, kw)
    f, g = ref.eval_objective(case['F'], v), ref.eval_objective(case['G'], v)
    return [f * (p['a'] * data) + g * p['b'], f * p['scale'], g * f + tot, g * p['scale']]


# the unit the objective is measured in; powers of two change no rounding
units = st.sampled_from([1.0, 1.0, 1.0, 2.0 ** -40, 2.0 ** 40, 2.0 ** -90, 2.0 ** -20])


def in_units(case, o, *keys):
    """The named observations, in units of the objective."""
    o = dict(o)
    for k in keys:
        if k in o:
            o[k] = dense(o[k]) / case.get('unit', 1.0)
    return o


def magnitude(case, v, y=None, n=0):
    """rough size of the sums involved, for absolute tolerances; with the jets
    y of v in n variables, also of the derivatives of every term, as these can
    cancel"""
    m = 1.0
    if y is not None and n:
        for o in (case['F'], case['G']):
            for t in o['terms']:
                _, g, h = jets.d2_parts(ref.eval_terms([t], y), n)
                m = max(m, np.abs(g).max(), np.abs(h).max())
    for o in (case['F'], case['G']):
        for t in o['terms']:
            z = abs(t['b']) + sum(abs(a * x) for a, x in zip(t['a'], v))
            if t['p'] == 'exp' and z > 600:
                raise Skip
            m = max(m, abs(t['w']) * (1 + z) ** 2, abs(ref.prim(t['p'], min(z, 50.0)) * t['w']))
        if o.get('ridge'):
            m = max(m, sum((x - r) ** 2 for x, r in zip(v, o['center'])))
    return m
