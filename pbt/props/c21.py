import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Prop, Sub, need, close, equal

dyadic = st.integers(-4, 4).map(lambda a: a / 2.0)
TOLS = [1e-8, 1e-8, 0.3, 1e-3, 3.3, 1e-12, -1.0, -1.0]


def many(draw, n, e):
    return draw(gen.vec(n, e)) if n < 8 else gen.pattern(draw, n, e)


@st.composite
def case(draw):
    n = draw(st.one_of(st.integers(1, 3), st.integers(1, 3), st.integers(1, 3), st.integers(4, 30)))
    c = many(draw, n, dyadic)
    w = many(draw, n, st.sampled_from([0.0, 1.0, 1.0, 2.0, 0.5]))
    l = many(draw, n, st.sampled_from([0.0, 0.0, 1.0, -0.5]))

    def point():
        kind = draw(st.integers(0, 5))
        if kind == 0:
            return list(c)
        base = many(draw, n, dyadic)
        if kind == 1:
            return [2 * a - b for a, b in zip(c, base)]
        if kind == 2:
            e = draw(st.sampled_from([2.0 ** -12, 2.0 ** -30, 2.0 ** -6, 100.0]))
            return [a + e * b for a, b in zip(c, base)]
        return base
    pts = []
    for _ in range(draw(st.integers(1, 7)) if n > 3 or draw(st.integers(0, 9)) else draw(st.integers(8, 25))):
        k = draw(st.integers(0, 6))
        if pts and k == 0:
            pts.append(list(draw(st.sampled_from(pts))))
        elif pts and k == 1:
            # mirror image: the same value elsewhere
            pts.append([2 * a - b for a, b in zip(c, pts[-1])])
        elif pts and k == 2:
            e = draw(st.sampled_from([2.0 ** -28, 2.0 ** -12, 0.125, 2.0 ** -33]))
            pts.append([a + e * draw(st.integers(-1, 1)) for a in pts[-1]])
        else:
            pts.append(point())
    kw = {}
    for name in ('xtol', 'ftol', 'gtol'):
        t = draw(st.sampled_from([None] + TOLS))
        if t is not None:
            kw[name] = t
    m = draw(st.sampled_from([1, 2, 3, 5, 8, 12, 12, 60 if n <= 3 else 12]))
    kw['max_iter'] = m
    if draw(st.booleans()):
        kw['disp'] = draw(st.booleans())
    if draw(st.booleans()):
        kw['keep_intermediate_optimizations'] = draw(st.booleans())
    first = point() if draw(st.integers(0, 2)) == 0 else None
    style = draw(st.sampled_from(['fresh', 'fresh', 'in_place', 'buffer']))
    # a start given as integers (not for optimizers that work in place)
    init, whole = point(), style != 'in_place' and draw(st.sampled_from([False, False, False, True]))
    if whole:
        init, first = gen.whole(init), None if first is None else gen.whole(first)
    return dict(style=style, init=init, first=first, script=pts, w=w, c=c, l=l, kw=kw, whole=whole)


def model(case):
    """The reference stopping rule.  None where a comparison is too close."""
    w, c, l = (np.array(case[k], float) for k in ('w', 'c', 'l'))
    f = lambda x: float(np.sum(w * (x - c) ** 2) + np.sum(l * x))
    g = lambda x: 2 * w * (x - c) + l
    kw = case['kw']
    x = np.array(case['init'] if case['first'] is None else case['first'], float)
    kept = [] if case['first'] is None else ['initial result']
    calls = []
    for k in range(kw['max_iter']):
        calls.append(x)
        new = np.array(case['script'][k % len(case['script'])], float)
        diffs = [np.abs(new - x).sum(), abs(f(new) - f(x)), np.abs(g(new)).sum()]
        tols = [kw.get(q, 1e-8) for q in ('xtol', 'ftol', 'gtol')]
        slack = [1e-15 * (1 + abs(f(new)) + abs(f(x)) + np.abs(new).sum() + np.abs(x).sum())] * 3
        for d, t, s in zip(diffs, tols, slack):
            if t > 0 and abs(d - t) <= 10 * s:
                return None
        flags = [d < t for d, t in zip(diffs, tols)]
        kept.append('result %d' % k)
        x = new
        if any(flags):
            break
    return x, flags, kept, calls


def judge(case, obs):
    ref = model(case)
    if ref is None:
        return ['tie']
    x, flags, kept, calls = ref
    need(len(obs['calls']) == len(calls), 'the inner optimizer ran %d times, expected %d',
         len(obs['calls']), len(calls))
    for k, (a, b) in enumerate(zip(obs['calls'], calls)):
        equal(a, b, 'starting point of round %d' % (k + 1))
    equal(obs['x'], x, 'returned point')
    need(obs['flags'] == [any(flags)] + flags, 'flags (any, x, f, gradient) are %s, expected %s',
         obs['flags'], [any(flags)] + flags)
    need(obs['res'] == 'result %d' % (len(calls) - 1), 'returned result is %r, expected that of round %d',
         obs['res'], len(calls))
    want = kept if case['kw'].get('keep_intermediate_optimizations') else []
    need(obs['kept'] == want, 'intermediate results %s, expected %s', obs['kept'], want)
    if case['first'] is not None:
        need(len(obs['starts']) == 1, 'the initial optimizer ran %d times', len(obs['starts']))
        equal(obs['starts'][0], np.array(case['init'], float), 'start of the initial optimization')
    equal(obs['x0'], np.array(case['init'], float), 'the caller\'s starting point')
    for k, p in enumerate(obs['points']):
        equal(p, np.array(case['script'][k % len(case['script'])], float), 'the optimizer\'s own point')
    lab = ['rounds_%d' % min(len(calls), 4), 'stop_' + (''.join(
        q for q, v in zip('xfg', flags) if v) or 'limit')]
    return lab + [case['style']] + (['initial'] if case['first'] is not None else [])


PROP = Prop(
    'C21', ['ex_opt'],
    [Sub('script', case(), 'c21', judge, 9600, 96000,
         nontrivial=lambda c: len(c['script']) > 1)],
    rule='Scripted inner optimizers (stalls, repeats, mirror images with equal value, tiny moves, '
         'divergence), separable quadratics with zero weights, tolerances from disabled to large, '
         'iteration limits, initial optimizer or not; non-trivial = at least two scripted points. '
         'Oracle: reference stopping rule.',
    assumptions=['Changes and gradients are measured in the L1 norm; a change exactly equal to the '
                 'tolerance is not judged.'])
