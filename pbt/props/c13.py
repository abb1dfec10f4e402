import math
import numpy as np
from hypothesis import strategies as st

from pbt import gen, sens
from pbt.funs import units
from pbt.core import Prop, Sub, need, close, equal


@st.composite
def case(draw):
    big = {0: 'a', 1: 'b'}.get(draw(st.integers(0, 15)))
    p = draw(sens.problem(most_in=4, most_hyper=3, big=big))
    p['order'] = draw(st.sampled_from([1, 2] if big else [1, 1, 2, 2, 2, 3, 3, 4]))
    p['pick'] = draw(st.integers(0, 7))
    p['part'] = draw(st.booleans())
    p['unit'], p['reuse'] = draw(units), draw(st.booleans())
    p['defaults'] = draw(st.booleans())
    p['scribble'], p['move'] = draw(st.booleans()), draw(st.booleans())
    m = len(p['h0'])
    dirs = gen.vec(m, st.sampled_from([1.0, -1.0, 0.5, 0.25, 0.0, 2.0]))
    p['dirs'] = [draw(dirs) for _ in range(draw(st.integers(1, 2)) if p['order'] < 3 else 1)]
    if p['whole']:
        p['dirs'] = gen.whole(p['dirs'])
    p['factor'] = draw(st.sampled_from([2.0, -1.0, 0.5, 0.0, -3.0, 2.0 ** -30, 2.0 ** 30, -2.0 ** -15]))
    p['hess'] = None
    if draw(st.booleans()):
        H = sens.derivs(p, p['x0'], p['h0'])[1]
        p['hess'] = (0.5 * (H + H.T)).tolist()
    p['ops'] = draw(st.lists(st.sampled_from(['rebase', 'rebase', 1, 2] + ([] if big else [3])), max_size=2 if p['order'] < 4 else 0))
    return p


def judge(case, obs):
    labels = ['order%d' % case['order'], 'part' if case['part'] else 'whole',
              'hess0' if case['hess'] else 'own']
    base, order = (case['x0'], case['h0']), case['order']
    for i, r in enumerate(obs['rounds']):
        if i:
            op = case['ops'][i - 1]
            if op == 'rebase':
                base = (case['x1'], case['h1'])
                labels.append('rebased')
            else:
                order = op
        need(r['order'] == order, 'order %s reported, %s declared', r['order'], order)
        x = np.array(base[0])
        for d, q in zip(case['dirs'], r['dirs']):
            want = sens.curve(case, base[0], base[1], d, order)
            # cancellation between orders is bounded by the largest one
            # scaled by the factorials
            big = max(np.abs(w).max() / math.factorial(k + 1) for k, w in enumerate(want))
            big = max(big, max(np.abs(w).max() for w in want))
            need(len(q['derivs']) == order, 'derivative count')
            for k in range(order):
                close(q['derivs'][k], want[k], 'derivative %d of the optimum' % (k + 1),
                      rtol=1e-6, atol=1e-7 * (1 + big))
            tot = np.zeros(len(x))
            for k in range(order):
                tot = tot + np.asarray(q['derivs'][k], float) / math.factorial(k + 1)
                if k + 1 == q['k']:
                    close(q['series'], x + tot, 'series of order %d' % (k + 1), rtol=1e-10,
                          atol=1e-10 * (1 + big))
                if k == 0:
                    close(q['bare1'], tot, 'series of order 1 without the base value',
                          rtol=1e-10, atol=1e-10 * (1 + big))
            close(q['default'], x + tot, 'series at the declared order', rtol=1e-10,
                  atol=1e-10 * (1 + big))
            if 'bare' in q:
                close(q['bare'], tot, 'series without the base value', rtol=1e-10,
                      atol=1e-10 * (1 + big))
            equal(np.asarray(q['arg'], float), np.array(d, float), 'the direction after the calls')
            if i == 0:
                close(obs['linear'][case['dirs'].index(d)], x + want[0],
                      'linear approximation', rtol=1e-7, atol=1e-8 * (1 + big))
            if d is case['dirs'][0]:
                for k in range(order):
                    c = case['factor'] ** (k + 1)
                    close(r['scaled'][k], c * want[k], 'derivative %d, direction scaled by %s'
                          % (k + 1, case['factor']), rtol=1e-6, atol=1e-7 * (1 + big) * abs(c))
        need(all(r['refused']), 'an order outside the declared range was accepted: %s', r['refused'])
    close(obs['same'][1], obs['same'][0], 'the same evaluation after evaluations further away',
          rtol=1e-13, atol=1e-14)
    return labels


PROP = Prop(
    'C13', ['ex_obj', 'ex_sens'],
    [Sub('taylor', case(), 'c13', judge, 160, 6000,
         nontrivial=lambda c: c['order'] >= 2 and any(any(d) for d in c['dirs']))],
    rule='Problems as for C12, orders 1 to 4, one or two directions, histories of re-basing and '
         'changes of order; non-trivial = order two or more and a non-zero direction. Oracle: '
         'power-series solution of the first-order conditions by dual numbers over series.',
    assumptions=['Condition number of the Hessian at most 1e4.'])
