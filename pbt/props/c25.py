import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, jets, funs
from pbt.core import Prop, Sub, need, close, equal
from pbt.props.c07 import small
from pbt.props.c08 import preconditioner


@st.composite
def case(draw):
    spec = draw(small)
    nv, n = ref.n_values(spec), ref.sizes(spec)[0]
    ops, has_pre = [], False
    x = lambda: draw(gen.vec(n, gen.real(-1.5, 1.5)))
    pool = [x()]
    long = draw(st.integers(0, 3)) == 0
    for _ in range(draw(st.integers(20, 45) if long else st.integers(4, 16))):
        k = draw(st.sampled_from(['free'] * (20 if long else 6) + ['cond'] * 3 + ['reset', 'every', 'callback',
                                                                'callback', 'pre', 'grad', 'hvp', 'other', 'other']))
        if k == 'cond' and not has_pre:
            k = 'pre'
        op = dict(op=k)
        if k in ('free', 'cond'):
            if draw(st.booleans()):
                pool.append(x())
            op['x'] = draw(st.sampled_from(pool))
            op['verbose'] = draw(st.sampled_from([True, True, True, False, None]))
            # the caller overwrites its array afterwards
            op['reuse'] = draw(st.integers(0, 3)) == 0
            op['args'], op['kw'] = draw(funs.argsets)
            if draw(st.integers(0, 7)) == 0:
                op['x'], op['whole'] = gen.whole(op['x']), True
        elif k == 'every':
            op['n'] = draw(st.integers(1, 7))
        elif k == 'callback':
            op['on'] = draw(st.sampled_from([True, True, False]))
        elif k == 'pre':
            op['P'] = draw(preconditioner(n))
            has_pre = True
        elif k in ('grad', 'hvp'):
            op['x'] = x()
        elif k == 'other':
            op.update(x=x(), times=draw(st.integers(1, 3)), reset=draw(st.booleans()))
        ops.append(op)
    if draw(st.integers(0, 40)) == 0:
        # many evaluations in a row
        ops = ops[:8]
        ops.insert(draw(st.integers(0, len(ops))),
                   dict(op='burst', x=x(), step=draw(gen.vec(n, st.sampled_from([0.0, 1e-3, -5e-4]))),
                        times=draw(st.sampled_from([30, 70, 140, 270, 530, 1050]))))
    return dict(spec=spec, F=draw(funs.objective(nv)), G=draw(funs.objective(nv)), ops=ops)


def judge(case, obs):
    spec = case['spec']
    ref.check_bases(spec, obs['bases'])
    enc = ref.enc_fun(spec, obs['bases'], True)
    xs, vals, every, on, P, other = [], [], 1, False, None, 0
    labels = []
    for i, (op, r) in enumerate(zip(case['ops'], obs['ops'])):
        k = op['op']
        what = 'operation %d (%s): ' % (i + 1, k)
        events = 0
        printed = False
        if k == 'reset':
            xs, vals = [], []
        elif k == 'other':
            other = (0 if op['reset'] else other) + op['times']
        elif k == 'every':
            every = op['n']
        elif k == 'callback':
            on = op['on']
        elif k == 'pre':
            P = np.array(op['P']['m'])
        elif k in ('free', 'cond'):
            x = np.array(op['x'], float)
            y = P @ x if k == 'cond' else x
            v = enc([float(a) for a in y])
            want = jets.val(funs.fun(case, v, op['args'], op['kw']))
            sc = funs.magnitude(case, v)
            close(r['value'], want, what + 'value', rtol=1e-10, atol=1e-11 * sc)
            equal(r['value'], r['quiet'], what + 'value with and without logging')
            equal(r['x'], x, what + 'the caller\'s point')
            labels.append('%s_%s' % (k, bool(op['verbose'])))
            if op['verbose']:
                if len(xs) % every == 0:
                    events, printed = (1, False) if on else (0, True)
                xs.append(y)
                vals.append(float(np.asarray(r['value'])))
                if events:
                    labels.append('callback')
                    need(len(r['events']) == 1, what + 'the callback ran %d times, expected once '
                         '(entry %d, every %d)', len(r['events']), len(xs), every)
                    e = r['events'][0]
                    need(e['same'], what + 'the callback was not given the logger')
                    need(e['n'] == e['m'] == len(xs), what + 'the callback saw %s points and %s values '
                         'of %d', e['n'], e['m'], len(xs))
                    for key in ('x', 'curx'):
                        close(e[key], y, what + 'point seen by the callback', rtol=1e-12, atol=1e-12)
                    for key in ('val', 'cur'):
                        equal(e[key], r['value'], what + 'value seen by the callback')
                elif printed:
                    labels.append('message')
        elif k == 'burst':
            labels.append('burst')
            seen, printed = [], False
            for j in range(op['times']):
                x = np.array(op['x']) + j * np.array(op['step'])
                if j < 2 or j > op['times'] - 3:
                    v = enc([float(a) for a in x])
                    close(r['values'][j], jets.val(funs.fun(case, v, [], {})), what + 'value',
                          rtol=1e-10, atol=1e-11 * funs.magnitude(case, v))
                if len(xs) % every == 0:
                    seen.append(len(xs) + 1)
                    printed = not on
                xs.append(x)
                vals.append(float(np.asarray(r['values'][j])))
            seen = seen if on else []
            got = [[e['n'], e['m']] for e in r['events']]
            need(got == [[a, a] for a in seen], what + 'the callback ran at %s, expected %s', got, seen)
            events = len(seen)
        need(len(r['events']) == events, what + 'the callback ran %d times, expected %d',
             len(r['events']), events)
        need(bool(r['printed']) == printed, what + 'message printed: %s, expected %s (entry %d, every %d)',
             r['printed'], printed, len(xs), every)
        need(r['iter'] == len(xs), what + 'the count is %s, expected %d', r['iter'], len(xs))
        need(len(r['xs']) == len(xs) and len(r['vals']) == len(xs), what + 'the log holds %d points and '
             '%d values, expected %d', len(r['xs']), len(r['vals']), len(xs))
        need(r['other'] == [other] * 3, what + 'the log of another objective holds %s entries, expected %d',
             r['other'], other)
        for j in range(len(xs)):
            close(r['xs'][j], xs[j], what + 'logged point %d' % j, rtol=1e-12, atol=1e-12)
            equal(r['vals'][j], vals[j], what + 'logged value %d' % j)
    return labels


PROP = Prop(
    'C25', ['ex_obj', 'ex_sparse'],
    [Sub('history', case(), 'c25', judge, 3008, 40000,
         nontrivial=lambda c: sum(bool(o.get('verbose')) for o in c['ops']) > 2)],
    rule='Histories of plain and conditioned, verbose and silent evaluations, derivative calls, '
         'resets, preconditioner, interval and callback changes; non-trivial = at least three verbose '
         'evaluations. Oracle: a reference log.',
    assumptions=[])
