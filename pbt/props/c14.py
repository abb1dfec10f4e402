import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, jets, sens
from pbt.core import Prop, Sub, need, close

dirs = st.sampled_from([1.0, -1.0, 0.5, 0.0, 2.0, -0.25])


@st.composite
def fun(draw, n, scalar, dim):
    out = []
    for _ in range(1 if scalar else dim):
        t = sens._small(draw(gen.terms(n, 1, 3)), 0.5)
        # every argument enters
        for i in range(n):
            if draw(st.booleans()) and t[0]['a'][i] == 0.0:
                t[0]['a'][i] = 0.25
        if t[0]['p'] == 'id':
            t[0]['p'] = 'exp'
        out.append(dict(terms=t))
    return out


@st.composite
def array_case(draw):
    n1, n2 = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    scalar = draw(st.booleans())
    order = draw(st.sampled_from([1, 2, 2, 3]))
    return dict(scalar=scalar, fs=draw(fun(n1 + n2, scalar, draw(st.integers(1, 3)))), order=order,
                x=[draw(gen.vec(n1, gen.real(-1.5, 1.5))), draw(gen.vec(n2, gen.real(-1.5, 1.5)))],
                v1=[draw(gen.vec(n1, dirs)) for _ in range(order)],
                v2=[draw(gen.vec(n2, dirs)) for _ in range(order + 1)])


@st.composite
def append_case(draw):
    ns = draw(st.lists(st.integers(1, 2), min_size=1, max_size=3))
    scalar = draw(st.booleans())
    apps = []
    for _ in range(draw(st.integers(1, 3))):
        a = draw(st.integers(0, len(ns) - 1))
        apps.append([a, draw(gen.vec(ns[a], dirs))])
    return dict(scalar=scalar, fs=draw(fun(sum(ns), scalar, 2)), defaults=draw(st.booleans()),
                x=[draw(gen.vec(n, gen.real(-1.5, 1.5))) for n in ns], appends=apps)


def deriv(fs, scalar, xs, slots):
    """mixed derivative along slots [(argument, direction)], in any order"""
    m = len(slots)
    pts = []
    for a, x in enumerate(xs):
        for i, v in enumerate(x):
            pts.append(jets.Multi.point(
                v, m, [(1 << s, d[i]) for s, (b, d) in enumerate(slots) if b == a]))
    out = [ref.eval_objective(f, pts) for f in fs]
    out = [y.c[-1] if isinstance(y, jets.Multi) else (float(y) if m == 0 else 0.0) for y in out]
    return np.array(out[0]) if scalar else np.array(out)


def tol(want):
    return 1e-9 * (1 + np.abs(want).max())


def judge_array(case, obs):
    o = case['order']
    need(len(obs['shape']) >= o and all(k >= o + 1 for k in obs['shape'][:o]),
         'array of size %s for order %d', obs['shape'], o)
    for i, j, got in obs['vals']:
        slots = [(0, v) for v in case['v1'][:i]] + [(1, v) for v in case['v2'][:j]]
        want = deriv(case['fs'], case['scalar'], case['x'], slots)
        close(got, want, 'derivative [%d][%d]' % (i, j), rtol=1e-8, atol=tol(want))
    return ['scalar' if case['scalar'] else 'vector', 'order%d' % o]


def judge_append(case, obs):
    for k, got in enumerate(obs['vals']):
        want = deriv(case['fs'], case['scalar'], case['x'],
                     [(a, d) for a, d in case['appends'][:k]])
        close(got, want, 'Jacobian-vector product after %d appends' % k, rtol=1e-8, atol=tol(want))
    return ['args%d' % len(case['x'])]


def all_patterns(k):
    patterns = []

    def rec(i, left, eta):
        if i == k + 1:
            patterns.append((left, list(eta)))
            return
        for m in range(left // i + 1):
            rec(i + 1, left - m * i, eta + [m])
    rec(1, k, [])
    return patterns


@st.composite
def many_case(draw):
    k = draw(st.integers(2, 6))
    pats = all_patterns(k)
    terms = []
    for _ in range(draw(st.integers(2, 14))):
        eps, eta = draw(st.sampled_from(pats))
        terms.append(dict(eps=eps, eta=eta, pre=draw(st.sampled_from([1.0, 2.0, 3.0, 0.5, -1.0, 7.0]))))
    return dict(k=k, terms=terms)


def judge_many(case, obs):
    ts = case['terms']
    same = [pattern(a) == pattern(b) for a in ts for b in ts]
    for i, (x, y) in enumerate(zip(obs['similar'], same)):
        a, b = ts[i // len(ts)], ts[i % len(ts)]
        need(x == y, 'similarity of %s and %s is %s', pattern(a), pattern(b), x)
        r = obs['pairs'][i]
        if y:
            need(r is not None and pattern(r) == pattern(a), 'combining %s gave %s', pattern(a), r)
            close(r['pre'], a['pre'] + b['pre'], 'prefactor of a combination', rtol=1e-13, atol=1e-13)
        else:
            need(r is None, 'different patterns %s and %s were combined', pattern(a), pattern(b))
    check_cons(ts, obs['cons'], 'consolidation')
    for t, o in zip(ts, obs['after']):
        need(pattern(t) == pattern(o) and t['pre'] == o['pre'] and o['order'] == case['k'],
             'comparing or combining changed the terms it was given')
    return ['merge' if len(obs['cons']) < len(ts) else 'all distinct']


@st.composite
def terms_case(draw):
    n1, n2 = draw(st.integers(1, 2)), draw(st.integers(1, 2))
    scalar = False
    k = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    patterns = all_patterns(k)
    terms = []
    for _ in range(draw(st.integers(1, 4))):
        eps, eta = draw(st.sampled_from(patterns))
        terms.append(dict(eps=eps, eta=eta, pre=draw(st.sampled_from([1.0, 2.0, 3.0, 0.5, -1.0]))))
    return dict(scalar=scalar, fs=draw(fun(n1 + n2, scalar, draw(st.integers(1, 2)))), k=k,
                array_order=k + 2, terms=terms,
                x=[draw(gen.vec(n1, gen.real(-1.5, 1.5))), draw(gen.vec(n2, gen.real(-1.5, 1.5)))],
                deps=draw(gen.vec(n2, dirs)),
                etas=[draw(gen.vec(n1, dirs)) for _ in range(k + 1)], alt=draw(gen.vec(n1, dirs)))


def slots_of(case, t):
    s = []
    for i, m in enumerate(t['eta']):
        s += [(0, i)] * m
    s += [(1, None)] * t['eps']
    return s


def term_value(case, t):
    sl = [(0, case['etas'][i]) if a == 0 else (1, case['deps']) for a, i in slots_of(case, t)]
    return t['pre'] * deriv(case['fs'], case['scalar'], case['x'], sl)


def term_rate(case, t):
    """d/ds of the term along eta(s) = eta0 + sum eta_i s^i / i!, eps0 + s deps"""
    sl = slots_of(case, t)
    m = len(sl) + 1
    top = 1 << (m - 1)
    pts = []
    for a, x in enumerate(case['x']):
        for i, v in enumerate(x):
            parts = [(top, case['etas'][0][i] if a == 0 else case['deps'][i])]
            for s, (b, e) in enumerate(sl):
                if b == a and a == 0:
                    parts.append((1 << s, case['etas'][e][i]))
                    parts.append((1 << s | top, case['etas'][e + 1][i]))
                elif b == a:
                    parts.append((1 << s, case['deps'][i]))
            pts.append(jets.Multi.point(v, m, parts))
    out = [ref.eval_objective(f, pts) for f in case['fs']]
    return t['pre'] * np.array([y.c[-1] if isinstance(y, jets.Multi) else 0.0 for y in out])


def pattern(t):
    return (t['eps'], tuple(t['eta']))


def strip(t):
    return {k: t[k] for k in ('eps', 'eta', 'pre', 'order')}


def check_cons(before, after, what):
    pats = [pattern(t) for t in after]
    need(len(set(pats)) == len(pats), '%s: two consolidated terms share a pattern', what)
    need(set(pats) == set(pattern(t) for t in before),
         '%s: patterns %s became %s', what, sorted(set(pattern(t) for t in before)), sorted(pats))
    for t in after:
        want = sum(b['pre'] for b in before if pattern(b) == pattern(t))
        close(t['pre'], want, '%s: prefactor of %s' % (what, pattern(t)), rtol=1e-12, atol=1e-12)


def judge_terms(case, obs):
    ts = case['terms']
    vals = [term_value(case, t) for t in ts]
    big = 1 + max(np.abs(v).max() for v in vals)
    for t, o, v, e in zip(ts, obs['terms'], vals, obs['evals']):
        need(o['order'] == case['k'], 'order of a term: %s, expected %d', o['order'], case['k'])
        close(e, v, 'value of term %s' % (pattern(t),), rtol=1e-8, atol=1e-9 * big)
    close(obs['sum'], sum(vals), 'sum of terms', rtol=1e-8, atol=1e-9 * big)
    for s in obs['sums_stored']:
        close(s, sum(vals), 'sum of terms whose derivatives are stored arrays', rtol=1e-8, atol=1e-9 * big)
    need(obs['stored_kept'], 'an array returned by a derivative function was changed')
    need(obs['etas_kept'], 'a derivative of the curve was changed')
    low = [v for t, v in zip(ts, vals) if t['eta'][-1] == 0]
    if low:
        close(obs['sum_low'], sum(low), 'sum of terms without the highest derivative',
              rtol=1e-8, atol=1e-9 * big)
    check_cons(ts, obs['cons'], 'consolidation')
    close(obs['cons_sum'], sum(vals), 'sum after consolidation', rtol=1e-8, atol=1e-9 * big)
    same = [pattern(a) == pattern(b) for a in ts for b in ts]
    need(obs['similar'] == same, 'similarity of terms: %s, expected %s', obs['similar'], same)
    rates = [term_rate(case, t) for t in ts]
    rb = 1 + max(np.abs(v).max() for v in rates) + big
    for t, r, e in zip(ts, rates, obs['diff_each']):
        close(sum(np.asarray(v, float) for v in e), r, 'derivative of term %s' % (pattern(t),),
              rtol=1e-8, atol=1e-8 * rb)
    other = dict(case, etas=case['etas'][:-1] + [case['alt']])
    for t, e in zip(ts, obs['diff_alt']):
        r = term_rate(other, t)
        close(sum(np.asarray(v, float) for v in e), r, 'derivative of term %s along another curve'
              % (pattern(t),), rtol=1e-8, atol=1e-8 * (rb + np.abs(r).max()))
    for t in obs['diff']:
        need(t['order'] == case['k'] + 1, 'order %s after differentiating order %d',
             t['order'], case['k'])
    close(obs['diff_sum'], sum(rates), 'sum of differentiated terms', rtol=1e-8, atol=1e-8 * rb)
    check_cons(obs['diff'], obs['dcons'], 'consolidation of the derivative')
    close(obs['dcons_sum'], sum(rates), 'sum of consolidated derivative terms', rtol=1e-8,
          atol=1e-8 * rb)
    need([strip(t) for t in obs['again']] == [strip(t) for t in obs['terms']],
         'differentiating or consolidating changed the terms it was given')
    close(obs['sum_again'], sum(vals), 'the same terms evaluated again', rtol=1e-8, atol=1e-9 * big)
    return ['k%d' % case['k']]


@st.composite
def chain_case(draw):
    n, m = draw(st.integers(1, 3)), draw(st.integers(1, 2))
    p = dict(sa=dict(t='vector', name='a', size=n, lb=None, ub=None),
             sb=dict(t='vector', name='b', size=m, lb=None, ub=None), afree=False, bfree=False)
    p['x0'] = draw(gen.vec(n, gen.real(-1, 1)))
    p['h0'] = draw(gen.vec(m, gen.real(-1, 1)))
    p['F'] = dict(terms=sens._small(draw(gen.terms(n, 1, 2)), 0.5), center=[0.0] * n)
    p['G'] = draw(fun(n + m, True, 1))[0]
    for c in (0.5, 1.0, 2.0, 4.0, 8.0, 16.0, 32.0):
        p['F']['ridge'] = c
        H = sens.derivs(p, p['x0'], p['h0'])[1]
        if sens.good(H):
            break
    else:
        from hypothesis import assume
        assume(False)
    p['hess'] = (0.5 * (H + H.T)).tolist()
    p['order'] = draw(st.sampled_from([1, 2, 2, 3]))
    p['dh'] = draw(gen.vec(m, dirs))
    return p


def judge_chain(case, obs):
    want = sens.curve(case, case['x0'], case['h0'], case['dh'], case['order'])
    H = np.array(case['hess'])
    big = 1 + max(np.abs(w).max() for w in want)
    for k, l in enumerate(obs['levels']):
        w = want[k]
        close(l['d'], w, 'derivative %d solved from the terms' % (k + 1), rtol=1e-7, atol=1e-8 * big)
        close(l['low'], -H @ w, 'terms without the highest derivative, level %d' % (k + 1),
              rtol=1e-7, atol=1e-7 * big * np.abs(H).max())
        close(l['total'], np.zeros(len(w)), 'full set of terms at the solved derivative, level %d'
              % (k + 1), rtol=0, atol=1e-7 * big * np.abs(H).max())
        pats = [pattern(t) for t in l['terms']]
        need(len(set(pats)) == len(pats), 'level %d repeats a pattern: %s', k + 1, pats)
        for t in l['terms']:
            need(t['order'] == k + 1, 'level %d holds a term of order %s', k + 1, t['order'])
    return ['order%d' % case['order']]


PROP = Prop(
    'C14', ['ex_terms'],
    [Sub('array', array_case(), 'c14_array', judge_array, 640, 8000),
     Sub('append', append_case(), 'c14_append', judge_append, 480, 6000),
     Sub('terms', terms_case(), 'c14_terms', judge_terms, 480, 6000,
         nontrivial=lambda c: c['k'] > 1 or len(c['terms']) > 1),
     Sub('many', many_case(), 'c14_many', judge_many, 480, 6000),
     Sub('chain', chain_case(), 'c14_chain', judge_chain, 320, 4000,
         nontrivial=lambda c: c['order'] > 1)],
    rule='Generated scalar and vector functions of one to three vectors, distinct directions per '
         'slot; hand-made terms of every derivative pattern up to order four along arbitrary '
         'curves; lists of up to 14 terms of order up to six compared, combined, consolidated; chains of solved derivatives. Oracle: square-free algebra of nilpotent '
         'directions and power series.',
    assumptions=['Terms handed to one call have the same total order.'])
