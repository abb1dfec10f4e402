import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Prop, Sub, need, close, equal
from pbt.props.c19 import size

vectors = st.one_of(st.integers(-40, 40).map(lambda a: a / 8.0), st.integers(-5000, 5000).map(lambda a: a / 1000.0))


@st.composite
def spd(draw, n, lo=0.5):
    L = np.array(draw(gen.vec(n * n, st.integers(-4, 4).map(lambda a: a / 4.0)))).reshape(n, n)
    return L @ L.T + np.diag(draw(gen.vec(n, st.sampled_from([lo, 1.0, 3.0]))))


@st.composite
def large(draw):
    """Many unknowns and a wide spectrum; the condition number stays below 1100, for
    which scipy's limit of ten steps per unknown is enough."""
    n = draw(st.sampled_from([12, 25, 40, 64]))
    elem = gen.real(-2, 2)
    Q = np.linalg.qr(np.array(gen.pattern(draw, n * n, elem, 29)).reshape(n, n) + 3 * np.tri(n))[0]
    top = draw(st.sampled_from([1.0, 2.0, 3.0])) if n >= 40 else 1.5
    A = (Q * np.logspace(0, top, n)) @ Q.T
    ops = [dict(op='one', v=gen.pattern(draw, n, vectors), guess=None)]
    if draw(st.booleans()):
        ops.append(dict(op='subsets', v=gen.pattern(draw, n, vectors), verbose=False,
                        masks=[gen.pattern(draw, n, st.booleans()) for _ in range(2)]))
    return dict(A=(0.5 * (A + A.T)).tolist(), d=[0.0] * n, x0=[0.0] * n,
                tol=draw(st.sampled_from([None, 1e-10, 1e-4])), ops=ops)


@st.composite
def case(draw):
    n = draw(st.integers(1, 7))
    if draw(st.integers(0, 15)) == 0:
        return draw(large())
    u = draw(st.sampled_from([1.0, 1.0, 2.0 ** -30, 2.0 ** 30]))
    # a long vector makes the solver's tolerance a relative one
    k = draw(st.sampled_from([1.0, 1.0, 2.0 ** 20, 2.0 ** 40]))
    rhs = vectors.map(lambda a: a * k)
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        kind = draw(st.sampled_from(['one', 'one', 'subsets', 'subsets', 'pre', 'init']))
        op = dict(op=kind)
        if kind == 'pre':
            op['m'] = None if draw(st.integers(0, 3)) == 0 else draw(spd(n)).tolist()
        elif kind == 'one':
            op['v'] = draw(gen.vec(n, rhs))
            op['whole'] = draw(st.sampled_from([False, False, True]))
            op['guess'] = draw(gen.vec(n, gen.real(-3, 3))) if draw(st.booleans()) else None
        elif kind == 'subsets':
            op['v'] = draw(gen.vec(n, rhs))
            op['whole'] = draw(st.sampled_from([False, False, True]))
            op['masks'] = [draw(gen.vec(n, st.booleans())) for _ in range(draw(st.integers(0, 4)))]
            op['verbose'] = draw(st.booleans())
        if op.get('whole'):
            # a right-hand side given as integers
            op['v'] = gen.whole(op['v'])
        ops.append(op)
    return dict(A=(u * draw(spd(n))).tolist(), d=draw(gen.vec(n, st.sampled_from([0.0, u, 0.5 * u]))),
                x0=draw(gen.vec(n, gen.nice)), tol=draw(st.sampled_from([None, None, 1e-10, 1e-4])),
                ops=ops)


def solved(H, v, h, info, tol, what, guess=None):
    need(info == 0, '%s: the solver reported %s on a well-conditioned system', what, info)
    v = np.asarray(v, float)
    h = np.asarray(h, float)
    need(h.shape == v.shape, '%s has shape %s', what, h.shape)
    r = np.linalg.norm(H @ h - v)
    b = np.linalg.norm(v)
    # rounding in the products
    big = np.linalg.norm(H) * (np.linalg.norm(h) + (0 if guess is None else np.linalg.norm(guess)))
    need(r <= 2 * tol * max(b, 1.0) + 1e-12 * (1 + b) + 1e-13 * big, '%s: residual %.3g for a vector of norm %.3g',
         what, r, b)


def judge(case, obs):
    x0 = np.array(case['x0'], float)
    H = np.array(case['A']) + np.diag(np.array(case['d']) * x0 * x0)
    tol = case['tol'] or 1e-8
    equal(obs['x0'], x0, 'the caller\'s x0')
    rec, labels = [], []
    for i, (op, r) in enumerate(zip(case['ops'], obs['ops'])):
        if op['op'] == 'init':
            rec = []
        elif op['op'] == 'one':
            solved(H, op['v'], r['h'], r['info'], tol, 'solution', op['guess'])
            equal(r['v'], np.array(op['v'], float), 'the caller\'s vector')
            if op['guess'] is not None:
                equal(r['guess'], np.array(op['guess'], float), 'the caller\'s starting guess')
            labels.append('guess' if op['guess'] is not None else 'plain')
        elif op['op'] == 'subsets':
            equal(r['v'], np.array(op['v'], float), 'the caller\'s vector')
            for k, m in enumerate(op['masks']):
                equal(r['masks'][k], np.array(m, bool), 'the caller\'s mask')
                rec.append((np.array(m, bool), np.where(m, op['v'], 0.0)))
            labels.append('subsets')
        elif op['op'] == 'pre':
            labels.append('preconditioned')
        n = len(rec)
        lens = [len(r['vecs']), len(r['hinv']), len(r['mk']), r['ntimes'], len(r['infos'])]
        need(lens == [n] * 5, 'recorded vectors, solutions, masks, times and codes: %s, expected %d each',
             lens, n)
        for k, (m, v) in enumerate(rec):
            equal(r['mk'][k], m, 'recorded mask %d' % k)
            equal(r['vecs'][k], v, 'recorded vector %d' % k)
            solved(H, v, r['hinv'][k], r['infos'][k], tol, 'masked solution %d' % k)
    return labels


@st.composite
def mask_case(draw):
    n = draw(st.one_of(st.integers(2, 12), st.integers(2, 80)))
    k = draw(st.integers(0, 40))
    mask = draw(gen.vec(k, st.booleans() if draw(st.booleans()) else st.just(draw(st.booleans()))))
    return dict(len=n, block=draw(st.integers(1, n - 1)), mask=mask,
                limit=draw(st.one_of(st.integers(1, 3), st.integers(1, 12))))


def as_masks(ms, n, what):
    out = []
    for m in ms:
        m = np.asarray(m)
        need(m.shape == (n,), '%s has shape %s, expected %s', what, m.shape, (n,))
        need(m.dtype.kind == 'b' or n == 0, '%s is not Boolean', what)
        out.append(m.astype(bool))
    return out


def mask_judge(case, obs):
    n, b = case['len'], case['block']
    ms = as_masks(obs['masks'], n, 'a generated mask')
    tot = sum(m.astype(int) for m in ms) if ms else np.zeros(n)
    need(np.all(tot == 1), 'the masks cover the indices %s times', sorted(set(np.asarray(tot).tolist())))
    for m in ms:
        idx = np.flatnonzero(m)
        need(0 < len(idx) <= b, 'a block of %d indices, requested at most %d', len(idx), b)
        need(idx[-1] - idx[0] + 1 == len(idx), 'a mask is not a block: %s', idx.tolist())
    need(len(ms) == -(-n // b), '%d blocks of at most %d for %d indices', len(ms), b, n)
    mask = np.array(case['mask'], bool)
    equal(obs['mask'], mask, 'the caller\'s mask')
    two = as_masks(obs['split'], len(mask), 'half of a mask')
    need(len(two) == 2, 'split into %d', len(two))
    equal(two[0].astype(int) + two[1].astype(int), mask.astype(int), 'the two halves together')
    need(abs(two[0].sum() - two[1].sum()) <= 1, 'the halves have %d and %d entries',
         two[0].sum(), two[1].sum())
    rec = as_masks(obs['rec'], len(mask), 'a piece of a mask')
    tot = sum(m.astype(int) for m in rec) if rec else np.zeros(len(mask), int)
    equal(tot, mask.astype(int), 'the pieces together')
    need(all(m.sum() <= case['limit'] for m in rec), 'pieces of %s entries, limit %d',
         [int(m.sum()) for m in rec], case['limit'])
    return ['pieces_%d' % min(len(rec), 4), 'exact' if n % b == 0 else 'ragged']


PROP = Prop(
    'C23', ['ex_opt'],
    [Sub('solve', case(), 'c23', judge, 3008, 30080,
         nontrivial=lambda c: any(any(o.get('v', [])) for o in c['ops'])),
     Sub('masks', mask_case(), 'c23_masks', mask_judge, 4000, 40000,
         nontrivial=lambda c: sum(c['mask']) > c['limit'])],
    rule='Positive-definite operators depending on the point, histories of single and masked solves, '
         'preconditioner changes and resets; lengths, block sizes and Boolean masks. Non-trivial = a '
         'non-zero right-hand side, a mask that has to be split. Oracle: residuals and partitions.',
    assumptions=['Condition numbers of at most a few hundred, dimension at most 7 (up to 1100 and 64 one time in sixteen); scipy\'s '
                 'stopping rule (relative residual, or an absolute one at the starting guess).'])
