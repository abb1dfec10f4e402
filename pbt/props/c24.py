import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Prop, Sub, Sparse, need, close, equal, dense

LARGE = [300, 1000, 32770, 65540, 70000, 10 ** 6]
DTYPES = ['float64', 'float64', 'float64', 'float32', 'int64', 'int32', 'bool']


def entry(t):
    if t == 'bool':
        return st.booleans()
    if t.startswith('int'):
        return st.one_of(st.integers(-5, 5), st.integers(-2 ** 31, 2 ** 31 - 1) if t == 'int32'
                         else st.integers(-2 ** 62, 2 ** 62))
    if t == 'float32':
        return st.integers(-64, 64).map(lambda k: k / 16.0)
    return st.one_of(gen.nice, st.floats(allow_nan=False, allow_infinity=False))


@st.composite
def pack_case(draw):
    r, c = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    huge = draw(st.integers(0, 5)) == 0
    many = not huge and draw(st.integers(0, 5)) == 0
    if huge:
        c = draw(st.sampled_from(LARGE))
    elif many:
        r, c = draw(st.integers(1, 30)), draw(st.integers(1, 40))
    t = draw(st.sampled_from(DTYPES))
    data, ind, ptr = [], [], [0]
    messy = draw(st.booleans())
    for _ in range(r):
        if huge or many:
            cols = draw(st.lists(st.one_of(st.integers(0, c - 1), st.integers(max(0, c - 3), c - 1)),
                                 unique=True, max_size=5))
        else:
            k = draw(st.sampled_from([0, 0, 1, 2, c]))
            cols = list(draw(st.permutations(list(range(c))))[:k])
        if not messy:
            cols = sorted(cols)
        ind += cols
        ptr.append(len(ind))
    data = draw(gen.vec(len(ind), entry(t)))
    if data and draw(st.booleans()):
        data[draw(st.integers(0, len(data) - 1))] = False if t == 'bool' else 0
    return {'m': dict(data=data, indices=ind, indptr=ptr, shape=[r, c], t=t),
            'from': draw(st.sampled_from(['csr', 'csr', 'csc', 'coo'] if huge else
                                         ['csr', 'csr', 'csc', 'coo', 'array', 'lil']))}


def entry_map(m):
    """{(row, col): value} of non-zero entries, exactly."""
    out = {}
    for i in range(m['shape'][0]):
        for k in range(m['indptr'][i], m['indptr'][i + 1]):
            if m['data'][k] != 0:
                out[(i, m['indices'][k])] = m['data'][k]
    return out


def got_map(s, what):
    need(isinstance(s, Sparse), '%s is not a sparse matrix', what)
    out = {}
    for r, c, v in zip(s.rows, s.cols, s.raw):
        need(0 <= r < s.shape[0] and 0 <= c < s.shape[1], '%s has an entry at (%d, %d)', what, r, c)
        if v != 0:
            need((r, c) not in out, '%s has two entries at (%d, %d)', what, r, c)
            out[(r, c)] = v
    return out


def pack_judge(case, obs):
    m = case['m']
    want = entry_map(m)
    need(obs['kept'], 'packing changed the matrix it was given')
    for k in ('mem', 'json', 'text'):
        g = obs[k]
        what = {'mem': 'matrix unpacked in memory', 'json': 'matrix unpacked from JSON',
                'text': 'matrix unpacked from a JSON document'}[k]
        need(g['format'] == 'csr', '%s has format %s', what, g['format'])
        need(g['shape'] == m['shape'], '%s has shape %s, expected %s', what, g['shape'], m['shape'])
        need(g['dtype'] == m['t'], '%s has type %s, expected %s', what, g['dtype'], m['t'])
        got = got_map(g['m'], what)
        need(got == want, '%s has entries %s, expected %s', what, sorted(got.items()), sorted(want.items()))
    return [m['t'], case['from'], 'empty' if not m['data'] else 'entries',
            'unsorted' if any(m['indices'][a:b] != sorted(m['indices'][a:b])
                              for a, b in zip(m['indptr'], m['indptr'][1:])) else 'sorted']


@st.composite
def embed_case(draw):
    square = draw(st.booleans())
    r = draw(st.integers(1, 4))
    c = r if square else draw(st.integers(1, 4))
    big = draw(st.integers(0, 9)) == 0
    if big:
        r = draw(st.integers(5, 40))
        c = r if square else draw(st.integers(1, 40))
    rd, cd = r + draw(st.integers(0, 4)), c + draw(st.integers(0, 4))
    kind = draw(st.sampled_from(['float'] * 5 + ['int', 'bool', 'complex']))
    integer = kind != 'float' and kind != 'complex'
    e = st.one_of(st.sampled_from([0, 0, 1, -2]), st.booleans() if kind == 'bool' else
                  st.one_of(st.integers(-9, 9), st.integers(-2 ** 62, 2 ** 62)) if integer else gen.real(-1e3, 1e3))
    vals = gen.pattern(draw, r * c, e, 13) if big else draw(gen.vec(r * c, e))
    if kind == 'bool':
        vals = [bool(k) for k in vals]
    t = {'bool': 'bool', 'int': 'int64'}.get(kind, 'float64')
    im = {'im': gen.pattern(draw, r * c, e, 13)} if kind == 'complex' else {}
    o = [draw(st.integers(0, 3)), draw(st.integers(0, 3))]
    huge = not big and draw(st.integers(0, 3)) == 0
    if huge:
        rd, cd = draw(st.sampled_from(LARGE)), draw(st.sampled_from(LARGE))
        o = [draw(st.sampled_from(LARGE)) - 3, draw(st.integers(0, 200000))]
        ind = lambda n, d: draw(st.lists(st.one_of(
            st.integers(0, min(rd, cd) - 1), st.integers(min(rd, cd) - 5, min(rd, cd) - 1)),
            min_size=n, max_size=n, unique=True))
    return dict(b=dict(a=vals, s=[r, c], t=t, **im), rd=rd, cd=cd,
                rows=ind(r, rd) if huge else list(draw(st.permutations(list(range(rd))))[:r]),
                cols=ind(c, cd) if huge else list(draw(st.permutations(list(range(cd))))[:c]),
                as_array=draw(st.booleans()), offset=o,
                full=[r + o[0] + draw(st.integers(0, 3)), c + o[1] + draw(st.integers(0, 3))])


def embed_judge(case, obs):
    block = lambda k: np.array(case['b'][k], object).reshape(case['b']['s'])
    b = block('a')
    need(obs['kept'], 'the block was modified')
    rows, cols = case['rows'], case['cols']

    def placed(shape, rows, cols, b):
        return list(shape), {(r, c): b[i, j] for i, r in enumerate(rows)
                             for j, c in enumerate(cols) if b[i, j]}

    def check(o, want, what):
        need(o['shape'] == want[0], '%s has shape %s, expected %s', what, o['shape'], want[0])
        got = got_map(o['m'], what)
        need(got == want[1], '%s has entries %s, expected %s', what, sorted(got.items()),
             sorted(want[1].items()))
    o = case['offset']
    for part, k in (('', 'a'), ('_im', 'im')):
        if k not in case['b']:
            continue
        b = block(k)
        check(obs['sub' + part], placed((case['rd'], case['cd']), rows, cols, b), 'embedded block')
        if 'hess' in obs:
            check(obs['hess' + part], placed((case['rd'], case['rd']), rows, rows, b), 'embedded Hessian')
        check(obs['offset' + part], placed(case['full'], range(o[0], o[0] + b.shape[0]),
                                           range(o[1], o[1] + b.shape[1]), b), 'shifted block')
    return ['large' if max(case['rd'], case['cd']) > 99 else 'small',
            'square' if 'hess' in obs else 'rectangular', 'unsorted' if rows != sorted(rows) else 'sorted']


@st.composite
def mul_case(draw):
    n, k, m = (draw(st.integers(1, 4)) for _ in range(3))
    vec = gen.vec
    if draw(st.integers(0, 9)) == 0:
        n, k, m = (draw(st.integers(1, 40)) for _ in range(3))
        vec = st.composite(lambda draw, n, e: gen.pattern(draw, n, e, 5))
    e = st.one_of(st.just(0.0), st.just(0.0), gen.real(-9, 9))
    kinds = st.sampled_from(['dense', 'csr', 'csc', 'coo'])
    x = dict(m=[draw(vec(k, e)) for _ in range(n)], kind=draw(kinds))
    if draw(st.booleans()):
        y = dict(m=draw(vec(k, e)), kind='dense', vec=True)
    else:
        y = dict(m=[draw(vec(m, e)) for _ in range(k)], kind=draw(kinds))
    if draw(st.integers(0, 5)) == 0:
        x, y = (dict(k, m=gen.whole(k['m']), t='int64') for k in (x, y))
    return dict(x=x, y=y)


def mul_judge(case, obs):
    X, Y = np.array(case['x']['m'], float), np.array(case['y']['m'], float)
    want = X @ Y
    s = 1 + np.abs(X).max() * np.abs(Y).max()
    z = dense(obs['z'])
    close(z, want, 'product', rtol=1e-12, atol=1e-13 * s * X.shape[1])
    close(obs['compress'], np.squeeze(want), 'compressed product', rtol=1e-12, atol=1e-13 * s * X.shape[1])
    return [case['x']['kind'] + '*' + ('vector' if case['y'].get('vec') else case['y']['kind'])]


PROP = Prop(
    'C24', ['ex_sparse'],
    [Sub('pack', pack_case(), 'c24_pack', pack_judge, 3600, 36000,
         nontrivial=lambda c: len(c['m']['data']) > 0),
     Sub('embed', embed_case(), 'c24_embed', embed_judge, 3600, 36000,
         nontrivial=lambda c: any(c['b']['a']) and len(c['b']['a']) > 1),
     Sub('mul', mul_case(), 'c24_mul', mul_judge, 2400, 24000,
         nontrivial=lambda c: len(c['x']['m']) > 1)],
    rule='Sparsity patterns with empty rows, explicit zeros, unsorted columns and seven types; dense '
         'blocks at permuted indices or offsets; products of dense, csr, csc and coo '
         'factors. Non-trivial = at least one stored entry, more than one entry, more than one row. Oracle: exact entry maps and dense products.',
    assumptions=['At least one row and column (this scipy has no empty sparse matrices).'])
