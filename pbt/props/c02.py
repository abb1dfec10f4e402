import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Prop, Sub, need, equal, close, check_shape

wide = st.one_of(
    gen.real(-5, 5), st.integers(-1000, 1000).map(float),
    st.floats(-1e12, 1e12, allow_nan=False, allow_subnormal=False))


@st.composite
def case(draw):
    spec = draw(gen.some_wide())
    n = ref.sizes(spec)[1]
    k = draw(st.integers(1, 2))
    vecs = [draw(gen.vec(n, wide)) for _ in range(k)]
    # whole numbers, given as integers
    ints = draw(st.integers(0, 5)) == 0
    return dict(spec=spec, vecs=gen.whole(vecs) if ints else vecs, whole=ints)


@st.composite
def big_case(draw):
    spec = draw(gen.wide(huge=True))
    n = ref.sizes(spec)[1]
    rng = np.random.RandomState(draw(st.integers(0, 10 ** 6)))
    return dict(spec=spec, vecs=[rng.permutation(n).astype(float).tolist()])


def check_layout(spec, vec, values, what):
    o = 0
    for (path, s), v in zip(ref.leaf_specs(spec), values):
        k = ref.sizes(s)[1]
        part = list(vec[o:o + k])
        o += k
        w = '%s, entry %s (%s)' % (what, '.'.join(path), s['t'])
        v = np.asarray(v, float)
        if s['t'] == 'scalar':
            need(v.size == 1, '%s: scalar holds shape %s', w, v.shape)
            v = v.reshape(())
        want = np.array(ref.vec_to_values(s, part)).reshape(ref.value_shape(s))
        equal(v, want, w)


def judge(case, obs):
    spec = case['spec']
    f, v = ref.sizes(spec)
    need(obs['free_size'] == f, 'free size %s, expected %d', obs['free_size'], f)
    need(obs['vector_size'] == v, 'vector size %s, expected %d', obs['vector_size'], v)
    for x, g in zip(case['vecs'], obs['got']):
        equal(np.asarray(g['vec'], float), np.array(x), 'vector read back')
        check_layout(spec, x, g['values'], 'value after set_vector')
    last = case['vecs'][-1]
    equal(np.asarray(obs['index_vec'], float), np.arange(v, dtype=float), 'index parameter\'s vector')
    check_layout(spec, [float(i) for i in range(v)], obs['index_values'], 'index parameter')
    equal(np.asarray(obs['after'], float), np.array(last), 'original vector after making the index parameter')
    check_layout(spec, last, obs['after_values'], 'original after making the index parameter')
    equal(np.asarray(obs['by_value'], float), np.array(last), 'vector encoding of a parameter set by value')
    return sorted(set(s['t'] for _, s in ref.leaf_specs(spec)))


@st.composite
def helper_case(draw):
    n = draw(st.integers(1, 5))
    m = n * (n + 1) // 2
    e = gen.real(-3, 3)
    L = np.tril(np.array(draw(gen.vec(n * n, gen.nice))).reshape(n, n), -1) / 2
    L = L + np.diag(draw(gen.vec(n, st.sampled_from([0.5, 1.0, 2.0, 3.5]))))
    lb = draw(st.sampled_from([0.0, 0.0, 0.5, 2.0]))
    shape = [draw(st.integers(1, 3)), draw(st.integers(2, 4))]
    S = np.array(draw(gen.vec(shape[0] * shape[1], st.floats(0.01, 1.0)))).reshape(shape)
    return dict(n=n, M=np.array(draw(gen.vec(n * n, e))).reshape(n, n).tolist(), v=draw(gen.vec(m, e)),
                d=draw(gen.vec(m, e)), A=(L @ L.T + lb * np.eye(n)).tolist(), L=L.tolist(), lb=lb,
                shape=shape, S=(S / S.sum(axis=1, keepdims=True)).tolist())


def helper_judge(case, obs):
    n = case['n']
    M, v, d, L = (np.array(case[k], float) for k in 'MvdL')
    ix = [(i, j) for i in range(n) for j in range(i + 1)]
    low = lambda x: np.array([x[i][j] for i, j in ix])

    def un(x):
        out = np.zeros((n, n))
        for k, (i, j) in enumerate(ix):
            out[i, j] = x[k]
        return out
    equal(obs['ld'], low(M), 'lower triangle as a vector')
    equal(obs['un'], un(v), 'vector as a lower triangle')
    equal(obs['sym'], np.tril(un(v)) + np.tril(un(v), -1).T, 'vector as a symmetric matrix')
    P = np.tril(L, -1) + np.diag(np.log(np.diag(L)))
    close(obs['pack'], low(P), 'packed matrix', rtol=1e-9,
          atol=1e-9 + 1e-14 * np.linalg.cond(np.array(case['A'])))
    C = np.tril(un(v), -1) + np.diag(np.exp(np.diag(un(v))))
    U = C @ C.T + case['lb'] * np.eye(n)
    close(obs['unpack'], U, 'unpacked matrix', rtol=1e-12, atol=1e-12)
    close(obs['flat'], low(U), 'free to vector', rtol=1e-12, atol=1e-12)
    equal(obs['jvp'], un(d), 'forward derivative of unpacking')
    equal(obs['vjp'], low(M), 'reverse derivative of unpacking')
    for k in ('hvp', 'fwd'):
        close(obs[k], 2 * low(M) * d, 'second derivative through unpacking (%s)' % k, rtol=1e-13, atol=1e-13)
    S = np.array(case['S'])
    for r, row in enumerate(obs['rows']):
        equal(np.asarray(obs['svec'])[row], S[r], 'entries at the indices of simplex row %d' % r)
    need(obs['kept'], 'a helper changed its argument')
    return ['n%d' % n, 'lb' if case['lb'] else 'nolb']


PROP = Prop(
    'C02', ['ex_params'],
    [Sub('layout', case(), 'c02', judge, 7200, 96000,
         nontrivial=lambda c: ref.sizes(c['spec'])[1] >= 2),
     Sub('large', big_case(), 'c02', judge, 32, 640),
     Sub('helpers', helper_case(), 'c02_helpers', helper_judge, 960, 12800,
         nontrivial=lambda c: c['n'] > 1)],
    rule='Parameter specs (every type, nested dictionaries) with one or two arbitrary '
         'vectors set in turn; non-trivial = at least two vector entries. All comparisons exact. '
         'Matrix packing helpers on arrays of size one to five; non-trivial = size above one.',
    assumptions=['The documented layout as written in pbt/ref.py.'])
