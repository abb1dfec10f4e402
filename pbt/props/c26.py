import math
import numpy as np
from scipy.special import digamma, polygamma
from hypothesis import strategies as st

from pbt import gen, ref, jets
from pbt.core import Prop, Sub, need, close

KINDS = ['uvn', 'uvnvec', 'uvnarr', 'uvnmoment', 'mvn', 'mvn', 'gamma', 'gamma', 'wishart',
         'wishart', 'dirichlet', 'dirichlet']
ups = st.one_of(st.floats(-1.2, 1.2), st.floats(-1.2, 1.2), st.floats(-3.5, 3.5)).map(math.exp)
locs = st.one_of(gen.real(-2, 2), gen.real(-2, 2), gen.real(-12, 12))
low = st.sampled_from([0.0, 0.0, 0.1, 0.5, 2.0, 1e-5])


def size(s):
    return int(np.prod(s, dtype=int))


@st.composite
def matrix(draw, k, lb=0.0):
    L = np.tril(np.array(draw(gen.vec(k * k, gen.real(-1, 1)))).reshape(k, k), -1)
    L += np.diag(draw(gen.vec(k, st.floats(-0.7, 0.9).map(math.exp))))
    return L @ L.T + lb * np.eye(k)


def lower(m):
    return [float(m[i, j]) for i in range(len(m)) for j in range(i + 1)]


@st.composite
def factor(draw, name, kinds=KINDS, big=False):
    """(spec, vector encoding)"""
    t = draw(st.sampled_from(kinds))
    m = draw(low)
    up = lambda n, lb: [lb + v for v in draw(gen.vec(n, ups))]
    s = dict(t=t, name=name)
    if t == 'mvn':
        k = s['dim'] = draw(st.integers(4, 6) if big else st.integers(1, 3))
        s['min_info'] = m
        return s, draw(gen.vec(k, locs)) + lower(draw(matrix(k, m)))
    if t == 'gamma':
        s['min_shape'], s['min_rate'] = m, draw(low)
        return s, up(1, m) + up(1, s['min_rate'])
    if t == 'wishart':
        k = s['size'] = draw(st.sampled_from([4, 5] if big else [1, 2, 2, 3]))
        s['diag_lb'] = draw(st.sampled_from([0.0, 0.0, 0.2, 1e-6]))
        s['min_df'] = draw(st.sampled_from([None, k - 1.0, k + 0.5]))
        return s, up(1, s['min_df'] or k - 1) + lower(draw(matrix(k, s['diag_lb'])))
    if t == 'dirichlet':
        s['shape'] = draw(st.sampled_from([[7], [12], [5, 2], [2, 5], [6, 3]] if big else
                                          [[2], [3], [4], [2, 1], [2, 2], [2, 3], [3, 2], [3, 1], [2, 1, 2]]))
        s['min_alpha'] = m
        return s, up(size(s['shape']), m)
    if t == 'uvnvec':
        n = s['length'] = draw(st.integers(8, 15) if big else st.integers(1, 3))
    else:
        n = 1
        if t != 'uvn':
            s['shape'] = draw(st.sampled_from([[9], [3, 3], [2, 3, 2]] if big else
                                              [[1], [2], [3], [2, 2], [1, 2], [2, 1, 2]]))
            n = size(s['shape'])
    s['min_info'] = m
    e = draw(gen.vec(n, locs))
    if t == 'uvnmoment':
        return s, e + [max(a * a, m) + v for a, v in zip(e, draw(gen.vec(n, ups)))]
    return s, e + up(n, m)


def parts(spec, vec):
    out, o = [], 0
    for ch in ref.children(spec):
        k = ref.sizes(ch)[1]
        out.append(np.array(ref.vec_to_values(ch, vec[o:o + k]), float).reshape(
            ref.value_shape(ch)))
        o += k
    return out


def normal(spec, p):
    """means and variances of a factor of univariate normals"""
    a, b = np.ravel(p[0]), np.ravel(p[1])
    return a, (b - a * a if spec['t'] == 'uvnmoment' else 1 / b)


def family(spec, vec):
    """(natural parameters, moments, covariance of the statistics), entropy"""
    t, p = spec['t'], parts(spec, vec)
    if t == 'mvn':
        m, L = p
        k = len(m)
        V = np.linalg.inv(L)
        V = 0.5 * (V + V.T)
        lam = np.concatenate([L @ m, (-0.5 * L).ravel()])
        mom = np.concatenate([m, (np.outer(m, m) + V).ravel()])
        n = k + k * k
        C = np.zeros((n, n))
        C[:k, :k] = V
        for i in range(k):
            for j in range(k):
                r = k + i * k + j
                for a in range(k):
                    C[a, r] = C[r, a] = m[i] * V[a, j] + m[j] * V[a, i]
                    for b in range(k):
                        C[r, k + a * k + b] = (
                            V[i, a] * V[j, b] + V[i, b] * V[j, a] + m[i] * m[a] * V[j, b]
                            + m[i] * m[b] * V[j, a] + m[j] * m[a] * V[i, b] + m[j] * m[b] * V[i, a])
        H = 0.5 * np.linalg.slogdet(2 * math.pi * math.e * V)[1]
        return lam, mom, C, H
    if t == 'gamma':
        a, b = [float(x) for x in p]
        C = np.array([[a / b ** 2, 1 / b], [1 / b, polygamma(1, a)]])
        H = a - math.log(b) + math.lgamma(a) + (1 - a) * digamma(a)
        return np.array([-b, a - 1]), np.array([a / b, digamma(a) - math.log(b)]), C, H
    if t == 'wishart':
        n, V = float(p[0]), p[1]
        k = len(V)
        C = np.zeros((k * k + 1,) * 2)
        for i in range(k):
            for j in range(k):
                for a in range(k):
                    for b in range(k):
                        C[i * k + j, a * k + b] = n * (V[i, a] * V[j, b] + V[i, b] * V[j, a])
                C[-1, i * k + j] = C[i * k + j, -1] = 2 * V[i, j]
        ii = 0.5 * (n - np.arange(k))
        C[-1, -1] = polygamma(1, ii).sum()
        ld = np.linalg.slogdet(V)[1]
        eld = digamma(ii).sum() + k * math.log(2) + ld
        lam = np.append((-0.5 * np.linalg.inv(V)).ravel(), (n - k - 1) / 2)
        mom = np.append((n * V).ravel(), eld)
        logZ = 0.5 * n * (k * math.log(2) + ld) + 0.25 * k * (k - 1) * math.log(math.pi) + sum(
            math.lgamma(x) for x in ii)
        return lam, mom, C, logZ - lam @ mom
    if t == 'dirichlet':
        al = p[0].reshape(p[0].shape[0], -1)
        K, c = al.shape
        s = al.sum(0)
        mom = digamma(al) - digamma(s)
        C = np.zeros((K * c,) * 2)
        for j in range(c):
            ix = np.arange(K) * c + j
            C[np.ix_(ix, ix)] = np.diag(polygamma(1, al[:, j])) - polygamma(1, s[j])
        from scipy.special import gammaln
        logZ = gammaln(al).sum() - gammaln(s).sum()
        return (al - 1).ravel(), mom.ravel(), C, logZ - ((al - 1) * mom).sum()
    m, v = normal(spec, p)
    n = len(m)
    C = np.zeros((2 * n, 2 * n))
    i = np.arange(n)
    C[i, i] = v
    C[i, n + i] = C[n + i, i] = 2 * m * v
    C[n + i, n + i] = 4 * m * m * v + 2 * v * v
    return (np.concatenate([m / v, -0.5 / v]), np.concatenate([m, m * m + v]), C,
            0.5 * np.log(2 * math.pi * math.e * v).sum())


def gauss(A, b):
    """A^-1 and A^-1 b for a small matrix of numbers or series (A positive definite)"""
    n = len(A)
    W = [list(A[i]) + [1.0 if i == j else 0.0 for j in range(n)] + [b[i]] for i in range(n)]
    for i in range(n):
        for k in range(n):
            if k != i:
                f = W[k][i] / W[i][i]
                W[k] = [x - f * y for x, y in zip(W[k], W[i])]
        W[i] = [x / W[i][i] for x in W[i]]
    return [r[n:2 * n] for r in W], [r[-1] for r in W]


def from_natural(spec, lam):
    """vector encoding of the member of the family with these natural parameters"""
    t = spec['t']
    if t == 'mvn':
        k = spec['dim']
        q = lambda i, j: lam[k + i * k + j]
        L = [[-(q(i, j) + q(j, i)) for j in range(k)] for i in range(k)]
        _, m = gauss(L, lam[:k])
        return list(m) + [L[i][j] for i in range(k) for j in range(i + 1)]
    if t == 'gamma':
        return [lam[1] + 1.0, -lam[0]]
    if t == 'wishart':
        k = spec['size']
        q = lambda i, j: lam[i * k + j]
        A = [[-(q(i, j) + q(j, i)) for j in range(k)] for i in range(k)]
        V, _ = gauss(A, [0.0] * k)
        return [lam[-1] * 2.0 + (k + 1)] + [V[i][j] for i in range(k) for j in range(i + 1)]
    if t == 'dirichlet':
        return [x + 1.0 for x in lam]
    n = len(lam) // 2
    info = [-2.0 * x for x in lam[n:]]
    m = [a / b for a, b in zip(lam[:n], info)]
    if t == 'uvnmoment':
        return m + [a * a + 1.0 / b for a, b in zip(m, info)]
    return m + info


def pieces(case):
    out, o = [], 0
    for s in case['factors']:
        k = ref.sizes(s)[1]
        out.append((s, case['vec'][o:o + k]))
        o += k
    return out


def block(ms):
    n = sum(len(m) for m in ms)
    out, o = np.zeros((n, n)), 0
    for m in ms:
        out[o:o + len(m), o:o + len(m)] = m
        o += len(m)
    return out


def move(case, lam):
    out, o = [], 0
    for s, v in pieces(case):
        k = len(family(s, v)[0])
        out.append((s, from_natural(s, lam[o:o + k])))
        o += k
    return out


@st.composite
def case(draw):
    n = draw(st.sampled_from([1, 1, 2, 3]))
    names = draw(st.lists(st.sampled_from(gen.NAMES), min_size=n, max_size=n, unique=True))
    big = draw(st.integers(0, 7)) == 0
    fs = [draw(factor(a, big=big and a == names[0])) for a in names]
    c = dict(factors=[f[0] for f in fs], vec=[x for f in fs for x in f[1]],
             bare=n == 1 and draw(st.booleans()))
    fam = [family(s, v) for s, v in fs]
    lam = np.concatenate([f[0] for f in fam])
    c['lam'] = lam.tolist()
    N = c['n_moments'] = len(lam)
    c['row'] = draw(st.integers(0, N - 1))
    c['part'] = draw(st.booleans())
    c['afree'] = draw(st.booleans())
    nx = len(c['vec'])
    # (the installed autograd has no forward derivatives of matrix inverses or gamma functions)
    c['order'] = draw(st.sampled_from(
        [1] if nx > 8 or not elementary(c) else [1, 2, 2, 3] if nx <= 4 else [1, 2]))
    # shift the target's natural parameters, staying well inside the family
    d = np.array(draw(gen.vec(N, st.sampled_from([0.0, 0.1, -0.1, 0.25, -0.2]))))
    d = d * np.minimum(1.0, 0.5 * np.abs(lam) + 0.05)
    for _ in range(12):
        if inside(c, lam + d):
            break
        d = d / 2
    c['shift'] = d.tolist()
    k = draw(st.sampled_from([0, 0, 1, 2]))
    c['methods'] = [draw(st.sampled_from(['ncg', 'pre', 'bfgs'])) for _ in range(k)]
    c['starts'] = [draw(starts(c)) for _ in range(k)]
    return c


@st.composite
def starts(draw, c):
    """never a start that is the optimum already (scipy cannot search from there)"""
    x = draw(gen.vec(ref_free(c), st.sampled_from([0.0, 0.05, -0.1, 0.2])))
    if not any(x):
        x[draw(st.integers(0, len(x) - 1))] = 0.07
    return x


def elementary(c):
    return all(s['t'].startswith('uvn') for s in c['factors'])


def ref_free(c):
    return sum(ref.sizes(s)[0] for s in c['factors'])


def inside(c, lam):
    """is the whole segment up to twice this shift inside the family, away from its bounds?"""
    base = np.array(c['lam'])
    try:
        for f in (0.5, 1.0, 2.0, 3.0):
            for (s, v), (_, v0) in zip(move(c, list(base + f * (lam - base))), pieces(c)):
                x = np.array(ref.vec_to_free(s, v), float)
                x0 = np.array(ref.vec_to_free(s, v0), float)
                if not np.all(np.abs(x - x0) < 1.0):
                    return False
    except (ValueError, ZeroDivisionError, OverflowError):
        return False
    return True


def scaled(got, want, sd, what, tol=1e-7):
    close(got, want, what, rtol=0, atol=tol * np.outer(sd, sd) + 1e-300)


def judge(case, obs):
    ps = pieces(case)
    fam = [family(s, v) for s, v in ps]
    lam = np.array(case['lam'])
    mom = np.concatenate([f[1] for f in fam])
    C = block([f[2] for f in fam])
    H = sum(f[3] for f in fam)
    vec = np.array(case['vec'], float)
    free = np.array([x for s, v in ps for x in ref.vec_to_free(s, v)], float)
    close(obs['moments'], mom, 'moments', rtol=1e-9, atol=1e-11 * (1 + np.abs(mom).max()))
    tot = np.abs(lam * mom).sum() + abs(H)
    close(np.ravel(obs['value'])[0], -(lam @ mom) - H, 'minus the evidence bound at the optimum',
          rtol=1e-9, atol=1e-11 * (1 + tot))
    sd = np.sqrt(np.diag(C))
    big = 1e-9 * (1 + np.abs(lam).max()) * (1 + np.abs(mom).max())
    for k in ('free', 'vector'):
        close(obs['grad_' + k], np.zeros(len(obs['grad_' + k])), 'gradient at the exact optimum (%s)'
              % k, rtol=0, atol=big * 10)
        scaled(obs['cov_' + k], C, sd, 'linear response covariance (%s)' % k)
    Hf = np.asarray(obs['hess_free'], float)
    close(obs['hess_conv'], Hf, 'Hessian converted from the vector encoding', rtol=1e-8,
          atol=big * 10)
    close(obs['hvp'], obs['row'], 'Hessian times the solution of a linear response system',
          rtol=1e-7, atol=1e-8 * (1 + np.abs(obs['row']).max()))
    scaled(obs['cov_lin'], C, sd, 'derivative of the moments by the linear approximation')
    scaled(obs['cov_old'], C, sd, 'derivative of the moments by the older class')
    d = np.array(case['shift'])
    close(obs['old_lin'], mom + C @ d, 'linear prediction of the moments', rtol=1e-8,
          atol=1e-7 * sd * (1 + np.abs(sd * d).sum()) + 1e-10 * (1 + np.abs(mom).max()))
    # the path of optima as a power series
    K = case['order'] + 1
    ser = move(case, [jets.Series([a, b] + [0.0] * (K - 2)) for a, b in zip(lam, d)])
    want = []
    for s, v in ser:
        v = [x if isinstance(x, jets.Series) else jets.Series([x] + [0.0] * (K - 1)) for x in v]
        want += ref.vec_to_free(s, v) if case['afree'] else v
    want = np.array([w.c for w in want])
    base = free if case['afree'] else vec
    tol = 1e-7 * (1 + np.abs(want).max())
    for k in range(1, K):
        close(obs['taylor'][k - 1], want[:, k] * math.factorial(k), 'derivative %d of the optimum' % k,
              rtol=1e-6, atol=tol * math.factorial(k))
    close(obs['series'], base + want[:, 1:].sum(1), 'Taylor prediction of the optimum', rtol=1e-7,
          atol=tol)
    close(obs['lin'], base + want[:, 1], 'linear prediction of the optimum', rtol=1e-7, atol=tol)
    new = move(case, list(lam + d))
    nv = np.array([x for _, v in new for x in v], float)
    labels = sorted(set(s['t'] for s in case['factors'])) + ['order%d' % case['order']]
    for m, o in zip(case['methods'], obs['opt']):
        if o['ok']:
            labels.append('reached:' + m)
            fm = np.concatenate([family(s, v)[1] for s, v in new])
            close(o['moments'], fm, 'moments where %s stopped' % m, rtol=1e-4,
                  atol=1e-4 * (1 + np.abs(fm)) + 1e-4 * sd)
        else:
            labels.append('not reached:' + m)
    return labels


# ---------------------------------------------------------- correlated target
@st.composite
def mf_case(draw):
    n = draw(st.sampled_from([1, 1, 2, 3]))
    names = draw(st.lists(st.sampled_from(gen.NAMES), min_size=n, max_size=n, unique=True))
    big = draw(st.integers(0, 7)) == 0
    fs = [draw(factor(a, ['uvn', 'uvnvec', 'uvnarr', 'mvn'], big and a == names[0])) for a in names]
    dims = []
    for s, v in fs:
        dims.append(s['dim'] if s['t'] == 'mvn' else len(v) // 2)
    N = sum(dims)
    m = draw(gen.vec(N, locs))
    floor = max(s['min_info'] for s, _ in fs)
    Lam = draw(matrix(N)) + floor * np.eye(N)
    Lam = 0.5 * (Lam + Lam.T)
    vec, o = [], 0
    for (s, _), k in zip(fs, dims):
        B = Lam[o:o + k, o:o + k]
        vec += m[o:o + k] + (lower(B) if s['t'] == 'mvn' else np.diag(B).tolist())
        o += k
    c = dict(factors=[f[0] for f in fs], vec=vec, bare=n == 1 and draw(st.booleans()),
             Lam=Lam.tolist(), mean=m, n_moments=1, lam=[0.0])
    c['shift'] = draw(gen.vec(N, st.sampled_from([0.0, 0.5, -1.0, 0.25])))
    c['order'] = 2 if elementary(c) else 1
    c['search'] = draw(st.integers(0, 3)) == 0
    c['start'] = draw(starts(c))
    return c


def judge_mf(case, obs):
    Lam, m = np.array(case['Lam']), np.array(case['mean'])
    S = np.linalg.inv(Lam)
    S = 0.5 * (S + S.T)
    sd = np.sqrt(np.diag(S))
    close(obs['grad'], np.zeros(len(obs['grad'])), 'gradient at the exact optimum', rtol=0,
          atol=1e-9 * (1 + np.abs(Lam).max()) * (1 + np.abs(m).max()))
    scaled(obs['cov'], S, sd, 'linear response covariance of the means')
    scaled(obs['cov_lin'], S, sd, 'derivative of the means by the linear approximation')
    d = np.array(case['shift'])
    tol = 1e-7 * (1 + np.abs(m).max() + np.abs(S).max() * np.abs(d).sum())
    close(obs['moved'], m + S @ d, 'means after a linear shift', rtol=1e-8, atol=tol)
    want = np.array(case['vec'], float)
    o = k = 0
    for s in case['factors']:
        nm = s['dim'] if s['t'] == 'mvn' else size(s.get('shape', [s.get('length', 1)]))
        want[o:o + nm] = (m + S @ d)[k:k + nm]
        o += ref.sizes(s)[1]
        k += nm
    close(obs['moved_vec'], want, 'approximation after a linear shift', rtol=1e-7,
          atol=tol * (1 + np.abs(Lam).max()))
    for t in obs['taylor'][1:]:
        close(t, np.zeros(len(t)), 'second derivative of the optimum', rtol=0,
              atol=1e-6 * (1 + np.abs(d).max() ** 2))
    labels = sorted(set(s['t'] for s in case['factors']))
    if 'opt' in obs and obs['opt']['ok']:
        labels.append('reached')
        close(obs['opt']['vec'], np.array(case['vec'], float), 'where the search stopped', rtol=1e-4,
              atol=1e-5 * (1 + np.abs(Lam).max()))
    return labels


def off_diagonal(c):
    L = np.array(c['Lam'])
    return np.abs(L - np.diag(np.diag(L))).max() > 1e-3


PROP = Prop(
    'C26', ['ex_lr'],
    [Sub('conjugate', case(), 'lr', judge, 160, 3200, nontrivial=lambda c: len(c['vec']) > 2),
     Sub('meanfield', mf_case(), 'lr_mf', judge_mf, 160, 3200, nontrivial=off_diagonal)],
    rule='Products of one to three of the library\'s distributions fitted to a target of the same '
         'family (closed-form optimum, covariance of the sufficient statistics and path of optima), '
         'and factorised normals fitted to a correlated normal. Non-trivial = more than two '
         'parameters; a correlated target.')
