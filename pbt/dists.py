"""Exact values for the exponential-family functions, by mpmath at high
precision, with the size of the sums involved (for absolute tolerances)."""
import functools
import itertools
import mpmath as mp
import numpy as np

mp.mp.dps = 46


def M(x):
    return mp.mpf(float(x)) if not isinstance(x, mp.mpf) else x


lg, log, pi = mp.loggamma, mp.log, mp.pi


def psi(n, x):
    return mp.digamma(x)


class Val(object):
    """value with the sum of the magnitudes that went into it"""
    __slots__ = ('v', 's')

    def __init__(self, *terms):
        self.v = mp.fsum(terms)
        self.s = mp.fsum(abs(t) for t in terms)


def mats(A):
    n = len(A)
    return mp.matrix([[M(A[i][j]) for j in range(n)] for i in range(n)])


def mvlgamma(x, k):
    return [lg(x - mp.mpf(j) / 2) for j in range(k)] + [log(pi) * k * (k - 1) / 4]


def mvdigamma(x, k):
    return [psi(0, x - mp.mpf(j) / 2) for j in range(k)]


# Each entry: arguments (numpy arrays of mpf or floats) -> nested Val results.
def uvn_entropy(info):
    return Val(*[t for i in info.ravel() for t in (-log(i) / 2, mp.mpf(1) / 2, log(2 * pi) / 2)])


def mvn_entropy(info):
    k = len(info)
    return Val(-log(mp.det(mats(info))) / 2, mp.mpf(k) / 2, k * log(2 * pi) / 2)


def gamma_entropy(shape, rate):
    out = []
    shape, rate = np.broadcast_arrays(np.asarray(shape, dtype=object),
                                      np.asarray(rate, dtype=object))
    for a, b in zip(shape.ravel(), rate.ravel()):
        out += [a, -log(b), lg(a), psi(0, a), -a * psi(0, a)]
    return Val(*out)


def beta_entropy(tau):
    out = []
    for a, b in tau:
        out += [lg(a), lg(b), -lg(a + b), psi(0, a), -a * psi(0, a), psi(0, b), -b * psi(0, b),
                (a + b - 2) * psi(0, a + b)]
    return Val(*out)


def over_axis0(f):
    def g(alpha):
        shape = alpha.shape[1:]
        out = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            out[ix] = f([alpha[(k,) + ix] for k in range(alpha.shape[0])])
        return out
    return g


def dir_entropy1(al):
    a0 = mp.fsum(al)
    return Val(*([lg(a) for a in al] + [-lg(a0), (a0 - len(al)) * psi(0, a0)]
                 + [psi(0, a) for a in al] + [-a * psi(0, a) for a in al]))


dirichlet_entropy = over_axis0(dir_entropy1)


def wishart_entropy(df, v):
    k = len(v)
    df = M(df)
    ld = log(mp.det(mats(v)))
    return Val(*([ld * (k + 1) / 2, log(2) * k * (k + 1) / 2, df * k / 2]
                 + mvlgamma(df / 2, k)
                 + [-(df - k - 1) / 2 * d for d in mvdigamma(df / 2, k)]))


def multinoulli_entropy(p):
    return np.array([Val(*[-x * log(x) if x > 0 else mp.mpf(0) for x in row]) for row in p],
                    dtype=object)


def e_log_det_wishart(df, v):
    k = len(v)
    return Val(*(mvdigamma(M(df) / 2, k) + [log(2) * k, log(mp.det(mats(v)))]))


def e_log_inv_wishart_diag(df, v):
    k = len(v)
    inv = mp.inverse(mats(v))
    return np.array([Val(log(inv[i, i]), -psi(0, (M(df) - k + 1) / 2), -log(2))
                     for i in range(k)], dtype=object)


def elementwise(f):
    def g(*args):
        args = np.broadcast_arrays(*[np.asarray(a, dtype=object) for a in args])
        out = np.empty(args[0].shape, dtype=object)
        for ix in np.ndindex(*out.shape):
            out[ix] = f(*[a[ix] for a in args])
        return out
    return g


e_lognormal = elementwise(lambda m, s: Val(mp.exp(m + s / 2)))
var_lognormal = elementwise(lambda m, s: Val(mp.expm1(s) * mp.exp(2 * m + s)))
e_log_gamma = elementwise(lambda a, b: Val(psi(0, a), -log(b)))

uvn_log_prob = elementwise(lambda u, m, i: Val(-i * (u - m) ** 2 / 2, log(i) / 2, -log(2 * pi) / 2))


def e_dirichlet(alpha):
    tot = alpha.sum(axis=0)
    return elementwise(lambda a, t: Val(a / t))(alpha, np.broadcast_to(tot, alpha.shape))


def e_log_dirichlet(alpha):
    tot = alpha.sum(axis=0)
    return elementwise(lambda a, t: Val(psi(0, a), -psi(0, t)))(
        alpha, np.broadcast_to(tot, alpha.shape))


def mv_digamma(x, k):
    return Val(*mvdigamma(M(x), int(k)))


def mv_gammaln(x, k):
    return Val(*mvlgamma(M(x), int(k)))


def expected_lkj(lkj, df, v):
    a = e_log_det_wishart(df, v)
    b = e_log_inv_wishart_diag(df, v)
    l = M(lkj) - 1
    r = Val(*([-l * a.v] + [-l * x.v for x in b]))
    r.s = abs(l) * (a.s + mp.fsum(x.s for x in b))
    return r


def obj(a):
    """numpy object array of mpf from a float array"""
    a = np.asarray(a, dtype=float)
    out = np.empty(a.shape, dtype=object)
    for ix in np.ndindex(*a.shape):
        out[ix] = mp.mpf(float(a[ix]))
    return out


def total(res, w):
    """w . value, in high precision"""
    if isinstance(res, Val):
        return M(np.ravel(w)[0]) * res.v
    return mp.fsum(M(a) * b.v for a, b in zip(np.ravel(w), np.ravel(res)))


def floats(res):
    if isinstance(res, Val):
        return np.array(float(res.v)), np.array(float(res.s))
    res = np.asarray(res, dtype=object)
    v = np.array([float(r.v) for r in res.ravel()]).reshape(res.shape)
    s = np.array([float(r.s) for r in res.ravel()]).reshape(res.shape)
    return v, s


def directional(f, args, i, d, w):
    """derivative of w . f along d in argument i, by a high-precision
    central difference"""
    near = [abs(x) for x in np.ravel(np.asarray(args[i], dtype=object)) if x != 0]
    h = mp.mpf(10) ** -16 * min([max(M(x), mp.mpf(10) ** -8) for x in near] + [mp.mpf(1)])
    out = []
    for sgn in (1, -1):
        a = list(args)
        if not isinstance(a[i], np.ndarray):
            a[i] = M(a[i]) + sgn * h * M(float(np.ravel(d)[0]))
        else:
            moved = np.empty(a[i].shape, dtype=object)
            for ix, x in zip(np.ndindex(*moved.shape), np.ravel(d)):
                moved[ix] = a[i][ix] + sgn * h * M(float(x))
            a[i] = moved
        out.append(total(f(*a), w))
    return float((out[0] - out[1]) / (2 * h))
