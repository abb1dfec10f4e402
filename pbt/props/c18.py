import math
import numpy as np
import scipy.stats as S
from hypothesis import strategies as st

from pbt import gen, dists
from pbt.core import Prop, Sub, need, close
from pbt.props.c15 import pos, spd, size, np_arg

mild = st.one_of(st.floats(-2.5, 2.5), st.floats(-2.5, 2.5), st.floats(-12.0, 12.0)).map(math.exp)
A = lambda v: dict(a=np.ravel(v).tolist(), s=list(np.shape(v)))


@st.composite
def weights(draw, n):
    w = np.array(draw(gen.vec(n, st.sampled_from([1.0, 2.0, 3.0, 0.5]))))
    return (w / w.sum()).tolist()


@st.composite
def case(draw):
    k = draw(st.sampled_from(['mvn', 'mvn', 'uvn', 'gamma', 'exponential', 'dirichlet']))
    c = dict(k=k)
    dim = 1
    if k == 'mvn':
        dim = draw(st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(6, 9)))
        c['prior'] = [draw(gen.vec(dim, gen.nice)), draw(spd(dim, -1, 1))]
        elem = gen.real(-3, 3)
    elif k == 'dirichlet':
        dim = draw(st.one_of(st.integers(2, 6), st.integers(2, 6), st.integers(7, 14)))
        c['prior'] = [draw(gen.vec(dim, st.one_of(mild, mild, st.sampled_from(
            [1.0, 1.0005, 0.9999, 1 + 1e-5, 2.0]))))]
        elem = mild
    else:
        # a batch of univariate variables
        c['shape'] = draw(st.lists(st.integers(1, 3), max_size=2))
        if draw(st.integers(0, 9)) == 0:
            c['shape'] = [draw(st.integers(4, 11))]
        dim = size(c['shape'])
        if k == 'uvn':
            kinds, elem = [gen.nice, mild], gen.real(-3, 3)
        else:
            kinds, elem = [mild] * (2 if k == 'gamma' else 1), mild
        # prior parameters: one for all variables, one each, or broadcast over the batch
        c['prior'] = []
        for e in kinds:
            s = [d if draw(st.booleans()) else 1 for d in c['shape']]
            s = draw(st.sampled_from([[], [], c['shape'], c['shape'], s, c['shape'][1:]]))
            c['prior'].append(dict(a=draw(gen.vec(size(s), e)), s=s))
    # normal variables far from zero
    far = draw(st.sampled_from([0.0, 0.0, 0.0, 2.0 ** 20, -2.0 ** 26, 2.0 ** 30])) if k in ('mvn', 'uvn') else 0.0
    c['far'] = far
    if far:
        m = c['prior'][0]
        c['prior'][0] = dict(m, a=[x + far for x in m['a']]) if k == 'uvn' else [x + far for x in m]
        elem = elem.map(lambda x: x + far)
    c['dists'] = []
    for _ in range(2):
        n = draw(st.integers(1, 4))
        c['dists'].append([draw(weights(n)), [draw(gen.vec(dim, elem)) for _ in range(n)]])
    c['mix'] = draw(st.sampled_from([0.5, 0.25, 0.9]))
    P, Q = c['dists']
    a = c['mix']
    mixed = [[a * w for w in P[0]] + [(1 - a) * w for w in Q[0]], P[1] + Q[1]]
    c['all'] = [P, Q, mixed]
    # arrays of whole numbers given as integers
    c['whole'] = draw(st.booleans())
    c['calls'] = [call(c, d) for d in c['all']]
    return c


def prior_args(c):
    return [np.array(p['a']).reshape(p['s']) for p in c['prior']]


def call(c, d):
    w, x = np.array(d[0]), np.array(d[1])
    k = c['k']
    if k == 'mvn':
        e = w @ x
        cov = (x - e).T @ ((x - e) * w[:, None])
        return dict(mod='ef', fun='mvn_prior', args=[A(c['prior'][0]), c['prior'][1], A(e), A(cov)])
    if k == 'dirichlet':
        x = x / x.sum(axis=1, keepdims=True)
        return dict(mod='ef', fun='dirichlet_prior', args=[A(c['prior'][0]), A(w @ np.log(x))])
    J = lambda v: A(v) if np.ndim(v) else float(v)
    pr = [J(p) for p in prior_args(c)]
    sh = c['shape']
    e = (w @ x).reshape(sh)
    if k == 'uvn':
        v = (w @ (x - w @ x) ** 2).reshape(sh)
        return dict(mod='ef', fun='uvn_prior', args=pr + [J(e), J(v)])
    if k == 'gamma':
        return dict(mod='ef', fun='gamma_prior', args=pr + [J(e), J((w @ np.log(x)).reshape(sh))])
    return dict(mod='ef', fun='exponential_prior', args=pr + [J(e)])


def exact(c, d):
    w, x = np.array(d[0]), np.array(d[1])
    k = c['k']
    if k == 'mvn':
        cov = np.linalg.inv(np_arg(c['prior'][1]))
        lp = np.array([S.multivariate_normal.logpdf(xi, c['prior'][0], 0.5 * (cov + cov.T),
                                                    allow_singular=True) for xi in x])
        return np.array(w @ lp)
    if k == 'dirichlet':
        x = x / x.sum(axis=1, keepdims=True)
        al = np.array(c['prior'][0])
        return np.array(w @ np.array([S.dirichlet.logpdf(xi / xi.sum(), al) for xi in x]))
    pr = [np.broadcast_to(p, c['shape']).ravel() for p in prior_args(c)]
    if k == 'uvn':
        lp = S.norm.logpdf(x, pr[0], 1 / np.sqrt(pr[1]))
    elif k == 'gamma':
        lp = S.gamma.logpdf(x, pr[0], scale=1 / pr[1])
    else:
        lp = S.expon.logpdf(x, scale=1 / pr[0])
    return (w @ lp).reshape(c['shape'])


def judge(case, obs):
    v = [np.asarray(x, float) for x in obs['values']]
    ex = [exact(case, d) for d in case['all']]
    scale = 1 + max(np.abs(e).max() for e in ex)
    if case['k'] == 'mvn':
        scale *= 1 + np.linalg.cond(np_arg(case['prior'][1])) * 1e-3
    if case['far']:
        # the mean handed over is rounded
        p = np_arg(case['prior'][1])
        scale += 1e-5 * abs(case['far']) * np.abs(p).max() * len(p.ravel())
    for got in v:
        need(np.all(np.isfinite(got)), '%s prior is not finite', case['k'])
    close(v[0] - v[1], ex[0] - ex[1], 'difference of the %s prior between two distributions'
          % case['k'], rtol=1e-9, atol=1e-10 * scale)
    close(v[2] - v[1], ex[2] - ex[1], 'difference of the %s prior, mixture' % case['k'], rtol=1e-9,
          atol=1e-10 * scale)
    if case['k'] != 'uvn' and case['k'] != 'mvn':
        a = case['mix']
        close(v[2], a * v[0] + (1 - a) * v[1], '%s prior of a mixture' % case['k'], rtol=1e-9,
              atol=1e-10 * scale)
    return [case['k']]


# ------------------------------------------------------------------- LKJ
@st.composite
def lkj_case(draw):
    k = draw(st.integers(1, 4))
    df = k - 1 + draw(st.one_of(st.sampled_from([1.0, 2.0, 0.5]), st.floats(0.1, 30.0)))
    v = draw(spd(k, -1, 1))
    d = draw(gen.vec(k, mild))
    D = np.diag(d)
    lkj = draw(st.sampled_from([1.0, 2.0, 0.5, 5.5, 1.25]))
    m = np_arg(v)
    c = lambda l, w: dict(mod='ef', fun='expected_ljk_prior', args=[l, df, A(w)])
    return dict(k=k, df=df, v=v, d=d, lkj=lkj,
                calls=[c(lkj, m), c(lkj, D @ m @ D), c(2.0, m), c(1.0, m), c(lkj, D @ D)])


def judge_lkj(case, obs):
    v = np_arg(case['v'])
    df, k = case['df'], case['k']
    got = [np.asarray(x, float) for x in obs['values']]
    w, s = dists.floats(dists.expected_lkj(case['lkj'], df, dists.obj(v)))
    at = 1e-12 * s + 1e-13 * np.linalg.cond(v)
    close(got[0], w, 'expected LKJ prior', rtol=1e-10, atol=at)
    far = np.linalg.cond(np.diag(case['d']) @ v @ np.diag(case['d']))
    close(got[1], got[0], 'LKJ prior after rescaling the variables', rtol=1e-9,
          atol=at + 1e-11 * (1 + s) + 1e-13 * far)
    close(got[0], (case['lkj'] - 1) * got[2], 'LKJ prior against its parameter', rtol=1e-10, atol=at)
    close(got[3], np.array(0.0), 'LKJ prior at parameter one', rtol=0, atol=1e-12)
    # independent variables: a sum of log beta expectations
    from scipy.special import digamma
    r = sum(digamma((df - k + 1) / 2) - digamma((df - j) / 2) for j in range(k))
    close(got[4], np.array((case['lkj'] - 1) * r), 'LKJ prior of independent variables', rtol=1e-9,
          atol=1e-11 * (1 + s) + 1e-13 * np.linalg.cond(np.diag(case['d']) ** 2))
    return ['dim%d' % k]


PROP = Prop(
    'C18', ['ex_dist'],
    [Sub('moments', case(), 'calls', judge, 1920, 19200,
         nontrivial=lambda c: any(len(d[0]) > 1 for d in c['dists'])),
     Sub('lkj', lkj_case(), 'calls', judge_lkj, 960, 9600, nontrivial=lambda c: c['k'] > 1)],
    rule='A prior and pairs of discrete distributions (one to four weighted points) and their '
         'mixture: the moments go to the library, the oracle averages the scipy.stats log density '
         'over the points. Non-trivial = more than one point. LKJ: Wishart parameters, dimension '
         'above one.')
