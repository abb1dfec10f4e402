import math
import numpy as np
from scipy import special
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Prop, Sub, need, close, check_shape
from pbt.props.c15 import size, np_arg


@st.composite
def shaped(draw, elem, lo=0, hi=3):
    s = draw(st.lists(st.integers(1, 3), min_size=lo, max_size=hi))
    return dict(a=draw(gen.vec(size(s), elem)), s=s)


@st.composite
def poly_case(draw):
    deg = draw(st.one_of(st.integers(1, 8), st.integers(1, 8), st.sampled_from([12, 16, 17, 20, 24, 25, 32, 40])))
    m = draw(shaped(gen.real(-3, 3)))
    i = dict(a=draw(gen.vec(len(m['a']), st.one_of(
        st.sampled_from([1.0, 4.0, 0.25]), st.floats(0.1, 20.0)))), s=m['s'])
    n = draw(st.integers(1, 2 * deg))
    return dict(deg=deg, means=m, infos=i,
                coefs=draw(gen.vec(n, st.sampled_from([0.0, 1.0, -1.0, 0.5, 2.0]))))


def moments(mean, var, n):
    """raw moments 0..n of N(mean, var), and of |.|-bounds"""
    out = [np.ones_like(mean), mean]
    for k in range(2, n + 1):
        out.append(mean * out[k - 1] + (k - 1) * var * out[k - 2])
    return out


def judge_poly(case, obs):
    m, i = np_arg(case['means']), np_arg(case['infos'])
    var = 1.0 / i
    c = case['coefs']
    E = moments(m, var, len(c) + 1)
    # the sums over the nodes, with every sign positive
    x, gw = np.polynomial.hermite.hermgauss(case['deg'])
    gw = gw / math.sqrt(math.pi)
    dz = math.sqrt(2) * np.abs(x) / np.sqrt(i)[..., None]
    z = dz + np.abs(m)[..., None]
    A = lambda f: (gw * sum(abs(a) * f(k) for k, a in enumerate(c))).sum(axis=-1)
    want = sum(a * e for a, e in zip(c, E))
    scale = A(lambda k: z ** k)
    close(obs['value'], want, 'expectation of a polynomial', rtol=1e-10, atol=1e-11 * scale)
    d1 = sum(k * a * E[k - 1] for k, a in enumerate(c) if k) + 0 * m
    d2 = sum(k * (k - 1) * a * E[k - 2] for k, a in enumerate(c) if k > 1) + 0 * m
    sc1 = A(lambda k: k * z ** max(k - 1, 0))
    sc2 = A(lambda k: k * z ** max(k - 1, 0) * 0.5 * dz) / i
    close(obs['grads'][0], d1, 'derivative in the means', rtol=1e-10, atol=1e-11 * sc1 + 1e-300)
    close(obs['grads'][1], -0.5 * var ** 2 * d2, 'derivative in the precisions', rtol=1e-10,
          atol=1e-11 * sc2 + 1e-300)
    return ['deg%d' % case['deg'], 'full' if len(c) == 2 * case['deg'] else 'partial']


extreme = st.one_of(gen.real(-4, 4), gen.real(-60, 60),
                    st.sampled_from([-800.0, 800.0, -105.0, -95.0, -1e5, 1e5, 36.0, -740.0, 712.0]),
                    st.floats(-1e4, 1e4))


@st.composite
def logit_case(draw):
    m = draw(shaped(extreme, lo=0))
    i = dict(a=draw(gen.vec(len(m['a']), st.one_of(
        st.sampled_from([1.0, 4.0, 0.01]), st.floats(-5.0, 6.0).map(math.exp)))), s=m['s'])
    w = dict(a=draw(gen.vec(len(m['a']), st.sampled_from([1.0, 2.0, -0.5]))), s=m['s'])
    al = draw(st.one_of(st.sampled_from([1.0, 2.0, 0.5]), st.floats(0.1, 9.0)))
    if draw(st.booleans()):
        al = dict(a=draw(gen.vec(len(m['a']), st.sampled_from([1.0, 2.0, 0.5, 3.0]))), s=m['s'])
    return dict(deg=draw(st.sampled_from([1, 2, 4, 8, 8, 20])), means=m, infos=i, w=w, alpha=al,
                whole=draw(st.booleans()))


def judge_logit(case, obs):
    m, i, c = np_arg(case['means']), np_arg(case['infos']), np_arg(case['w'])
    al = np_arg(case['alpha'])
    x = np.asarray(obs['x'], float)
    gw = np.asarray(obs['gw'], float) / math.sqrt(math.pi)
    z = math.sqrt(2) * x / np.sqrt(i)[..., None] + m[..., None]
    zi = -0.5 * math.sqrt(2) * x * (i ** -1.5)[..., None]
    E = lambda f: (gw * f).sum(axis=-1)
    big = 1e-12 * (1 + np.abs(m) + 10 / np.sqrt(i))
    l, l1 = -np.logaddexp(0, -z), -np.logaddexp(0, z)
    close(obs['e'], E(special.expit(z)), 'E expit', rtol=1e-10, atol=1e-13)
    close(obs['log'][0], E(l), 'E log expit', rtol=1e-10, atol=big)
    close(obs['log'][1], E(l1), 'E log (1 - expit)', rtol=1e-10, atol=big)
    close(obs['dp'], (al - 1) * E(l1), 'expected DP prior', rtol=1e-10, atol=big * (1 + np.abs(al)))
    need(np.all(np.asarray(obs['e'], float) >= 0) and np.all(np.asarray(obs['e'], float) <= 1 + 1e-12),
         'E expit outside [0, 1]')
    s, s1 = special.expit(z), special.expit(-z)
    slopes = [s * s1, s1, -s]
    ws = [c, c, c, c * (al - 1)]
    slopes.append(-s)
    for name, sl, w, (gm, gi) in zip(['expit', 'log', 'log complement', 'DP prior'], slopes, ws,
                                     obs['grads']):
        at = 1e-11 * (1 + np.abs(w))
        close(gm, w * E(sl), 'derivative of E %s in the means' % name, rtol=1e-9, atol=at)
        close(gi, w * E(sl * zi), 'derivative of E %s in the precisions' % name, rtol=1e-9,
              atol=at * (1 + i ** -1.5))
    return ['extreme' if np.abs(m).max() > 60 else 'ordinary']


@st.composite
def logistic_case(draw):
    m = draw(shaped(extreme, lo=1))
    n = len(m['a'])
    s = dict(a=draw(gen.vec(n, st.one_of(st.sampled_from([1.0, 0.5, 0.0]), st.floats(0.01, 5.0)))),
             s=m['s'])
    y = dict(a=draw(gen.vec(n, st.sampled_from([0.0, 1.0, 1.0, 0.3]))), s=m['s'])
    return dict(whole=draw(st.booleans()), means=m, sds=s, y=y, deg=draw(st.sampled_from([1, 3, 8, 20])),
                ndraws=draw(st.sampled_from([1, 2, 3, 5, 10, 50])))


def judge_logistic(case, obs):
    m, s, y = np_arg(case['means']), np_arg(case['sds']), np_arg(case['y'])
    n = case['ndraws']
    q = special.ndtri(np.arange(1, n + 1) / (n + 1.0))
    draws = np.asarray(obs['draws'], float)
    close(draws, q, 'standard draws', rtol=1e-9, atol=1e-10)
    z = s[..., None] * q + m[..., None]
    sp = np.logaddexp(0, z)
    big = (np.abs(m) + s * 10 + 1).sum()
    close(obs['term'], np.array((y * m).sum() - sp.mean(axis=-1).sum()), 'logistic term', rtol=1e-9,
          atol=1e-11 * big)
    x, gw = np.asarray(obs['x'], float), np.asarray(obs['gw'], float) / math.sqrt(math.pi)
    zg = math.sqrt(2) * s[..., None] * x + m[..., None]
    each = (gw * np.logaddexp(0, zg)).sum(axis=-1)
    close(obs['gh_each'], each, 'Gauss-Hermite logistic term', rtol=1e-10, atol=1e-12 * (1 + np.abs(m)))
    close(obs['gh'], np.array(each.sum()), 'summed Gauss-Hermite logistic term', rtol=1e-10,
          atol=1e-12 * big)
    # against the exact expectation
    if case['deg'] >= 20 and s.max() <= 1:
        X, W = np.polynomial.hermite.hermgauss(120)
        ex = (W / math.sqrt(math.pi) * np.logaddexp(
            0, math.sqrt(2) * s[..., None] * X + m[..., None])).sum(axis=-1)
        close(obs['gh_each'], ex, 'exact logistic expectation', rtol=1e-6, atol=1e-5)
    e = special.expit
    close(obs['grads'][0], y - e(z).mean(axis=-1), 'derivative in the means', rtol=1e-8, atol=1e-10)
    close(obs['grads'][1], -(e(z) * q).mean(axis=-1), 'derivative in the standard deviations',
          rtol=1e-8, atol=1e-9)
    close(obs['gh_grads'][0], (gw * e(zg)).sum(axis=-1), 'Gauss-Hermite derivative in the means',
          rtol=1e-9, atol=1e-11)
    close(obs['gh_grads'][1], (gw * e(zg) * math.sqrt(2) * x).sum(axis=-1),
          'Gauss-Hermite derivative in the standard deviations', rtol=1e-9, atol=1e-10)
    return ['extreme' if np.abs(m).max() > 60 else 'ordinary']


PROP = Prop(
    'C17', ['ex_dist'],
    [Sub('polynomial', poly_case(), 'c17_poly', judge_poly, 960, 12000,
         nontrivial=lambda c: any(c['coefs'][1:])),
     Sub('logit', logit_case(), 'c17_logit', judge_logit, 960, 12000),
     Sub('logistic', logistic_case(), 'c17_logistic', judge_logistic, 960, 12000)],
    rule='Polynomials up to the degree of the rule against exact moments; logit-normal and logistic '
         'terms with ordinary and extreme means against stable sums over the same nodes, with their '
         'derivatives. Non-trivial = a non-constant polynomial; every logit case.',
    assumptions=['Nodes from numpy.polynomial.hermite.hermgauss.'])
