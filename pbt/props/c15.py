import math
import warnings
import numpy as np
import scipy.stats
from scipy import integrate, special
from hypothesis import strategies as st

from pbt import gen, dists
from pbt.core import Prop, Sub, need, close, check_shape

pos = st.one_of(st.sampled_from([1.0, 2.0, 0.5, 10.0, 1.5, 3.0]),
                st.floats(-3.5, 5.0).map(math.exp), st.floats(-3.5, 5.0).map(math.exp),
                st.floats(-18.0, 18.0).map(math.exp))
# all the entries of one array in the same range
scales = st.sampled_from([pos, pos, pos, pos, st.floats(6.0, 18.0).map(math.exp),
                          st.floats(-18.0, -6.0).map(math.exp)])
signs = st.sampled_from([1.0, -1.0, 0.5, 2.0])


def size(shape):
    n = 1
    for k in shape:
        n *= k
    return n


@st.composite
def array(draw, elem, lo=0, hi=3):
    shape = draw(st.lists(st.integers(1, 3), min_size=lo, max_size=hi))
    if shape and draw(st.integers(0, 9)) == 0:
        shape = [draw(st.integers(4, 14))] + shape[1:2]
    return dict(a=draw(gen.vec(size(shape), elem)), s=shape)


def like(draw, a, elem):
    return dict(a=draw(gen.vec(len(a['a']), elem)), s=a['s'])


@st.composite
def spd(draw, k, lo=-1.5, hi=1.5):
    L = np.tril(np.array(draw(gen.vec(k * k, gen.real(-1.5, 1.5)))).reshape(k, k), -1)
    d = [math.exp(x) for x in draw(gen.vec(k, gen.real(lo, hi)))]
    L = L + np.diag(d)
    A = L @ L.T
    return dict(a=(0.5 * (A + A.T)).ravel().tolist(), s=[k, k])


@st.composite
def scaled_spd(draw):
    """Some with determinants out of range."""
    k = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 6, 9]))
    v = draw(spd(k))
    c = draw(st.sampled_from([1.0] * 6 + [1e-90, 1e90, 1e-150, 1e120]))
    return dict(v, a=[c * x for x in v['a']])


BROADCASTS = ('gamma_entropy', 'get_e_log_gamma', 'get_e_lognormal', 'get_var_lognormal',
              'get_uvn_from_natural_parameters', 'univariate_normal_log_prob')


def thin(draw, args):
    """Replace some array arguments by ones that broadcast against the others."""
    s = args[0]['s']
    keep = draw(st.integers(0, len(args) - 1))
    out = []
    for i, a in enumerate(args):
        how = 'full' if i == keep else draw(st.sampled_from(['full', 'scalar', 'last', 'ones']))
        if how == 'scalar':
            a = a['a'][0]
        elif how == 'last':
            a = dict(a=a['a'][:s[-1]], s=s[-1:])
        elif how == 'ones':
            t = [1 if draw(st.booleans()) else k for k in s]
            a = dict(a=a['a'][:size(t)], s=t)
        out.append(a)
    return out


@st.composite
def case(draw):
    pos_ = lambda: draw(scales)
    f = draw(st.sampled_from(sorted(FUNS)))
    if f == 'univariate_normal_entropy':
        a = draw(array(pos_()))
        args = [a if a['s'] or draw(st.booleans()) else a['a'][0]]
    elif f == 'multivariate_normal_entropy':
        args = [draw(scaled_spd())]
    elif f in ('gamma_entropy', 'get_e_log_gamma'):
        a = draw(array(pos_()))
        args = [a, like(draw, a, pos_())]
        if not a['s']:
            args = [x['a'][0] for x in args]
    elif f == 'beta_entropy':
        n = draw(st.sampled_from([1, 2, 3, 4, 12]))
        args = [dict(a=draw(gen.vec(2 * n, pos_())), s=[n, 2])]
    elif f in ('dirichlet_entropy', 'get_e_dirichlet', 'get_e_log_dirichlet'):
        shape = [draw(st.sampled_from([2, 3, 4, 12]))] + draw(st.lists(st.integers(1, 3), max_size=2))
        args = [dict(a=draw(gen.vec(size(shape), pos_())), s=shape)]
    elif f in ('wishart_entropy', 'e_log_det_wishart', 'e_log_inv_wishart_diag'):
        v = draw(scaled_spd())
        args = [v['s'][0] - 1 + draw(st.one_of(st.sampled_from([0.5, 1.0, 2.0, 5.0]),
                                               st.floats(0.05, 60.0))), v]
    elif f == 'multinoulli_entropy':
        n, k = draw(st.sampled_from([1, 2, 3, 11])), draw(st.sampled_from([2, 3, 4, 12]))
        p = np.array(draw(gen.vec(n * k, st.one_of(st.sampled_from([0.0, 1.0, 2.0]),
                                                   st.floats(0.001, 1.0))))).reshape(n, k)
        p[:, 0] += 1e-3
        p = p / p.sum(axis=1, keepdims=True)
        args = [dict(a=p.ravel().tolist(), s=[n, k])]
    elif f in ('get_e_lognormal', 'get_var_lognormal'):
        a = draw(array(gen.real(-8, 8)))
        args = [a, like(draw, a, st.one_of(
            st.sampled_from([1.0, 0.25, 2.0]), st.floats(-3.0, 2.5).map(math.exp),
            st.floats(-80.0, 2.5).map(math.exp)))]
        if not a['s']:
            args = [x['a'][0] for x in args]
    elif f == 'get_uvn_from_natural_parameters':
        a = draw(array(gen.real(-8, 8)))
        args = [a, like(draw, a, pos_().map(lambda x: -x))]
        if not a['s']:
            args = [x['a'][0] for x in args]
    elif f == 'univariate_normal_log_prob':
        a = draw(array(gen.real(-8, 8)))
        args = [a, like(draw, a, gen.real(-8, 8)), like(draw, a, pos_())]
        if not a['s']:
            args = [x['a'][0] for x in args]
    else:
        k = draw(st.sampled_from([1, 2, 3, 4, 7, 13, 26, 60]))
        args = [(k - 1) / 2.0 + draw(pos_()), k]
    if f in BROADCASTS and all(isinstance(a, dict) and a['s'] for a in args) \
            and draw(st.integers(0, 2)) == 0:
        args = thin(draw, args)
    whole = f not in MATRIX + ('multinoulli_entropy',) and draw(st.integers(0, 5)) == 0
    if whole:
        # arguments of whole numbers, given as integers
        one = lambda x: float(min(max(round(abs(x)), 1), 10 ** 6)) * (1 if x > 0 else -1)
        one = one if f not in ('get_e_lognormal', 'get_var_lognormal') else lambda x: float(round(x)) or 1.0
        args = [dict(a, a=[one(x) for x in a['a']]) if isinstance(a, dict) else int(one(a)) for a in args]
        if f.startswith('multivariate'):
            args[0] += args[1] // 2
    c = dict(mod='modeling' if f == 'univariate_normal_log_prob' else 'ef', fun=f, args=args)
    c['whole'] = whole
    if f != 'get_uvn_from_natural_parameters':
        n = 1
        for a in args:
            if isinstance(a, dict):
                n = max(n, len(a['a']))
        c['w'] = draw(gen.vec(n, signs))
    return c


FUNS = {
    'univariate_normal_entropy': dists.uvn_entropy,
    'multivariate_normal_entropy': dists.mvn_entropy,
    'gamma_entropy': dists.gamma_entropy, 'beta_entropy': dists.beta_entropy,
    'dirichlet_entropy': dists.dirichlet_entropy, 'wishart_entropy': dists.wishart_entropy,
    'multinoulli_entropy': dists.multinoulli_entropy, 'get_e_lognormal': dists.e_lognormal,
    'get_var_lognormal': dists.var_lognormal, 'get_e_log_gamma': dists.e_log_gamma,
    'get_e_dirichlet': dists.e_dirichlet, 'get_e_log_dirichlet': dists.e_log_dirichlet,
    'e_log_det_wishart': dists.e_log_det_wishart,
    'e_log_inv_wishart_diag': dists.e_log_inv_wishart_diag,
    'multivariate_digamma': dists.mv_digamma, 'multivariate_gammaln': dists.mv_gammaln,
    'univariate_normal_log_prob': dists.uvn_log_prob,
    'get_uvn_from_natural_parameters': None}
SCALAR_DF = ('wishart_entropy', 'e_log_det_wishart', 'e_log_inv_wishart_diag')
RELATIVE = ('get_e_lognormal', 'get_var_lognormal', 'get_e_dirichlet')
MATRIX = SCALAR_DF + ('multivariate_normal_entropy',)


def np_arg(a):
    return np.array(a['a'], float).reshape(a['s']) if isinstance(a, dict) else np.array(a, float)


def shaped(case):
    """output shape of an array-valued function, and the case with w shaped and
    the arguments to differentiate in"""
    f = case['fun']
    a0 = np_arg(case['args'][0])
    if f in ('dirichlet_entropy',):
        s = a0.shape[1:]
    elif f == 'multinoulli_entropy':
        s = a0.shape[:1]
    elif f == 'e_log_inv_wishart_diag':
        s = np_arg(case['args'][1]).shape[:1]
    elif f in ('get_e_lognormal', 'get_var_lognormal', 'get_e_log_gamma', 'get_e_dirichlet',
               'get_e_log_dirichlet', 'univariate_normal_log_prob', 'get_uvn_from_natural_parameters'):
        s = np.broadcast(*[np_arg(a) for a in case['args']]).shape if f in BROADCASTS else a0.shape
    else:
        s = ()
    return s


def prepare(case):
    if 'w' not in case:
        return case
    s = shaped(case)
    w = dict(a=case['w'][:size(s)], s=list(s))
    grads = list(range(len(case['args'])))
    if case['fun'] in ('multivariate_digamma', 'multivariate_gammaln'):
        grads = [0]
    if case['fun'] in MATRIX:
        big = max(abs(x) for x in case['args'][-1]['a'])
        grads = grads if 1e-10 < big < 1e10 else []
    if case['fun'] == 'multinoulli_entropy':
        grads = grads if min(case['args'][0]['a']) > 1e-6 else []
    return dict(case, w=w, grads=[] if case.get('whole') else grads)


def judge(case, obs):
    f = case['fun']
    args = [np_arg(a) for a in case['args']]
    need(all(obs['kept']), '%s changed its arguments', f)
    if f == 'get_uvn_from_natural_parameters':
        mean, info = obs['value']
        close(info, -2 * args[1], 'precision from natural parameters', rtol=1e-13, atol=0)
        close(mean, args[0] / (-2 * args[1]), 'mean from natural parameters', rtol=1e-13, atol=0)
        return [f]
    hp = [dists.obj(a) if a.ndim else dists.M(float(a)) for a in args]
    fun = FUNS[f]
    if f in BROADCASTS or f == 'univariate_normal_entropy':
        hp = [dists.obj(a) for a in args]
    if f.startswith('multivariate_') and f != 'multivariate_normal_entropy':
        hp = [dists.M(float(args[0])), int(args[1])]
    want, scale = dists.floats(fun(*hp))
    cond = 1.0
    if f in MATRIX:
        cond = np.linalg.cond(args[-1])
    # products and exponentials are good to relative precision
    at = 2e-13 * scale + (0.0 if f in RELATIVE else 1e-14 * cond)
    if f == 'multinoulli_entropy':
        at = at + 1e-14
    close(obs['value'], want, f, rtol=1e-11, atol=at)
    w = case['w']['a']
    for i, g in zip(case['grads'], obs.get('grads', [])):
        a = args[i]
        check_shape(np.asarray(g), a.shape, 'derivative of %s' % f)
        g = np.asarray(g, float)
        sym = f in MATRIX and a.ndim == 2
        dirs = np.eye(max(1, a.size))
        # terms that cancel
        cancel = 1e-14 * np.abs(w).max() / a.sum(axis=0).min() if f == 'get_e_dirichlet' else 0.0
        scale_g = np.abs(g).max() if g.size else 0.0
        if sym:
            k = a.shape[0]
            dirs = []
            for r in range(k):
                for c in range(r + 1):
                    d = np.zeros((k, k))
                    d[r, c] += 0.5
                    d[c, r] += 0.5
                    dirs.append(d.ravel())
        for d in list(dirs)[:6]:
            dv = dists.directional(fun, hp, i, d, w)
            close(np.array((g.ravel() * d).sum()), np.array(dv), 'derivative of %s in argument %d'
                  % (f, i), rtol=1e-8, atol=1e-10 * (1 + scale_g) * (1 + 1e-4 * cond) + cancel)
    return [f]


# --------------------------------------------- numerical integration oracle
small_pos = st.one_of(st.sampled_from([1.0, 2.0, 0.75, 5.0]), st.floats(0.6, 25.0))


@st.composite
def integral_case(draw):
    which = draw(st.sampled_from(['normal', 'gamma', 'beta', 'loggamma', 'lognormal',
                                  'dirmarginal', 'wishart1', 'mvn', 'dirichlet', 'wishart']))
    a, b = draw(small_pos), draw(small_pos)
    A = lambda v, s: dict(a=list(v), s=list(s))
    call = lambda f, *args: dict(mod='ef', fun=f, args=list(args))
    c = dict(which=which, p=[a, b])
    if which == 'normal':
        c['calls'] = [call('univariate_normal_entropy', a)]
    elif which == 'gamma':
        c['calls'] = [call('gamma_entropy', a, b)]
    elif which == 'beta':
        c['calls'] = [call('beta_entropy', A([a, b], [1, 2]))]
    elif which == 'loggamma':
        c['calls'] = [call('get_e_log_gamma', a, b)]
    elif which == 'lognormal':
        m, s = draw(gen.real(-2, 2)), draw(st.floats(0.05, 1.5))
        c['p'] = [m, s]
        c['calls'] = [call('get_e_lognormal', m, s), call('get_var_lognormal', m, s)]
    elif which == 'dirmarginal':
        x = draw(small_pos)
        c['p'] = [a, b, x]
        c['calls'] = [call('get_e_dirichlet', A([a, b, x], [3])),
                      call('get_e_log_dirichlet', A([a, b, x], [3]))]
    elif which == 'wishart1':
        c['calls'] = [call('e_log_det_wishart', a, A([b], [1, 1])),
                      call('e_log_inv_wishart_diag', a, A([b], [1, 1]))]
    else:
        k = draw(st.integers(2, 3))
        v = draw(spd(k, -0.7, 0.7))
        c['p'] = [k - 1 + a, v]
        if which == 'mvn':
            c['calls'] = [call('multivariate_normal_entropy', v)]
        elif which == 'wishart':
            c['calls'] = [call('wishart_entropy', k - 1 + a, v)]
        else:
            al = draw(gen.vec(3, small_pos))
            c['p'] = al
            c['calls'] = [call('dirichlet_entropy', A(al, [3]))]
    return c


def expect(dist, f, lo, hi):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return _expect(dist, f, lo, hi)


def _expect(dist, f, lo, hi):
    pts = [dist.ppf(q) for q in (1e-3, 0.1, 0.5, 0.9, 0.999)]
    edges = [lo] + pts + [hi]
    tot = 0.0
    for u, v in zip(edges[:-1], edges[1:]):
        tot += integrate.quad(lambda x: dist.pdf(x) * f(x) if dist.pdf(x) > 0 else 0.0,
                              u, v, epsabs=1e-12, epsrel=1e-11, limit=200)[0]
    return tot


def judge_integral(case, obs):
    w, p, got = case['which'], case['p'], obs['values']
    S = scipy.stats
    tolq = dict(rtol=1e-6, atol=1e-6)
    if w in ('normal', 'gamma', 'beta'):
        d = {'normal': lambda: S.norm(0, 1 / math.sqrt(p[0])),
             'gamma': lambda: S.gamma(p[0], scale=1 / p[1]),
             'beta': lambda: S.beta(p[0], p[1])}[w]()
        lo, hi = {'normal': (-40 / math.sqrt(p[0]), 40 / math.sqrt(p[0])),
                  'gamma': (0, np.inf), 'beta': (0, 1)}[w]
        close(got[0], np.array(expect(d, lambda x: -d.logpdf(x), lo, hi)), 'integral of -log p, ' + w,
              **tolq)
    elif w == 'loggamma':
        d = S.gamma(p[0], scale=1 / p[1])
        close(got[0], np.array(expect(d, math.log, 0, np.inf)), 'integral of log x', **tolq)
    elif w == 'lognormal':
        d = S.norm(p[0], math.sqrt(p[1]))
        r = 14 * math.sqrt(p[1])
        e = expect(d, math.exp, p[0] - r, p[0] + r)
        e2 = expect(d, lambda x: (math.exp(x) - e) ** 2, p[0] - r, p[0] + r)
        close(got[0], np.array(e), 'mean of exp(x)', **tolq)
        close(got[1], np.array(e2), 'variance of exp(x)', rtol=1e-5, atol=1e-6)
    elif w == 'dirmarginal':
        t = sum(p)
        d = [S.beta(a, t - a) for a in p]
        close(got[0], np.array([expect(x, lambda z: z, 0, 1) for x in d]), 'Dirichlet mean', **tolq)
        close(got[1], np.array([expect(x, math.log, 0, 1) for x in d]), 'Dirichlet mean log', **tolq)
    elif w == 'wishart1':
        d = S.gamma(p[0] / 2, scale=2 * p[1])
        e = expect(d, math.log, 0, np.inf)
        close(got[0], np.array(e), 'mean log of a one-dimensional Wishart', **tolq)
        close(got[1], np.array([-e]), 'mean log inverse of a one-dimensional Wishart', **tolq)
    elif w == 'mvn':
        close(got[0], np.array(S.multivariate_normal(cov=np.linalg.inv(np_arg(p[1]))).entropy()),
              'multivariate normal entropy', rtol=1e-8, atol=1e-8)
    elif w == 'wishart':
        close(got[0], np.array(S.wishart(df=p[0], scale=np_arg(p[1])).entropy()),
              'Wishart entropy', rtol=1e-8, atol=1e-8)
    else:
        close(got[0], np.array(S.dirichlet(p).entropy()), 'Dirichlet entropy', rtol=1e-8, atol=1e-8)
    return [w]


PROP = Prop(
    'C15', ['ex_dist'],
    [Sub('exact', case().map(prepare), 'call', judge, 2400, 30000,
         nontrivial=lambda c: any(isinstance(a, dict) and len(a['a']) > 1 for a in c['args'])
         or any(isinstance(a, float) and a not in (0.0, 1.0) for a in c['args'])),
     Sub('integral', integral_case(), 'calls', judge_integral, 640, 6400)],
    rule='A function of the module, parameters over many orders of magnitude (matrices with determinants out of '
         'range), zero to three batch dimensions, arguments that broadcast; values and derivatives against 46-digit closed forms, and against numerical '
         'integrals and scipy.stats where these exist. Non-trivial = some parameter other than '
         '0 or 1.',
    assumptions=['Derivatives in symmetric matrix arguments are compared along symmetric directions.'])
