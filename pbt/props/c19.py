import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Prop, Sub, Skip, need, close
from pbt.props.c15 import size, np_arg
from pbt.props.c18 import A

# squares must not underflow
elem = st.one_of(gen.nice, gen.real(-3, 3)).map(lambda a: a if abs(a) > 1e-30 else 0.0)


def many(draw, n, e):
    return draw(gen.vec(n, e)) if n < 60 else gen.pattern(draw, n, e, 31)


@st.composite
def spds(draw, batch, k):
    out = []
    for _ in range(size(batch)):
        L = np.array(many(draw, k * k, st.integers(-6, 6).map(lambda a: a / 4.0))).reshape(k, k)
        L = L if k < 7 else 2.5 * L / k
        out.append(L @ L.T + np.diag(many(draw, k, st.sampled_from([0.5, 1.0, 2.0]))))
    return np.array(out).reshape(list(batch) + [k, k])


@st.composite
def case(draw):
    batch = draw(st.lists(st.integers(1, 3), max_size=2))
    extra = draw(st.lists(st.integers(1, 3), max_size=2))
    n, r = draw(st.integers(1, 5)), draw(st.integers(1, 3))
    big = draw(st.integers(0, 11))
    if big == 0:
        n, r = draw(st.integers(6, 26)), draw(st.integers(1, 8))
        batch, extra = batch[:1], extra[:1]
    elif big == 1:
        extra = [draw(st.integers(4, 14))] + extra[:1]
    elif big == 2:
        batch = [draw(st.integers(4, 12))] + batch[:1]
    elif big == 3:
        batch, extra = (draw(st.lists(st.integers(1, 2), min_size=3, max_size=3)) for _ in range(2))
    x = np.array(many(draw, size(batch) * n * r, elem)).reshape(batch + [n, r])
    y = np.array(many(draw, size(batch) * size(extra) * n, elem)).reshape(batch + extra + [n])
    whole = draw(st.integers(0, 5)) == 0
    if whole:
        # counts and dummy variables, given as integers
        x, y = np.round(x), np.round(y)
    near = None if whole else draw(st.sampled_from([None, None, None, 1e-3, 1e-5, 1e-6]))

    def alike(v):
        """Make the batch elements nearly the same."""
        if near is None or not batch or draw(st.booleans()):
            return v
        f = v.reshape([-1] + list(v.shape[len(batch):]))
        return (f[:1] + near * f).reshape(v.shape)
    x, y = alike(x), alike(y)
    scalar = draw(st.booleans())
    info = draw(st.sampled_from([1.0, 2.5, 0.3])) if scalar else alike(draw(spds(batch, n)))
    pm = np.array(many(draw, size(batch) * r, elem)).reshape(batch + [r])
    pi = alike(draw(spds(batch, r)))
    pm = alike(pm)
    # units of the regressors, the responses and the precision
    u, w, q = [1.0, 1.0, 1.0] if whole else [draw(st.sampled_from([1.0, 1.0, 2.0 ** -30, 2.0 ** 30, 2.0 ** -8])) for _ in range(3)]
    raw = [np.array(v) for v in (y, x, info, pm, pi)]
    x, y, info, pm, pi = x * u, y * w, info * q, pm * (w / u), pi * (u * u * q)
    J = lambda v: float(v) if np.ndim(v) == 0 else A(v)
    c = dict(whole=whole, units=[u, w, q], raw=[J(v) for v in raw], batch=batch, extra=extra, y=A(y), x=A(x), info=J(info), pm=A(pm), pi=A(pi))
    call = lambda f, *a: dict(mod='reg', fun=f, args=[J(v) for v in a])
    calls = [call('get_nat_params_from_likelihood', y, x, info),
             call('get_nat_params_from_prior', pm, pi),
             call('get_posterior_regression_coefficients', y, x, info, pm, pi)]
    names = ['like', 'prior', 'post']
    X = raw[1].reshape(-1, n, r)
    if n >= r and max(np.linalg.cond(X[i]) for i in range(len(X))) < 1e4:
        calls.append(call('get_regression_coefficients', y, x, info))
        names.append('coef')
    if batch:
        i = tuple(draw(st.integers(0, b - 1)) for b in batch)
        c['one'] = list(i)
        one = lambda v: v if np.ndim(v) == 0 else v[i]
        calls.append(call('get_posterior_regression_coefficients', y[i], x[i], one(info), pm[i], pi[i]))
        names.append('one')
        if 'coef' in names:
            calls.append(call('get_regression_coefficients', y[i], x[i], one(info)))
            names.append('one_coef')
    c['calls'], c['names'] = calls, names
    c['split'] = draw(st.sampled_from(['rows', 'extra', None]))
    if c['split'] == 'extra' and not (extra and extra[0] > 1):
        c['split'] = 'rows'
    if c['split'] == 'rows' and (n < 2 or not scalar):
        c['split'] = None
    if c['split'] == 'rows':
        c['cut'] = draw(st.integers(1, n - 1))
    elif c['split'] == 'extra':
        c['cut'] = draw(st.integers(1, extra[0] - 1))
    return c


def judge(case, obs):
    got = dict(zip(case['names'], obs['values']))
    # everything back in plain units
    y, x, info, pm, pi = [np_arg(a) for a in case['raw']]
    u, w, q = case['units']
    nat = (u * w * q, u * u * q)
    out = (w / u, u * u * q)
    got = {k: np.asarray(v) / out[0] if k in ('coef', 'one_coef') else
           [np.asarray(a) / b for a, b in zip(v, nat if k in ('like', 'prior') else out)]
           for k, v in got.items()}
    batch, extra = case['batch'], case['extra']
    n, r = x.shape[-2:]
    B, E = size(batch), size(extra)
    X, Y = x.reshape(B, n, r), y.reshape(B, E, n)
    L = [info * np.eye(n)] * B if info.ndim == 0 else list(info.reshape(B, n, n))
    PM, PI = pm.reshape(B, r), pi.reshape(B, r, r)
    n1 = np.array([sum(X[b].T @ L[b] @ Y[b, e] for e in range(E)) for b in range(B)])
    n2 = np.array([-0.5 * E * X[b].T @ L[b] @ X[b] for b in range(B)])
    p1 = np.array([PI[b] @ PM[b] for b in range(B)])
    p2 = -0.5 * PI
    s = 1 + max(np.abs(n1).max(), np.abs(n2).max(), np.abs(p1).max(), np.abs(p2).max())
    at = 1e-12 * s
    re = lambda v, k: v.reshape(batch + [r] * k)
    close(got['like'][0], re(n1, 1), 'linear natural parameter of the likelihood', rtol=1e-10, atol=at)
    close(got['like'][1], re(n2, 2), 'quadratic natural parameter of the likelihood', rtol=1e-10, atol=at)
    close(got['prior'][0], re(p1, 1), 'linear natural parameter of the prior', rtol=1e-10, atol=at)
    close(got['prior'][1], re(p2, 2), 'quadratic natural parameter of the prior', rtol=1e-10, atol=at)
    post = -2 * (n2 + p2)
    mean = np.array([np.linalg.solve(post[b], n1[b] + p1[b]) for b in range(B)])
    cond = max(np.linalg.cond(P) for P in post)
    atm = 1e-13 * cond * (1 + np.abs(mean).max()) + 1e-11
    close(got['post'][1], re(post, 2), 'posterior precision', rtol=1e-10, atol=4 * at)
    close(got['post'][0], re(mean, 1), 'posterior mean', rtol=1e-9, atol=atm)
    if 'coef' in got:
        # generalized least squares on the pooled, whitened data
        gls = []
        for b in range(B):
            W = np.linalg.cholesky(L[b]).T
            gls.append(np.linalg.lstsq(np.vstack([W @ X[b]] * E),
                                       np.hstack([W @ Y[b, e] for e in range(E)]), rcond=None)[0])
        gls = np.array(gls)
        c2 = max(np.linalg.cond(X[b].T @ L[b] @ X[b]) for b in range(B))
        atc = 1e-12 * c2 * (1 + np.abs(gls).max()) + 1e-10
        close(got['coef'], re(gls, 1), 'generalized least squares', rtol=1e-8, atol=atc)
        if 'one_coef' in got:
            close(got['one_coef'], re(gls, 1)[tuple(case['one'])], 'coefficients of one batch element',
                  rtol=1e-8, atol=atc)
    if 'one' in got:
        i = tuple(case['one'])
        close(got['one'][0], re(mean, 1)[i], 'posterior mean of one batch element alone', rtol=1e-9,
              atol=atm)
        close(got['one'][1], re(post, 2)[i], 'posterior precision of one batch element alone',
              rtol=1e-9, atol=4 * at)
    labels = ['scalar' if info.ndim == 0 else 'full', 'pooled' if extra else 'plain']
    if 'seq' in obs:
        m, P = [np.asarray(a) / b for a, b in zip(obs['seq'], out)]
        close(P, re(post, 2), 'posterior precision after updating in two parts', rtol=1e-9, atol=8 * at)
        close(m, re(mean, 1), 'posterior mean after updating in two parts', rtol=1e-8, atol=10 * atm)
        labels.append('split_' + case['split'])
    return labels


PROP = Prop(
    'C19', ['ex_dist'],
    [Sub('regression', case(), 'c19', judge, 2400, 24000,
         nontrivial=lambda c: any(c['y']['a']) and any(c['x']['a']))],
    rule='Designs, responses with extra leading dimensions, scalar and full precisions, zero to two '
         'batch dimensions; dense per-element solutions as oracle; the first batch element alone; '
         'the same data in two parts. Non-trivial = non-zero data.',
    assumptions=['Full precision matrices are symmetric positive definite; least squares only where '
                 'the design has full column rank.'])
