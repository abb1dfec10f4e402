"""Executors for exponential families, distribution parameters, quadrature,
priors and regression (C15-C19)."""
import numpy as onp
import autograd
import autograd.numpy as np
from numpy.polynomial.hermite import hermgauss

import LinearResponseVariationalBayes as vb
import LinearResponseVariationalBayes.ExponentialFamilies as ef
import LinearResponseVariationalBayes.Modeling as modeling
import LinearResponseVariationalBayes.regression_utils as reg

from base import executor, build, arr, ints, attempt

MODULES = {'ef': ef, 'modeling': modeling, 'reg': reg}


def val(a):
    """a JSON argument: number, {'a','s'} array, {'call'} or plain list"""
    if isinstance(a, dict):
        return arr(a)
    return a


@executor('call')
def call(case):
    """Call a module function; optionally differentiate w . f in every
    argument listed."""
    f = getattr(MODULES[case['mod']], case['fun'])
    args = [ints(a, case.get('whole')) if isinstance(a, dict) else a for a in case['args']]
    keep = [onp.array(a, copy=True) if isinstance(a, onp.ndarray) else a for a in args]
    out = {'value': f(*args)}
    if case.get('grads'):
        w = arr(case['w'])

        def scalar(*xs):
            y = f(*xs)
            return np.sum(w * y) if np.ndim(y) else w.ravel()[0] * y
        out['grads'] = [autograd.grad(scalar, i)(*args) for i in case['grads']]
    out['kept'] = [bool(onp.array_equal(a, b)) for a, b in zip(keep, args)]
    return out


@executor('c16')
def c16(case):
    spec = case['spec']
    t = spec['t']
    p = build(spec)
    if case['how'] == 'free':
        p.set_free(arr(case['x']))
    elif case['how'] == 'vector':
        p.set_vector(arr(case['x']))
    else:
        for n, v in case['x'].items():
            p[n].set(val(v))
    out = {'vec': onp.array(p.get_vector())}
    names = {
        'mvn': ['e', 'cov', 'e_outer', 'entropy'],
        'uvn': ['e', 'e_outer', 'var', 'e_exp', 'var_exp', 'e2_exp', 'entropy'],
        'gamma': ['e', 'e_log', 'entropy'],
        'wishart': ['e', 'e_log_det', 'e_inv', 'entropy'],
        'dirichlet': ['e', 'e_log', 'entropy'],
        'mvnarr': ['e', 'e2']}
    names['uvnvec'] = names['uvnarr'] = names['uvnmoment'] = names['uvn']
    for n in names[t]:
        out[n] = getattr(p, n)()
    if t == 'wishart':
        out['lkj'] = p.e_log_lkj_inv_prior(case['lkj'])
    if t in ('uvnarr', 'uvnmoment'):
        out['shape'] = list(p.shape())
    if t == 'uvnvec':
        out['size'] = int(p.size())
    if t == 'uvnarr':
        m = vb.UVNMomentParamArray('m', tuple(spec['shape']))
        m.set_from_uvn_param_array(p)
        out['moment'] = {n: getattr(m, n)() for n in names[t]}
        c = vb.ArrayParam('c', tuple(spec['shape']), val=onp.array(p['mean'].get()))
        m2 = vb.UVNMomentParamArray('m', tuple(spec['shape']))
        m2.set_from_constant(c)
        out['const'] = {n: getattr(m2, n)() for n in ('e', 'e_outer', 'var')}
        # and elementwise scalar parameters
        u = vb.UVNParam('u', min_info=spec['min_info'])
        out['single'] = []
        for a, b in zip(onp.ravel(p['mean'].get()), onp.ravel(p['info'].get())):
            u['mean'].set(a)
            u['info'].set(b)
            out['single'].append([float(getattr(u, n)()) for n in names['uvn']])
    out['vec_after'] = onp.array(p.get_vector())
    out['free_after'] = attempt(p.get_free)
    return out


POLY = {}


@executor('c17_poly')
def c17_poly(case):
    x, w = hermgauss(case['deg'])
    coefs = case['coefs']

    def fun(z):
        tot = 0.0 * z
        for c in coefs[::-1]:
            tot = tot * z + c
        return tot
    means, infos = val(case['means']), val(case['infos'])
    f = lambda m, i: ef.get_e_fun_normal(m, i, x, w, fun)
    out = {'value': f(means, infos)}
    s = lambda m, i: np.sum(f(m, i))
    out['grads'] = [autograd.grad(s, k)(means, infos) for k in (0, 1)]
    return out


@executor('c17_logit')
def c17_logit(case):
    x, w = hermgauss(case['deg'])
    m, i = val(case['means']), val(case['infos'])
    alpha = ints(case['alpha'], case.get('whole')) if isinstance(case['alpha'], dict) else case['alpha']
    c = val(case['w'])
    out = {'x': x, 'gw': w}
    out['e'] = ef.get_e_logitnormal(m, i, x, w)
    out['log'] = list(ef.get_e_log_logitnormal(m, i, x, w))
    out['dp'] = ef.get_e_dp_prior_logitnorm_approx(alpha, m, i, x, w)
    fs = [lambda m, i: np.sum(c * ef.get_e_logitnormal(m, i, x, w)),
          lambda m, i: np.sum(c * ef.get_e_log_logitnormal(m, i, x, w)[0]),
          lambda m, i: np.sum(c * ef.get_e_log_logitnormal(m, i, x, w)[1]),
          lambda m, i: np.sum(c * ef.get_e_dp_prior_logitnorm_approx(alpha, m, i, x, w))]
    out['grads'] = [[autograd.grad(f, k)(m, i) for k in (0, 1)] for f in fs]
    return out


@executor('c17_logistic')
def c17_logistic(case):
    m, s, y = val(case['means']), val(case['sds']), val(case['y'])
    if case.get('whole'):
        y = ints(case['y'])
    x, w = hermgauss(case['deg'])
    draws = modeling.get_standard_draws(case['ndraws'])
    out = {'x': x, 'gw': w, 'draws': draws}
    out['term'] = modeling.get_e_logistic_term(y, m, s, draws)
    out['gh'] = modeling.get_e_logistic_term_guass_hermite(m, s, x, w)
    out['gh_each'] = modeling.get_e_logistic_term_guass_hermite(m, s, x, w, aggregate_all=False)
    out['grads'] = [autograd.grad(lambda a, b: modeling.get_e_logistic_term(y, a, b, draws), k)(m, s)
                    for k in (0, 1)]
    out['gh_grads'] = [autograd.grad(
        lambda a, b: modeling.get_e_logistic_term_guass_hermite(a, b, x, w), k)(m, s)
        for k in (0, 1)]
    return out


@executor('calls')
def calls(case):
    def arg(a):
        return ints(a, case.get('whole')) if isinstance(a, dict) else a
    return {'values': [getattr(MODULES[c['mod']], c['fun'])(*[arg(a) for a in c['args']])
                       for c in case['calls']]}


@executor('c19')
def c19(case):
    out = calls(case)
    if case.get('split'):
        y, x, info = val(case['y']), val(case['x']), val(case['info'])
        m, P = val(case['pm']), val(case['pi'])
        f = reg.get_posterior_regression_coefficients
        c = case['cut']
        if case['split'] == 'rows':
            parts = [(y[..., :c], x[..., :c, :]), (y[..., c:], x[..., c:, :])]
        else:
            ax = len(case['batch'])
            a, b = onp.split(y, [c], axis=ax)
            parts = [(a, x), (b, x)]
        for yy, xx in parts:
            m, P = f(yy, xx, info, m, P)
        out['seq'] = [m, P]
    return out
