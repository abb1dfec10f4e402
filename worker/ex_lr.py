"""Executors for whole linear response analyses (C26)."""
import warnings

import numpy as onp
import autograd.numpy as np

import LinearResponseVariationalBayes as vb
import LinearResponseVariationalBayes.ModelSensitivity as ms
import LinearResponseVariationalBayes.SparseObjectives as obj_lib
import LinearResponseVariationalBayes.OptimizationUtils as opt_lib
from LinearResponseVariationalBayes.Parameters import \
    convert_vector_to_free_hessian

from base import executor, build, arr

MOMENTS = {'gamma': ('e', 'e_log'), 'wishart': ('e', 'e_log_det'), 'dirichlet': ('e_log',)}


def factors(case, par):
    return [par] if case['bare'] else [par[s['name']] for s in case['factors']]


class Model(object):
    """An approximation made of the library's distributions, its moments and
    entropy, and minus the evidence bound for a target whose log density is
    linear in the moments."""

    def __init__(self, case):
        self.case = case
        if case['bare']:
            self.par = build(case['factors'][0])
        else:
            self.par = vb.ModelParamsDict('model')
            for s in case['factors']:
                self.par.push_param(build(s))
        self.fs = factors(case, self.par)
        self.n = case['n_moments']
        self.lam = arr(case['lam'])
        self.t = vb.VectorParam('t', self.n, val=onp.zeros(self.n))
        self.out = vb.VectorParam('moments', self.n, val=onp.zeros(self.n))

    def moments(self):
        out = []
        for s, f in zip(self.case['factors'], self.fs):
            for m in MOMENTS.get(s['t'], ('e', 'e_outer')):
                out.append(np.reshape(getattr(f, m)(), (-1,)))
        return np.hstack(out)

    def entropy(self):
        tot = 0.0
        for f in self.fs:
            tot = tot + np.sum(f.entropy())
        return tot

    def fun(self):
        return -1 * (np.dot(self.lam + self.t.get(), self.moments()) + self.entropy())

    def part(self):
        return -1 * np.dot(self.t.get(), self.moments())

    def convert(self):
        self.out.set_vector(self.moments())


@executor('lr')
def lr(case):
    M = Model(case)
    par, t, n = M.par, M.t, M.n
    par.set_vector(arr(case['vec']))
    x0, v0 = onp.array(par.get_free()), onp.array(par.get_vector())
    zero = onp.zeros(n)
    out = {'x0': x0, 'v0': v0, 'moments': M.moments()}
    o = obj_lib.Objective(par, M.fun)
    pc = obj_lib.ParameterConverter(par, M.out, M.convert)
    out['value'] = o.fun_free(x0)
    for kind, at in (('free', x0), ('vector', v0)):
        g = onp.array(getattr(o, 'fun_%s_grad' % kind)(at))
        H = onp.array(getattr(o, 'fun_%s_hessian' % kind)(at))
        J = onp.array(getattr(pc, kind[:4].replace('vect', 'vec') + '_to_vec_jacobian')(at))
        out['grad_' + kind] = g
        out['hess_' + kind] = H
        out['cov_' + kind] = J @ onp.linalg.solve(H, J.T)
    out['hess_conv'] = convert_vector_to_free_hessian(
        par, x0, onp.array(o.fun_vector_grad(v0)), onp.array(o.fun_vector_hessian(v0)))
    # a solve of H a = J' w by its action only
    J = onp.array(pc.free_to_vec_jacobian(x0))
    a = onp.linalg.solve(out['hess_free'], J[case['row']])
    out['hvp'] = o.fun_free_hvp(x0, a)
    out['row'] = J[case['row']]
    part = dict(hyper_par_objective_functor=M.part) if case['part'] else {}
    afree = case['afree']
    base = x0 if afree else v0
    J = J if afree else onp.array(pc.vec_to_vec_jacobian(v0))
    s = ms.ParametricSensitivityLinearApproximation(
        M.fun, par, t, base, zero, input_is_free=afree, **part)
    out['cov_lin'] = J @ onp.array(s.get_dinput_dhyper())
    d = arr(case['shift'])
    out['lin'] = s.predict_input_par_from_hyperparameters(d)
    s = ms.ParametricSensitivityTaylorExpansion(
        M.fun, par, t, base, zero, case['order'], input_is_free=afree, **part)
    out['taylor'] = [onp.array(s.evaluate_dkinput_dhyperk(d, k + 1)) for k in range(case['order'])]
    out['series'] = s.evaluate_taylor_series(d)
    par.set_free(x0)
    t.set_vector(zero)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        kw = dict(hyper_par_objective_fun=M.part) if case['part'] else {}
        s = obj_lib.ParametricSensitivity(M.fun, par, M.out, t, M.convert, x0, **kw)
    out['cov_old'] = s.get_doutput_dhyper()
    out['old_lin'] = onp.array(s.predict_output_par_from_hyperparameters(d, linear=True))
    # the optimum again from a point nearby, with other targets
    out['opt'] = []
    for m, x in zip(case['methods'], case['starts']):
        t.set_vector(d)
        start = x0 + arr(x)
        if m != 'ncg':
            o.preconditioner = None
            opt_lib.set_objective_preconditioner(o, free_par=start, ev_min=1e-3)
        fit = opt_lib.minimize_objective_bfgs if m == 'bfgs' else opt_lib.minimize_objective_trust_ncg
        kw = {} if m == 'bfgs' else {'gtol': 1e-7}
        opt, res = fit(o, start, m != 'ncg', maxiter=200, disp=False, **kw)
        par.set_free(opt)
        out['opt'].append({'ok': bool(res.success), 'vec': onp.array(par.get_vector()),
                           'moments': onp.array(M.moments())})
    return out


@executor('lr_mf')
def lr_mf(case):
    """Factorised normals for a correlated normal target."""
    M = Model(case)
    par = M.par
    Lam, mean = arr(case['Lam']), arr(case['mean'])
    hyper = vb.VectorParam('h', len(mean), val=onp.zeros(len(mean)))

    def means():
        return np.hstack([np.reshape(f.e(), (-1,)) for f in M.fs])

    def fun():
        e = means()
        tot = 0.5 * np.dot(e, np.dot(Lam, e)) - np.dot(np.dot(Lam, mean) + hyper.get(), e)
        k = 0
        for s, f in zip(case['factors'], M.fs):
            if s['t'] == 'mvn':
                L = Lam[k:k + s['dim'], k:k + s['dim']]
                m = f.e()
                tot = tot + 0.5 * np.sum(L * (f.e_outer() - np.outer(m, m)))
                k += s['dim']
            else:
                v = np.reshape(f.e_outer(), (-1,)) - np.reshape(f.e(), (-1,)) ** 2
                n = onp.prod(onp.shape(onp.zeros(s.get('shape', [s.get('length', 1)]))), dtype=int)
                tot = tot + 0.5 * np.dot(onp.diag(Lam)[k:k + n], v)
                k += n
        return tot - M.entropy()
    out_par = vb.VectorParam('m', len(mean), val=onp.zeros(len(mean)))

    def convert():
        out_par.set_vector(means())
    par.set_vector(arr(case['vec']))
    x0 = onp.array(par.get_free())
    o = obj_lib.Objective(par, fun)
    pc = obj_lib.ParameterConverter(par, out_par, convert)
    out = {'grad': onp.array(o.fun_free_grad(x0))}
    H = onp.array(o.fun_free_hessian(x0))
    J = onp.array(pc.free_to_vec_jacobian(x0))
    out['cov'] = J @ onp.linalg.solve(H, J.T)
    s = ms.ParametricSensitivityLinearApproximation(fun, par, hyper, x0, onp.zeros(len(mean)))
    out['cov_lin'] = J @ onp.array(s.get_dinput_dhyper())
    d = arr(case['shift'])
    # the means move linearly, and nothing else moves
    t = ms.ParametricSensitivityTaylorExpansion(fun, par, hyper, x0, onp.zeros(len(mean)), case['order'])
    out['taylor'] = [onp.array(t.evaluate_dkinput_dhyperk(d, k + 1)) for k in range(case['order'])]
    par.set_free(x0 + out['taylor'][0])
    out['moved'] = onp.array(means())
    out['moved_vec'] = onp.array(par.get_vector())
    if case['search']:
        opt_lib.set_objective_preconditioner(o, free_par=x0)
        par.set_free(x0)
        hyper.set_vector(onp.zeros(len(mean)))
        opt, res = opt_lib.minimize_objective_trust_ncg(
            o, x0 + arr(case['start']), True, maxiter=200, gtol=1e-8, disp=False)
        par.set_free(opt)
        out['opt'] = {'ok': bool(res.success), 'vec': onp.array(par.get_vector())}
    return out
