"""Executor for C27: what calls do to their arguments, to each other's results
and to their own answer when asked again."""
import copy
import warnings

import numpy as onp
import scipy.sparse as osparse
import scipy.optimize
import autograd.numpy as np

import LinearResponseVariationalBayes as vb
import LinearResponseVariationalBayes.ConjugateGradient as cg_lib
import LinearResponseVariationalBayes.ExponentialFamilies as ef
import LinearResponseVariationalBayes.MatrixParameters as mp_lib
import LinearResponseVariationalBayes.Modeling as mo
import LinearResponseVariationalBayes.ModelSensitivity as ms
import LinearResponseVariationalBayes.OptimizationUtils as ou
import LinearResponseVariationalBayes.Parameters as pa
import LinearResponseVariationalBayes.ProjectionParams as pr
import LinearResponseVariationalBayes.SimplexParams as si
import LinearResponseVariationalBayes.SparseObjectives as so
import LinearResponseVariationalBayes.regression_utils as ru

from base import executor, build, flat_values, leaves, arr, layout, eval_terms, eval_objective
from ex_obj import make_fun, make_vec_fun

FUNS = {}


def fun(f):
    FUNS[f.__name__] = f
    return f


def table(mod, prefix, names):
    for n in names.split():
        FUNS[prefix + n] = lambda S, *a, _f=getattr(mod, n): _f(*a)


table(ef, 'ef.', 'multivariate_digamma multivariate_gammaln multinoulli_entropy univariate_normal_entropy '
      'multivariate_normal_entropy gamma_entropy dirichlet_entropy beta_entropy wishart_entropy '
      'e_log_det_wishart e_log_inv_wishart_diag get_e_lognormal get_var_lognormal get_e_log_gamma '
      'get_e_dirichlet get_e_log_dirichlet get_e_logitnormal get_e_log_logitnormal '
      'get_uvn_from_natural_parameters mvn_prior uvn_prior gamma_prior exponential_prior dirichlet_prior '
      'expected_ljk_prior get_e_dp_prior_logitnorm_approx')
table(mo, 'mo.', 'get_e_logistic_term get_e_logistic_term_guass_hermite get_standard_draws '
      'univariate_normal_log_prob')
table(ru, 'ru.', 'mat_mul_last2dims matvec_mul_last2dims get_nat_params_from_likelihood '
      'get_nat_params_from_prior get_mvn_from_nat_params get_regression_coefficients '
      'get_posterior_regression_coefficients')
table(so, 'so.', 'safe_matmul compress get_sparse_sub_hessian get_sparse_sub_matrix pack_csr_matrix '
      'unpack_csr_matrix json_pack_csr_matrix')
table(mp_lib, 'mp.', 'vectorize_ld_matrix unvectorize_ld_matrix exp_matrix_diagonal log_matrix_diagonal '
      'pack_posdef_matrix unpack_posdef_matrix unvectorize_symmetric_matrix pos_def_matrix_free_to_vector')
table(pa, 'pa.', 'constrain unconstrain')
table(si, 'si.', 'constrain_simplex_matrix unconstrain_simplex_matrix constrain_simplex_vector '
      'constrain_grad_from_moment constrain_hess_from_moment')
table(cg_lib, 'cg.', 'split_vector get_masks')


@fun
def gh_normal(S, means, infos, x, w):
    return ef.get_e_fun_normal(means, infos, x, w, lambda z: z ** 3 + np.sin(z))


@fun
def json_round(S, m):
    d = so.json_pack_csr_matrix(m)
    before = copy.deepcopy(d)
    out = so.json_unpack_csr_matrix(d)
    return [out, d == before]


@fun
def split(S, mask, limit):
    res = []
    cg_lib.recursive_split(mask, results=res, terminate_len=limit)
    return res


@fun
def cg_solve(S, A, b, x0, M):
    s = cg_lib.ConjugateGradientSolver(lambda x, v: A @ v, onp.zeros(len(b)))
    s.preconditioner = M
    return s.get_hinv_vec(b, x0)


@fun
def cg_masks(S, A, b, masks):
    s = cg_lib.ConjugateGradientSolver(lambda x, v: A @ v, onp.zeros(len(b)))
    s.get_hinv_vec_subsets(b, masks)
    return [s.vecs, s.hinv_vecs, s.masks]


@fun
def inv_sqrt(S, H, lo, hi):
    return ou.get_sym_matrix_inv_sqrt(H, ev_min=lo, ev_max=hi)


@fun
def subspace(S, B):
    b = pr.get_perpendicular_subspace(B)
    return b @ b.T


# constructors that are given values
@fun
def new_vector(S, v):
    p = vb.VectorParam('v', len(v), lb=-50.0, val=v)
    return [onp.array(p.get_vector()), p.get_free()]


@fun
def new_array(S, v):
    p = vb.ArrayParam('v', v.shape, ub=60.0, val=v)
    return [onp.array(p.get_vector()), p.get_free()]


@fun
def new_pd(S, v):
    p = vb.PosDefMatrixParam('v', v.shape[0], val=v)
    return [p.get_vector(), p.get_free()]


@fun
def new_pdvec(S, v):
    p = vb.PosDefMatrixParamVector('v', v.shape[0], v.shape[1], val=v)
    return [p.get_vector(), p.get_free()]


@fun
def new_simplex(S, v):
    p = vb.SimplexParam('v', v.shape, val=v)
    return [p.get_vector(), p.get_free()]


@fun
def new_subspace(S, B, x):
    p = vb.SubspaceVectorParam('v', B.shape[1], perp_subspace=B)
    p.set(x - B.T @ onp.linalg.solve(B @ B.T, B @ x))
    # the free coordinates are those of a basis that is not unique
    return [onp.array(p.get_vector()), p.free_size(), onp.sum(p.get_free() ** 2)]


# one parameter, all its calls
@fun
def par_free(S, x):
    S.par.set_free(x)
    return [S.par.get_vector(), S.par.get_free()]


@fun
def par_vector(S, x):
    S.par.set_vector(x)
    return [S.par.get_vector(), S.par.get_free()]


@fun
def par_values(S, x):
    S.par.set_free(x)
    return [q.get() for _, q in leaves(S.spec, S.par)]


@fun
def par_set(S, x):
    """each leaf set by the value read from another instance"""
    other = S.other
    other.set_free(x)
    vals = [layout(onp.array(q.get())) if onp.ndim(q.get()) else q.get()
            for _, q in leaves(S.spec, other)]
    before = copy.deepcopy(vals)
    for (_, q), v in zip(leaves(S.spec, S.par), vals):
        q.set(v)
    out = [S.par.get_vector(), S.par.get_free()]
    return out + [all(onp.array_equal(a, b) for a, b in zip(vals, before))]


@fun
def par_map(S, x):
    return S.par.free_to_vector(x)


@fun
def par_jac(S, x):
    return S.par.free_to_vector_jac(x)


@fun
def par_hess(S, x):
    return list(S.par.free_to_vector_hess(x))


@fun
def par_convert(S, x, g, H):
    return pa.convert_vector_to_free_hessian(S.par, x, g, H)


@fun
def par_index(S, x):
    S.par.set_free(x)
    return so.make_index_param(S.par).get_vector()


@fun
def par_dump(S, x):
    S.par.set_free(x)
    return [S.par.dictval(), str(S.par), list(S.par.names())]


# an objective, all its calls
def _ob(name):
    def f(S, x, shift):
        return getattr(S.ob, name)(x) if shift is None else getattr(S.ob, name)(x, shift=shift)
    FUNS['ob.' + name] = f


def _obv(name):
    def f(S, x, v, shift):
        return getattr(S.ob, name)(x, v) if shift is None else getattr(S.ob, name)(x, v, shift=shift)
    FUNS['ob.' + name] = f


for _n in ('fun_free', 'fun_free_grad', 'fun_free_hessian', 'fun_vector', 'fun_vector_grad',
           'fun_vector_hessian', 'fun_free_cond', 'fun_free_grad_cond', 'fun_free_hessian_cond'):
    _ob(_n)
for _n in ('fun_free_hvp', 'fun_vector_hvp', 'fun_free_hvp_cond'):
    _obv(_n)


@fun
def ob_verbose(S, x):
    n = len(S.ob.logger.x_array)
    S.ob.logger.callback = lambda logger: None
    v = S.ob.fun_free(x, verbose=True)
    return [v, S.ob.logger.x_array[n], S.ob.logger.val_array[n]]


@fun
def ob_jac_free(S, x):
    return S.obv.fun_free_jacobian(x)


@fun
def ob_jac_vector(S, x):
    return S.obv.fun_vector_jacobian(x)


@fun
def ob_uncondition(S, x):
    return S.ob.uncondition_x(x)


@fun
def ob_precondition(S, x, H):
    o = so.Objective(S.par, S.fun)
    a = ou.set_objective_preconditioner(o, free_par=x, hessian=H, ev_min=0.1)
    return [list(a), o.preconditioner]


@fun
def quad_search(S, A, b, x0, how):
    """minimizers on a quadratic"""
    p = vb.VectorParam('q', len(b))
    o = so.Objective(p, lambda: 0.5 * np.dot(p.get(), np.dot(A, p.get())) - np.dot(b, p.get()))
    f = ou.minimize_objective_bfgs if how == 'bfgs' else ou.minimize_objective_trust_ncg
    if how == 'pre':
        ou.set_objective_preconditioner(o, free_par=x0)
    return f(o, x0, how == 'pre', disp=False)[0]


@fun
def quad_repeat(S, A, b, x0):
    p = vb.VectorParam('q', len(b))
    o = so.Objective(p, lambda: 0.5 * np.dot(p.get(), np.dot(A, p.get())) - np.dot(b, p.get()))
    step = lambda x: (x - 0.1 * o.fun_free_grad(x), 'done')
    return list(ou.repeatedly_optimize(o, step, x0, max_iter=5))[:6]


# two parameters and a converter
def _two(name, how):
    def f(S, x1, x2):
        return getattr(S.two, name)(x1, x2, *how)
    FUNS['two.' + name + ''.join('.%s' % h for h in how)] = f


for _n in ('fun_free', 'fun_free_hessian12', 'fun_free_hessian21', 'fun_vector', 'fun_vector_hessian12',
           'fun_vector_hessian21', 'fun_hessian_free1_vector2', 'fun_hessian_vector1_free2'):
    _two(_n, ())
for _n in ('fun_grad1', 'fun_grad2'):
    _two(_n, (True, True))
    _two(_n, (False, False))


@fun
def conv_map(S, x, frm, to):
    return getattr(S.conv, 'converter_%s_to_%s' % (frm, to))(x)


@fun
def conv_jac(S, x, frm, to):
    return getattr(S.conv, '%s_to_%s_jacobian' % (frm, to))(x)


# sensitivity of a quadratic model
class Quad(object):
    def __init__(self, A, B):
        self.x, self.h = vb.VectorParam('x', A.shape[0]), vb.VectorParam('h', B.shape[1])
        self.f = lambda: 0.5 * np.dot(self.x.get(), np.dot(A, self.x.get())) - np.dot(
            self.x.get(), np.dot(B, np.sin(self.h.get())))


@fun
def sens_linear(S, A, B, x, h, d, own):
    q = Quad(A, B)
    s = ms.ParametricSensitivityLinearApproximation(q.f, q.x, q.h, x, h, hess0=A if own else None)
    out = [onp.array(s.get_dinput_dhyper()), s.predict_input_par_from_hyperparameters(d)]
    s.set_base_values(x, d)
    return out + [s.get_dinput_dhyper(), s.predict_input_par_from_hyperparameters(h)]


@fun
def sens_taylor(S, A, B, x, h, d, own):
    q = Quad(A, B)
    s = ms.ParametricSensitivityTaylorExpansion(q.f, q.x, q.h, x, h, 2, hess0=A if own else None)
    out = [onp.array(s.evaluate_dkinput_dhyperk(d, k)) for k in (1, 2)]
    out += [s.evaluate_taylor_series(d), s.evaluate_taylor_series(d, add_offset=False),
            s.evaluate_taylor_series(d, max_order=1)]
    return out + [onp.array(s.evaluate_dkinput_dhyperk(d, k)) for k in (1, 2)]


@fun
def sens_old(S, A, B, x, h, d, own):
    q = Quad(A, B)
    q.h.set_vector(h)
    out = vb.VectorParam('o', 1)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        s = so.ParametricSensitivity(
            q.f, q.x, out, q.h, lambda: out.set_vector(np.array([np.sum(q.x.get() ** 2)])), x,
            objective_hessian=A if own else None)
    return [s.get_dinput_dhyper(), s.get_doutput_dhyper(), s.predict_input_par_from_hyperparameters(d),
            s.predict_output_par_from_hyperparameters(d, True),
            onp.array(s.predict_output_par_from_hyperparameters(d, False)), s.get_dinput_dhyper()]


@fun
def deriv_array(S, x, h, v, w, i, j):
    g = S.derivs
    return g[i][j](x, h, *([v] * i + [w] * j))


@fun
def term_values(S, x, h, w):
    return [ms.evaluate_terms(S.terms, x, h, w, False), len(S.terms)]


@fun
def term_merge(S, x, h, w):
    return [ms.evaluate_terms(ms.consolidate_terms(S.terms + S.terms), x, h, w, False), len(S.terms)]


@fun
def term_next(S, x, h, w, H):
    t = ms.differentiate_terms(H, S.terms)
    return [ms.evaluate_terms(t, x, h, w, False), ms.evaluate_dketa_depsk(H, S.terms, x, h, w), len(S.terms)]


class State(object):
    def __init__(self, case):
        c = self.case = case
        if 'spec' in c:
            spec = self.spec = c['spec']
            p = self.par = build(spec)
            # built once: a subspace's basis is not unique
            self.other = build(spec)
            get = lambda: flat_values(spec, p)
            if 'F' in c:
                self.fun = make_fun(get, c)
                self.ob = so.Objective(p, self.fun)
                self.ob.preconditioner = arr(c['P'])
                self.obv = so.Objective(p, make_vec_fun(get, c))
                q = self.par2 = vb.VectorParam('other', 2)
                self.two = so.TwoParameterObjective(
                    p, q, lambda: eval_objective(c['F'], get()) * np.sin(q.get()[0])
                    + np.sum(get()) * q.get()[1] ** 2)
                out = vb.VectorParam('out', 2, lb=-1.0)
                self.conv = so.ParameterConverter(p, out, lambda: out.set_vector(np.array(
                    [np.exp(0.1 * np.sum(get())), np.sum(get() ** 2)])))
        if c['family'] == 'terms':
            self.derivs = ms.generate_two_term_derivative_array(
                lambda x, h: np.sin(x) * np.sum(h) + x ** 3 + np.sum(x) * h[0] ** 2, order=4)
            t = ms.get_taylor_base_terms(self.derivs)
            if c['deep']:
                self.H = arr(c['H'])
                t = ms.differentiate_terms(self.H, t)
            self.terms = t


def mk(a):
    if isinstance(a, dict):
        if 'sp' in a:
            return getattr(osparse, a['sp'] + '_matrix')(arr(a['m']))
        if 'l' in a:
            return [mk(v) for v in a['l']]
        if 'b' in a:
            return onp.array(a['b'], dtype=bool)
        if 'i' in a:
            return onp.array(a['i'], dtype=int)
        if 'd' in a:
            return {k: mk(v) for k, v in a['d'].items()}
        if 't' in a:
            return tuple(a['t'])
        return arr(a)
    return a


def plain(x):
    """a copy that nothing can change later"""
    if isinstance(x, onp.ndarray):
        return onp.array(x)
    if osparse.issparse(x):
        return x.copy()
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return x


def overwrite(old, new):
    """put new's contents into old's arrays; False if that cannot be done"""
    if isinstance(old, onp.ndarray) and isinstance(new, onp.ndarray):
        if old.shape != new.shape or old.dtype != new.dtype:
            return False
        old[...] = new
        return True
    if isinstance(old, list):
        return len(old) == len(new) and all([overwrite(a, b) for a, b in zip(old, new)])
    return not isinstance(old, dict) and not osparse.issparse(old) and type(old) == type(new) and old == new


def arrays(x):
    if isinstance(x, onp.ndarray):
        yield x
    elif osparse.issparse(x):
        for k in ('data', 'row', 'col', 'indices', 'indptr'):
            if isinstance(getattr(x, k, None), onp.ndarray):
                yield getattr(x, k)
    elif isinstance(x, (list, tuple)):
        for v in x:
            for a in arrays(v):
                yield a
    elif isinstance(x, dict):
        for a in arrays(list(x.values())):
            yield a


def scribble(r, mine):
    for a in arrays(r):
        if a.dtype.kind == 'f' and a.flags.writeable and not any(onp.may_share_memory(a, b) for b in mine):
            a[...] = onp.nan


@executor('pure')
def pure(case):
    S = State(case)
    calls = case['calls']
    args = [[mk(a) for a in c['a']] for c in calls]
    fs = [FUNS[c['f']] for c in calls]
    out = {'calls': []}
    kept, first = [], []
    for f, a in zip(fs, args):
        r = f(S, *a)
        kept.append(r)
        first.append(plain(r))
    after = [plain(a) for a in args]
    later = [plain(r) for r in kept]
    if case.get('scribble'):
        # what the caller does with an array handed out is no business of later calls
        for r in kept:
            scribble(r, list(arrays(args)))
    again = [None] * len(calls)
    for i in case['order']:
        again[i] = plain(fs[i](S, *args[i]))
    for i in range(len(calls)):
        out['calls'].append({'first': first[i], 'args': after[i], 'later': later[i],
                             'again': again[i]})
    del kept
    # the caller's arrays, used once more for another call's values
    out['reused'] = []
    for i, j in case['reuse']:
        fs[i](S, *args[i])
        if overwrite(args[i], [mk(a) for a in calls[j]['a']]):
            out['reused'].append({'to': j, 'result': plain(fs[j](S, *args[i]))})
    return out
