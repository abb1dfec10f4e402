import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, funs
from pbt.core import Prop, Sub, Sparse, need, fail

num = gen.real(-2, 2)
posv = st.one_of(st.sampled_from([0.5, 1.0, 2.0, 3.25]), st.floats(0.3, 4.0))


def A(a, shape=None):
    a = np.asarray(a, float)
    return {'a': a.ravel().tolist(), 's': list(a.shape if shape is None else shape)}


@st.composite
def mat(draw, *shape, elem=num):
    return A(draw(gen.vec(int(np.prod(shape)), elem)), shape)


def mats(*shape):
    return mat(*shape)


def poss(*shape):
    return mat(*shape, elem=posv)


@st.composite
def pd(draw, n, batch=()):
    out = []
    for _ in range(int(np.prod(batch, dtype=int))):
        X = np.array(draw(gen.vec(n * n, gen.real(-1, 1)))).reshape(n, n)
        out.append(X @ X.T + draw(st.sampled_from([0.5, 1.0, 2.0])) * np.eye(n))
    return A(out, tuple(batch) + (n, n))


@st.composite
def simplex(draw, r, k):
    p = np.array(draw(gen.vec(r * k, posv))).reshape(r, k)
    return A(p / p.sum(1, keepdims=True))


@st.composite
def sparse(draw, r, k, fmts=('csr', 'csc', 'coo')):
    v = draw(gen.vec(r * k, st.sampled_from([0.0, 0.0, 1.0, -2.5, 0.5])))
    return {'sp': draw(st.sampled_from(fmts)), 'm': {'a': v, 's': [r, k]}}


@st.composite
def mask(draw, n):
    return {'b': draw(gen.vec(n, st.booleans()))}


const = st.just
dims = st.integers(1, 3)


def family_ef(n, m):
    v, p = mats(n), poss(n)
    xw = [mats(5), poss(5)]
    df = st.floats(n + 0.5, n + 6.0)
    return {
        'ef.multivariate_digamma': [df, const(n)], 'ef.multivariate_gammaln': [df, const(n)],
        'ef.multinoulli_entropy': [simplex(m, n + 1)], 'ef.univariate_normal_entropy': [p],
        'ef.multivariate_normal_entropy': [pd(n)], 'ef.gamma_entropy': [p, p],
        'ef.dirichlet_entropy': [poss(n + 1, m)], 'ef.beta_entropy': [poss(n, 2)],
        'ef.wishart_entropy': [df, pd(n)], 'ef.e_log_det_wishart': [df, pd(n)],
        'ef.e_log_inv_wishart_diag': [df, pd(n)], 'ef.get_e_lognormal': [v, p],
        'ef.get_var_lognormal': [v, p], 'ef.get_e_log_gamma': [p, p],
        'ef.get_e_dirichlet': [poss(n + 1, m)], 'ef.get_e_log_dirichlet': [poss(n + 1, m)],
        'ef.get_e_logitnormal': [mats(n, m), poss(n, m)] + xw,
        'ef.get_e_log_logitnormal': [v, p] + xw, 'gh_normal': [v, p] + xw,
        'ef.get_uvn_from_natural_parameters': [v, mat(n, elem=posv.map(lambda x: -x))],
        'ef.mvn_prior': [v, pd(n), v, pd(n)], 'ef.uvn_prior': [v, p, v, p],
        'ef.gamma_prior': [p, p, p, v], 'ef.exponential_prior': [p, p],
        'ef.dirichlet_prior': [p, v], 'ef.expected_ljk_prior': [posv, df, pd(n)],
        'ef.get_e_dp_prior_logitnorm_approx': [posv, v, p] + xw,
        'mo.get_e_logistic_term': [mats(n), v, p, mats(6)],
        'mo.get_e_logistic_term_guass_hermite': [mats(n, m), poss(n, m)] + xw + [st.booleans()],
        'mo.get_standard_draws': [st.integers(1, 9)],
        'mo.univariate_normal_log_prob': [v, v, p]}


def family_la(n, m):
    t = n + m + 1
    return {
        'ru.mat_mul_last2dims': [mats(m, n, t), mats(m, n, 2)],
        'ru.matvec_mul_last2dims': [mats(n, t), mats(m, n)],
        'ru.get_nat_params_from_likelihood': [mats(m, t), mats(t, n), posv],
        'ru.get_nat_params_from_prior': [mats(m, n), pd(n, (m,))],
        'ru.get_mvn_from_nat_params': [mats(n), pd(n).map(lambda a: dict(a, a=[-0.5 * x for x in a['a']]))],
        'ru.get_posterior_regression_coefficients': [
            mats(m, t), mats(m, t, n), pd(t, (m,)), mats(m, n), pd(n, (m,))],
        'so.safe_matmul': [st.one_of(mats(n, t), sparse(n, t)), st.one_of(mats(t), mats(t, 2), sparse(t, 2))],
        'so.compress': [st.one_of(mats(n, 1, m), sparse(n, m))],
        'so.get_sparse_sub_hessian': [mats(n, n), const({'i': list(range(n))[::-1]}), const(n + m)],
        'so.get_sparse_sub_matrix': [mats(n, m), const({'i': [k + 1 for k in range(n)]}),
                                     const({'i': list(range(m))}), const(n + 2), const(m)],
        'so.pack_csr_matrix': [sparse(n, t)],
        'json_round': [sparse(n, t, ('csr',))],
        'mp.vectorize_ld_matrix': [mats(n, n)], 'mp.exp_matrix_diagonal': [mats(n, n)],
        'mp.log_matrix_diagonal': [poss(n, n)], 'mp.pack_posdef_matrix': [pd(n), const(0.0)],
        'mp.unvectorize_ld_matrix': [mats(n * (n + 1) // 2)],
        'mp.unpack_posdef_matrix': [mats(n * (n + 1) // 2), const(0.25)],
        'mp.unvectorize_symmetric_matrix': [mats(n * (n + 1) // 2)],
        'mp.pos_def_matrix_free_to_vector': [mats(n * (n + 1) // 2), const(0.0)],
        'pa.constrain': [mats(n, m), const(-1.0), st.sampled_from([2.0, float('1e300')])],
        'pa.unconstrain': [poss(n), const(0.0), const(9.0)],
        'subspace': [mat(1, t, elem=posv)],
        'si.constrain_simplex_matrix': [mats(m, n)], 'si.unconstrain_simplex_matrix': [simplex(m, n + 1)],
        'si.constrain_simplex_vector': [mats(n)],
        'si.constrain_grad_from_moment': [simplex(1, n + 1).map(lambda a: dict(a, s=[n + 1]))],
        'si.constrain_hess_from_moment': [simplex(1, n + 1).map(lambda a: dict(a, s=[n + 1]))],
        'cg.split_vector': [mask(t + 3)], 'split': [mask(t + 8), const(2)],
        'cg.get_masks': [const(t + 4), st.integers(1, t + 3)],
        'cg_solve': [pd(n + 1), mats(n + 1), st.one_of(const(None), mats(n + 1)),
                     st.one_of(const(None), pd(n + 1))],
        'cg_masks': [pd(n + 2), mats(n + 2), st.lists(mask(n + 2), min_size=1, max_size=3).map(
            lambda l: {'l': l})],
        'inv_sqrt': [mats(n, n), const(0.25), st.sampled_from([None, 3.0])],
        'new_vector': [mats(n)], 'new_array': [mats(n, m)], 'new_pd': [pd(n)], 'new_pdvec': [pd(n, (m,))],
        'new_simplex': [simplex(m, n + 1)],
        'new_subspace': [mat(1, t, elem=posv), mats(t)]}


def family_quad(n, m):
    own = st.booleans()
    sens = [pd(n), mats(n, m), mats(n), mats(m), mats(m), own]
    return {'quad_search': [pd(n), mats(n), mats(n), st.sampled_from(['bfgs', 'ncg', 'pre'])],
            'quad_repeat': [pd(n), mats(n), mats(n)],
            'sens_linear': sens, 'sens_taylor': sens, 'sens_old': sens}


def family_terms(n, m):
    args = [mats(n), mats(m), mats(m)]
    return {'deriv_array': [mats(n), mats(m), mats(n), mats(m), st.integers(0, 2), st.integers(0, 2)],
            'term_values': args, 'term_merge': args, 'term_next': args + [pd(n)]}


def family_par(spec):
    f, v = ref.sizes(spec)
    x = gen.free_vec(spec, -1.5, 1.5).map(lambda a: A(a, [f]))
    y = gen.point_vec(spec, -1.5, 1.5).map(lambda a: A(a, [v]))
    H = mats(v, v).map(lambda a: dict(a, a=(lambda B: (B + B.T).ravel().tolist())(
        np.array(a['a']).reshape(v, v))))
    HS = H.map(lambda a: {'sp': 'csr', 'm': a})
    return {'par_free': [x], 'par_vector': [y], 'par_values': [x], 'par_set': [x], 'par_map': [x],
            'par_jac': [x], 'par_hess': [x], 'par_convert': [x, mats(v), st.one_of(H, HS)],
            'par_index': [x], 'par_dump': [x]}


def family_obj(spec):
    f, v = ref.sizes(spec)
    x = gen.free_vec(spec, -1.5, 1.5).map(lambda a: A(a, [f]))
    y = gen.point_vec(spec, -1.5, 1.5).map(lambda a: A(a, [v]))
    d, e, h = mats(f), mats(v), mats(2)
    shift = st.one_of(const(None), const(None), mats(ref.n_values(spec)))
    out = {}
    for n in ('fun_free', 'fun_free_grad', 'fun_free_hessian', 'fun_free_cond', 'fun_free_grad_cond',
              'fun_free_hessian_cond'):
        out['ob.' + n] = [x, shift]
    for n in ('fun_vector', 'fun_vector_grad', 'fun_vector_hessian'):
        out['ob.' + n] = [y, shift]
    out['ob.fun_free_hvp'] = out['ob.fun_free_hvp_cond'] = [x, d, shift]
    out['ob.fun_vector_hvp'] = [y, e, shift]
    out.update({'ob_verbose': [x], 'ob_jac_free': [x], 'ob_jac_vector': [y], 'ob_uncondition': [x],
                'ob_precondition': [x, st.one_of(const(None), pd(f))]})
    for n in ('fun_free', 'fun_free_hessian12', 'fun_free_hessian21', 'fun_grad1.True.True',
              'fun_grad2.True.True'):
        out['two.' + n] = [x, h]
    for n in ('fun_vector', 'fun_vector_hessian12', 'fun_vector_hessian21', 'fun_grad1.False.False',
              'fun_grad2.False.False'):
        out['two.' + n] = [y, h]
    out['two.fun_hessian_free1_vector2'] = [x, h]
    out['two.fun_hessian_vector1_free2'] = [y, h]
    to = st.sampled_from(['free', 'vec'])
    for k in ('conv_map', 'conv_jac'):
        out[k + ':free'] = [x, const('free'), to]
        out[k + ':vec'] = [y, const('vec'), to]
    return out


small = gen.param('p', depth=1, small=True).filter(lambda s: ref.sizes(s)[0] >= 1 and ref.sizes(s)[1] <= 7)


@st.composite
def case(draw, families):
    c = dict(family=draw(st.sampled_from(families)))
    if c['family'] in ('par', 'obj'):
        spec = c['spec'] = draw(small)
        if c['family'] == 'obj':
            nv, f = ref.n_values(spec), ref.sizes(spec)[0]
            c.update(F=draw(funs.objective(nv)), G=draw(funs.objective(nv)), P=draw(pd(f)))
            tab = family_obj(spec)
        else:
            tab = family_par(spec)
    else:
        n, m = draw(st.integers(1, 4)), draw(dims)
        if c['family'] == 'terms':
            c.update(deep=draw(st.booleans()), H=draw(pd(n)))
        tab = {'ef': family_ef, 'la': family_la, 'quad': family_quad, 'terms': family_terms}[c['family']](n, m)
    calls, reuse = [], []
    names = sorted(tab)
    for _ in range(draw(st.integers(1, 4))):
        f = draw(st.sampled_from(names))
        for k in range(draw(st.sampled_from([1, 2, 2]))):
            a = [draw(s) for s in tab[f]]
            if k and draw(st.booleans()):
                # only one argument changes
                i = draw(st.integers(0, len(a) - 1))
                a = [x if j == i else y for j, (x, y) in enumerate(zip(a, calls[-1]['a']))]
            if k:
                reuse.append([len(calls) - 1, len(calls)])
            calls.append(dict(f=f.split(':')[0], a=a))
    c['calls'], c['reuse'] = calls, reuse
    c['scribble'] = draw(st.booleans())
    c['order'] = list(draw(st.permutations(range(len(calls)))))
    return c


def same(got, want, what, tol):
    if isinstance(got, Sparse) or isinstance(want, Sparse):
        need(isinstance(got, Sparse) and isinstance(want, Sparse), '%s: another type', what)
        got, want = got.dense(), want.dense()
    if isinstance(want, dict):
        need(isinstance(got, dict) and set(got) == set(want), '%s: other keys', what)
        for k in want:
            same(got[k], want[k], what, tol)
        return
    if isinstance(want, list):
        need(isinstance(got, list) and len(got) == len(want), '%s: another length', what)
        for g, w in zip(got, want):
            same(g, w, what, tol)
        return
    if want is None or isinstance(want, (str, bool)):
        need(got == want, '%s: %r, was %r', what, got, want)
        return
    try:
        g, w = np.asarray(got), np.asarray(want)
        if g.dtype.kind not in 'fiub' or w.dtype.kind not in 'fiub':
            fail('%s: not numbers', what)
    except ValueError:
        fail('%s: not numbers', what)
    need(g.shape == w.shape, '%s: shape %s, was %s', what, g.shape, w.shape)
    if not g.size:
        return
    g, w = g.astype(float), w.astype(float)
    big = np.max(np.abs(w[np.isfinite(w)]), initial=0.0)
    ok = (g == w) | (np.isnan(g) & np.isnan(w)) | (np.abs(g - w) <= tol * (big + 1e-300))
    if not ok.all():
        i = tuple(int(k) for k in np.argwhere(~ok)[0])
        fail('%s: entry %s is %r, was %r', what, i, float(g[i]), float(w[i]))


def payload(a):
    if isinstance(a, dict):
        if 'sp' in a:
            return np.array(a['m']['a'], float).reshape(a['m']['s'])
        if 'l' in a:
            return [payload(v) for v in a['l']]
        if 'b' in a:
            return np.array(a['b'], bool)
        if 'i' in a:
            return np.array(a['i'])
        return np.array(a['a'], float).reshape(a['s'])
    return a


def unchanged(got, sent, what):
    if isinstance(got, Sparse):
        got = got.dense()
    same(got, payload(sent) if not isinstance(sent, list) else sent, what, 0.0)


def judge(case, obs):
    labels = [case['family']]
    tol = lambda f: 1e-4 if f == 'quad_search' else 1e-9
    for c, o in zip(case['calls'], obs['calls']):
        f = c['f']
        labels.append(f)
        for k, (got, sent) in enumerate(zip(o['args'], c['a'])):
            if isinstance(sent, dict) and 'l' in sent:
                for g, s in zip(got, sent['l']):
                    unchanged(g, s, 'argument %d of %s after the call' % (k, f))
            else:
                unchanged(got, sent, 'argument %d of %s after the call' % (k, f))
        same(o['later'], o['first'], 'the result of %s after later calls' % f, 0.0)
        same(o['again'], o['first'], '%s called again with the same arguments' % f, tol(f))
    for r in obs['reused']:
        f = case['calls'][r['to']]['f']
        labels.append('reused')
        same(r['result'], obs['calls'][r['to']]['first'],
             '%s called with arrays used before for other values' % f, tol(f))
    return labels


many = lambda c: len(c['calls']) > 1
PROP = Prop(
    'C27', ['ex_obj', 'ex_pure'],
    [Sub('functions', case(['ef', 'la', 'la']), 'pure', judge, 1600, 24000, nontrivial=many),
     Sub('parameters', case(['par']), 'pure', judge, 800, 12000, nontrivial=many),
     Sub('objectives', case(['obj', 'obj', 'obj', 'obj', 'quad', 'terms']), 'pure', judge, 1600, 20000, nontrivial=many)],
    rule='Sequences of calls of about 130 functions and methods; non-trivial = at least two calls.')
