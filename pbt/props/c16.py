import math
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, dists
from pbt.core import Prop, Sub, Skip, need, close, equal, check_shape
from pbt.props.c15 import scales, spd, size

TYPES = ['mvn', 'mvn', 'uvn', 'uvnvec', 'uvnarr', 'uvnarr', 'uvnmoment', 'mvnarr', 'gamma',
         'wishart', 'wishart', 'dirichlet']
some = gen.real(-3, 3)


@st.composite
def case(draw):
    spec = draw(gen.dist(types=TYPES))
    if draw(st.integers(0, 7)) == 0:
        # larger ones
        t, i = spec['t'], lambda a, b: draw(st.integers(a, b))
        if t == 'mvn':
            spec['dim'] = i(5, 9)
        elif t == 'uvnvec':
            spec['length'] = i(5, 14)
        elif t in ('uvnarr', 'uvnmoment', 'mvnarr'):
            spec['shape'] = draw(st.permutations([i(4, 12), 1])) if i(0, 2) else [3, 4]
        elif t == 'wishart':
            spec['min_df'] = None if spec['min_df'] is None else spec['min_df'] - spec['size']
            spec['size'] = i(5, 8)
            spec['min_df'] = None if spec['min_df'] is None else spec['min_df'] + spec['size']
        elif t == 'dirichlet':
            spec['shape'] = draw(st.sampled_from([[12], [7, 2], [2, 9]]))
    if spec['t'] == 'dirichlet' and len(spec['shape']) == 1 and spec['shape'][0] == 1:
        spec['shape'] = [2]
    t = spec['t']
    how = draw(st.sampled_from(['free', 'vector', 'value', 'value']))
    if t == 'uvnmoment':
        # valid moments only: e2 > e^2
        how = draw(st.sampled_from(['vector', 'value']))
    c = dict(spec=spec, how=how)
    if how == 'free':
        c['x'] = draw(gen.free_vec(spec))
    else:
        A = lambda v, s: dict(a=list(v), s=list(s))
        up = lambda n, lb: [lb + v for v in draw(gen.vec(n, draw(scales)))]
        if t == 'mvn':
            k = spec['dim']
            m = np.array(draw(spd(k))['a']).reshape(k, k) + spec['min_info'] * np.eye(k)
            vals = dict(mean=A(draw(gen.vec(k, some)), [k]), info=A(m.ravel(), [k, k]))
        elif t == 'uvn':
            vals = dict(mean=draw(some), info=up(1, spec['min_info'])[0])
        elif t in ('uvnvec', 'uvnarr', 'uvnmoment'):
            s = [spec['length']] if t == 'uvnvec' else spec['shape']
            n = size(s)
            m = draw(gen.vec(n, some))
            if t == 'uvnmoment':
                e2 = [a * a + b + spec['min_info'] for a, b in zip(
                    m, draw(gen.vec(n, st.floats(-3.0, 1.5).map(math.exp))))]
                vals = dict(e=A(m, s), e2=A(e2, s))
            else:
                vals = dict(mean=A(m, s), info=A(up(n, spec['min_info']), s))
        elif t == 'mvnarr':
            vals = dict(mean=A(draw(gen.vec(size(spec['shape']), some)), spec['shape']),
                        info=A(up(spec['shape'][0], spec['min_info']), spec['shape'][:1]))
        elif t == 'gamma':
            vals = dict(shape=up(1, spec['min_shape'])[0], rate=up(1, spec['min_rate'])[0])
        elif t == 'wishart':
            k = spec['size']
            m = np.array(draw(spd(k))['a']).reshape(k, k) + spec['diag_lb'] * np.eye(k)
            lb = spec['min_df'] if spec['min_df'] else k - 1
            vals = dict(df=up(1, lb)[0], v=A(m.ravel(), [k, k]))
        else:
            n = size(spec['shape'])
            vals = dict(alpha=A(up(n, spec['min_alpha']), spec['shape']))
        if how == 'value':
            c['x'] = vals
        else:
            out = []
            for ch in ref.children(spec):
                v = vals[ch['name']]
                if ch['t'] == 'pd':
                    k = ch['size']
                    out += [v['a'][i * k + j] for i in range(k) for j in range(i + 1)]
                else:
                    out += v['a'] if isinstance(v, dict) else [v]
            c['x'] = out
    if t == 'wishart':
        c['lkj'] = draw(st.sampled_from([1.0, 2.0, 0.5, 5.5]))
    return c


def pieces(spec, vec):
    out, o = {}, 0
    for ch in ref.children(spec):
        k = ref.sizes(ch)[1]
        out[ch['name']] = np.array(ref.vec_to_values(ch, vec[o:o + k]), float).reshape(
            ref.value_shape(ch))
        o += k
    return out


def normal(mean, var, got, what, shape):
    # only the moment form loses the variance to cancellation
    rt, at = 1e-10, 1e-12 * (1 + np.abs(mean).max() ** 2) if what == 'uvnmoment' else 0.0
    equal(np.asarray(got['e'], float), mean, what + ' mean')
    close(got['var'], var, what + ' variance', rtol=rt, atol=at)
    close(got['e_outer'], mean ** 2 + var, what + ' second moment', rtol=rt, atol=1e-300 + at)
    if np.any(np.abs(mean) + var > 300):
        return
    s = np.exp(mean + var / 2)
    vv = np.expm1(var) * s ** 2
    close(got['e_exp'], s, what + ' E exp', rtol=1e-9, atol=0)
    close(got['var_exp'], vv, what + ' Var exp', rtol=1e-9, atol=at * s ** 2)
    close(got['e2_exp'], vv + s ** 2, what + ' E exp^2', rtol=1e-9, atol=0)


def normal_entropy(var):
    return 0.5 * np.sum(np.log(2 * math.pi * math.e * var))


def scalars(obs, names):
    # a scalar set through its encoding is reported with shape (1,)
    return {k: np.reshape(v, ()) if k in names and np.size(v) == 1 else v
            for k, v in obs.items()}


def judge(case, obs):
    if case['spec']['t'] in ('uvn', 'gamma', 'wishart'):
        names = ['entropy', 'e_log', 'e_log_det', 'lkj', 'var', 'e_outer', 'e_exp', 'var_exp', 'e2_exp']
        obs = scalars(obs, names + ([] if case['spec']['t'] == 'wishart' else ['e']))
    spec, t = case['spec'], case['spec']['t']
    vec = np.asarray(obs['vec'], float)
    if case['how'] == 'vector':
        equal(vec, np.array(case['x'], float), 'vector encoding')
    elif case['how'] == 'free':
        want = np.array(ref.free_to_vec(spec, case['x']), float)
        close(vec, want, 'vector encoding after setting the free one', rtol=1e-9,
              atol=1e-11 * (1 + np.abs(want).max()))
    p = pieces(spec, vec.tolist())
    if case['how'] == 'value':
        for n, v in case['x'].items():
            w = np.array(v['a']).reshape(v['s']) if isinstance(v, dict) else np.array(v)
            close(p[n], w, 'value of ' + n, rtol=1e-13, atol=1e-13 * (1 + np.abs(w).max()))
    equal(np.asarray(obs['vec_after'], float), vec, 'the parameter after reading its moments')
    if case['how'] == 'free':
        for ch in ref.children(spec):
            lb = ch.get('lb')
            if lb is not None:
                need(np.all(p[ch['name']] > lb) or min(case['x']) < -25, '%s below its minimum %s: %s', ch['name'], lb,
                     p[ch['name']].tolist())
    if t in ('uvn', 'uvnvec', 'uvnarr', 'uvnmoment'):
        if t == 'uvnmoment':
            mean, var = p['e'], p['e2'] - p['e'] ** 2
        else:
            mean, var = p['mean'], 1.0 / p['info']
        shape = mean.shape
        normal(mean, var, obs, t, shape)
        close(obs['entropy'], np.array(normal_entropy(var)), t + ' entropy', rtol=1e-10,
              atol=1e-11 * (1 + np.abs(np.log(var)).sum()))
        if 'shape' in obs:
            need(list(obs['shape']) == list(spec['shape']), 'shape() is %s', obs['shape'])
        if 'size' in obs:
            need(obs['size'] == spec['length'], 'size() is %s', obs['size'])
        if t == 'uvnarr':
            big = np.abs(mean).max() ** 2 / var.min()
            if big < 1e6:
                m = obs['moment']
                close(m['e'], mean, 'moment form mean', rtol=1e-13, atol=1e-13)
                close(m['var'], var, 'moment form variance', rtol=1e-12 + 1e-15 * big, atol=0)
                close(m['e_outer'], mean ** 2 + var, 'moment form second moment', rtol=1e-12, atol=1e-13)
                close(m['entropy'], np.array(normal_entropy(var)), 'moment form entropy', rtol=1e-9,
                      atol=1e-11 * (1 + big * 1e-3) * (1 + np.abs(np.log(var)).sum()))
                if np.all(np.abs(mean) + var < 300):
                    s = np.exp(mean + var / 2)
                    close(m['e_exp'], s, 'moment form E exp', rtol=1e-9, atol=0)
                    close(m['var_exp'], np.expm1(var) * s ** 2, 'moment form Var exp',
                          rtol=1e-9 + 1e-15 * big, atol=0)
            c = obs['const']
            equal(np.asarray(c['e'], float), mean, 'constant: mean')
            close(c['e_outer'], mean ** 2, 'constant: second moment', rtol=1e-13, atol=1e-15)
            close(c['var'], 0 * mean, 'constant: variance', rtol=0,
                  atol=1e-13 * (1 + np.abs(mean).max() ** 2))
            names = ['e', 'e_outer', 'var', 'e_exp', 'var_exp', 'e2_exp']
            for i, row in enumerate(obs['single']):
                for n, x in zip(names, row):
                    y = float(np.ravel(obs[n])[i])
                    close(np.array(x), np.array(y), 'scalar and array parameters disagree on ' + n,
                          rtol=1e-12, atol=0)
            close(np.array(sum(r[-1] for r in obs['single'])), np.asarray(obs['entropy'], float),
                  'sum of scalar entropies', rtol=1e-10, atol=1e-11 * len(obs['single']))
    elif t == 'mvn':
        info = p['info']
        cond = np.linalg.cond(info)
        if cond > 1e8:
            raise Skip()
        cov = np.linalg.inv(info)
        at = 1e-14 * cond * np.abs(cov).max()
        equal(np.asarray(obs['e'], float), p['mean'], 'mean')
        close(obs['cov'], cov, 'covariance', rtol=1e-10, atol=10 * at)
        close(np.asarray(obs['cov'], float) - np.asarray(obs['cov'], float).T, 0 * cov,
              'asymmetry of the covariance', rtol=0, atol=10 * at)
        close(obs['e_outer'], cov + np.outer(p['mean'], p['mean']), 'second moment', rtol=1e-10,
              atol=10 * at + 1e-13 * (p['mean'] ** 2).max())
        equal(np.asarray(obs['e_outer'], float), np.asarray(obs['e_outer'], float).T,
              'second moment against its transpose')
        v, s = dists.floats(dists.mvn_entropy(dists.obj(info)))
        close(obs['entropy'], v, 'entropy', rtol=1e-10, atol=1e-12 * s + 1e-14 * cond)
    elif t == 'mvnarr':
        equal(np.asarray(obs['e'], float), p['mean'], 'mean')
        close(obs['e2'], p['mean'] ** 2 + (1 / p['info'])[:, None], 'second moment', rtol=1e-12,
              atol=1e-13)
    elif t == 'gamma':
        a, b = p['shape'], p['rate']
        close(obs['e'], a / b, 'mean', rtol=1e-12, atol=0)
        for n, f in (('e_log', dists.e_log_gamma), ('entropy', dists.gamma_entropy)):
            v, s = dists.floats(f(dists.obj(a), dists.obj(b)))
            close(obs[n], v, n, rtol=1e-10, atol=1e-12 * s)
    elif t == 'wishart':
        df, v = float(p['df']), p['v']
        k = len(v)
        cond = np.linalg.cond(v)
        if cond > 1e8:
            raise Skip()
        close(obs['e'], df * v, 'mean', rtol=1e-12, atol=0)
        hv = dists.obj(v)
        if df > k - 1:
            for n, f in (('e_log_det', dists.e_log_det_wishart), ('entropy', dists.wishart_entropy)):
                w, s = dists.floats(f(df, hv))
                close(obs[n], w, n, rtol=1e-10, atol=1e-12 * s + 1e-14 * cond * (1 + df))
            w, s = dists.floats(dists.expected_lkj(case['lkj'], df, hv))
            close(obs['lkj'], w, 'expected LKJ prior of the inverse', rtol=1e-9,
                  atol=1e-12 * s + 1e-13 * cond + abs(case['lkj'] - 1) * 2e-15 * k / (df - k + 1) ** 2)
        if df - k - 1 > 1e-3:
            inv = np.linalg.inv(v)
            close(obs['e_inv'], inv / (df - k - 1), 'mean of the inverse', rtol=1e-9,
                  atol=1e-13 * cond * np.abs(inv).max() / (df - k - 1))
    else:
        al = p['alpha']
        close(obs['e'], al / al.sum(axis=0), 'mean', rtol=1e-12, atol=0)
        for n, f in (('e_log', dists.e_log_dirichlet), ('entropy', dists.dirichlet_entropy)):
            v, s = dists.floats(f(dists.obj(al)))
            close(obs[n], v, n, rtol=1e-10, atol=1e-12 * s)
    return [t, case['how']]


PROP = Prop(
    'C16', ['ex_dist'],
    [Sub('moments', case(), 'c16', judge, 2400, 30000)],
    rule='Distribution parameters with declared minima, set by free vector, vector or value; every '
         'reported moment against the distribution of the values read back. All cases non-trivial.',
    assumptions=['Condition number of matrices at most 1e8; moments of the inverse Wishart only '
                 'where they exist.'])
