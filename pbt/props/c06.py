import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Prop, Sub, need, close, equal, check_shape, fail
from pbt.props.c01 import check_constraints, valid_value

CHECKED = ['vector', 'array', 'pd', 'pdvec', 'pdarr', 'simplex', 'subspace']


def wrong_sizes(n):
    return st.one_of(st.sampled_from([n - 1, n + 1, 0, 2 * n, n + 3]),
                     st.integers(0, 2 * n + 3)).filter(lambda k: k != n and k >= 0)


def sym_array(shape):
    """deterministic positive-definite content of a wrong shape"""
    n = ref.prod(shape)
    a = np.zeros(shape)
    if len(shape) >= 2 and shape[-1] == shape[-2] and n:
        a[...] = 3.0 * np.eye(shape[-1])
    elif n:
        a[...] = 0.5
    return dict(a=a.ravel().tolist(), s=list(shape))


@st.composite
def wrong_shape(draw, s):
    right = ref.value_shape(s)
    opts = [right + (1,), (1,) + right, (ref.prod(right),) if len(right) != 1 else (right[0] + 1,),
            right[::-1], right[1:], right[:-1]]
    for i in range(len(right)):
        for d in (-1, 1):
            if right[i] + d >= 1:
                opts.append(right[:i] + (right[i] + d,) + right[i + 1:])
    opts.append(tuple(k + 1 for k in right))
    if s['t'] in ('vector', 'subspace'):
        # these check the number of entries
        opts = [o for o in opts if ref.prod(o) != ref.prod(right)]
    opts = [o for o in opts if o != right]
    return draw(st.sampled_from(opts))


@st.composite
def refuse_case(draw):
    spec = draw(gen.param(depth=1))
    cands = [(p, s) for p, s in ref.leaf_specs(spec) if s['t'] in CHECKED]
    dicts = [()] if ref.is_dict(spec) else []
    calls = []
    if dicts and (not cands or draw(st.booleans())):
        path, target = (), spec
    elif cands:
        path, target = draw(st.sampled_from(cands))
    else:
        spec = draw(gen.leaf(types=CHECKED))
        path, target = (), spec
    f, v = ref.sizes(target)
    for _ in range(draw(st.integers(1, 3))):
        via = draw(st.sampled_from(['free', 'vec', 'value'] if not ref.is_dict(target) else ['free', 'vec']))
        if via == 'value':
            if target['t'] == 'pd' and target['size'] > 1 and draw(st.booleans()):
                A = 3.0 * np.eye(target['size'])
                i = draw(st.integers(1, target['size'] - 1))
                A[i, draw(st.integers(0, i - 1))] = draw(st.sampled_from([0.5, 1e-6, -0.25]))
                x = dict(a=A.ravel().tolist(), s=list(A.shape))
            else:
                x = sym_array(draw(wrong_shape(target)))
        else:
            n = draw(wrong_sizes(f if via == 'free' else v))
            x = draw(gen.vec(n, gen.nice))
        calls.append(dict(via=via, x=x))
    start = draw(st.one_of(st.none(), gen.free_vec(spec)))
    return dict(spec=spec, path=list(path), start=start, calls=calls)


def judge_refuse(case, obs):
    b = obs['before']
    labels = []
    for c, r in zip(case['calls'], obs['calls']):
        shape = c['x']['s'] if isinstance(c['x'], dict) else [len(c['x'])]
        need('exc' in r, 'a %s of shape %s was accepted', c['via'], shape)
        a = r['after']
        equal(np.asarray(a['vec'], float), np.asarray(b['vec'], float),
              'vector encoding after a refused %s' % c['via'])
        need(a['shapes'] == b['shapes'], 'value shapes %s after a refused %s, expected %s',
             a['shapes'], c['via'], b['shapes'])
        need('exc' not in a['free'], 'get_free fails after a refused %s', c['via'])
        equal(np.asarray(a['free']['ret'], float), np.asarray(b['free'], float),
              'free encoding after a refused %s' % c['via'])
        labels.append(c['via'])
    return labels


@st.composite
def ctor_case(draw):
    kind = draw(st.sampled_from(['bounds', 'bounds', 'diag_lb', 'subspace', 'wishart',
                                 'dirichlet', 'value', 'value', 'value', 'min']))
    value = None
    if kind == 'bounds':
        t = draw(st.sampled_from(['scalar', 'vector', 'array']))
        spec = draw(gen.leaf(types=[t]))
        lb = draw(gen.real(-20, 20))
        spec['lb'], spec['ub'] = lb, lb - draw(st.one_of(st.just(0.0), st.sampled_from([1.0, 1e-6]), st.floats(0, 50)))
        if draw(st.booleans()):
            # a value would not make the bounds any less contradictory
            value = draw(valid_value(dict(spec, lb=None, ub=None)))
    elif kind == 'diag_lb':
        spec = draw(gen.leaf(types=['pd', 'pdvec', 'pdarr']))
        spec['diag_lb'] = -draw(st.sampled_from([1.0, 0.5, 1e-6]))
        if draw(st.booleans()):
            value = draw(valid_value(dict(spec, diag_lb=0.0)))
    elif kind == 'subspace':
        dim = draw(st.integers(2, 4))
        if draw(st.booleans()):
            w = draw(wrong_sizes(dim).filter(lambda k: k > 0))
            rows = 1
        else:
            w, rows = dim, draw(st.integers(dim, dim + 2))
        B = [[1.0 if j == i % w else float((i * j) % 3) for j in range(w)] for i in range(rows)]
        spec = dict(t='subspace', name='p', dim=dim, B=B)
    elif kind == 'wishart':
        size = draw(st.integers(2, 4))
        spec = dict(t='wishart', name='p', size=size, diag_lb=0.0,
                    min_df=size - 1 - draw(st.sampled_from([0.5, 0.25, 0.1])))
    elif kind == 'dirichlet':
        spec = dict(t='dirichlet', name='p', shape=[2], min_alpha=-draw(st.sampled_from([0.5, 1e-3])))
    elif kind == 'min':
        size = draw(st.integers(1, 3))
        spec = draw(st.sampled_from([
            dict(t='mvn', name='p', dim=size, min_info=-0.5),
            dict(t='wishart', name='p', size=size, diag_lb=-0.5, min_df=None)]))
    else:
        spec = draw(gen.leaf(types=CHECKED))
        value = sym_array(draw(wrong_shape(spec)))
    return dict(kind=kind, spec=spec, value=value)


def judge_ctor(case, obs):
    need(obs['exc'], 'construction with inconsistent arguments (%s) was accepted', case['kind'])
    return [case['kind']]


@st.composite
def oob_case(draw):
    spec = draw(gen.param(depth=1))
    ok = [(p, s) for p, s in ref.leaf_specs(spec)
          if s['t'].startswith('pd') or s.get('lb') is not None or s.get('ub') is not None]
    if not ok:
        spec = draw(gen.leaf(types=['scalar', 'vector', 'array']).filter(
            lambda s: s['lb'] is not None or s['ub'] is not None))
        ok = [((), spec)]
    path, s = draw(st.sampled_from(ok))
    value = draw(valid_value(s))
    a = np.array([value] if isinstance(value, float) else value['a'])
    if s['t'].startswith('pd'):
        n = s['size']
        m = a.reshape((-1, n, n))
        i = draw(st.integers(0, len(m) - 1))
        # shift one matrix so that its least eigenvalue is clearly below the bound
        ev = np.linalg.eigvalsh(m[i])
        below = draw(st.sampled_from([1.0, 0.1, 5.0, 1e-4, 1e-7, 1e-10]))
        below = max(below, 1e-12 * np.abs(ev).max())
        m[i] = m[i] - (ev[0] - s['diag_lb'] + below) * np.eye(n)
        m[i] = 0.5 * (m[i] + m[i].T)
    else:
        i = draw(st.integers(0, a.size - 1))
        d = draw(st.one_of(st.sampled_from([1.0, 1e-3, 100.0]), st.floats(1e-6, 10),
                           st.integers(1, 40).map(lambda k: k * 2.0 ** -50)))
        sides = [k for k in ('lb', 'ub') if s[k] is not None]
        side = draw(st.sampled_from(sides))
        # at least a few spacings, at most d, beyond the bound
        d = max(d, 8 * np.spacing(abs(s[side])))
        a[i] = s[side] + (-d if side == 'lb' else d)
    value = float(a[0]) if isinstance(value, float) else dict(a=a.ravel().tolist(), s=value['s'])
    return dict(spec=spec, path=list(path), value=value)


def judge_oob(case, obs):
    for w in ('leaf', 'whole'):
        need('exc' in obs[w], 'free encoding of a value outside the constraints was returned (%s): %s',
             w, obs[w].get('ret'))
    return []


@st.composite
def default_case(draw):
    return dict(spec=draw(gen.param(depth=1)))


def judge_default(case, obs):
    spec = case['spec']
    f, v = ref.sizes(spec)
    need(obs['free_size'] == f, 'free size %s, expected %d', obs['free_size'], f)
    need(obs['vector_size'] == v, 'vector size %s, expected %d', obs['vector_size'], v)
    check_constraints(spec, obs['values'], 'default value')
    fr = np.asarray(obs['free'], float)
    check_shape(fr, (f,), 'free encoding of the default')
    need(np.all(np.isfinite(fr)), 'free encoding of the default is %s', fr.tolist())
    check_shape(np.asarray(obs['vec']), (v,), 'vector encoding of the default')
    for (path, s), val, api in zip(ref.leaf_specs(spec), obs['values'], obs['api']):
        val = np.asarray(val, float)
        if s.get('lb') is not None:
            need(np.all(val > s['lb']), 'default %s is not above %r', val.tolist(), s['lb'])
        if s.get('ub') is not None:
            need(np.all(val < s['ub']), 'default %s is not below %r', val.tolist(), s['ub'])
        if s['t'].startswith('pd'):
            n = s['size']
            for A in val.reshape((-1, n, n)):
                need(np.linalg.eigvalsh(A)[0] > s['diag_lb'], 'default matrix is not above its bound')
        want = {
            'scalar': {'size': 1}, 'vector': {'size': s.get('size')},
            'array': {'shape': s.get('shape')}, 'pd': {'size': s.get('size')},
            'pdvec': {'length': s.get('length'), 'matrix_size': s.get('size')},
            'pdarr': {'length': ref.prod(s.get('shape', [])), 'matrix_size': s.get('size')},
            'simplex': {'shape': s.get('shape'),
                        'free_shape': [s['shape'][0], s['shape'][1] - 1] if s['t'] == 'simplex' else None},
            'subspace': {'dim': s.get('dim')}}[s['t']]
        for m, w in want.items():
            need(api.get(m) == w, '%s() of %s is %s, expected %s', m, s['t'], api.get(m), w)
    return [s['t'] for _, s in ref.leaf_specs(spec)]


PROP = Prop(
    'C06', ['ex_params'],
    [Sub('refuse', refuse_case(), 'c06_refuse', judge_refuse, 3600, 48000),
     Sub('construct', ctor_case(), 'c06_ctor', judge_ctor, 2400, 24000),
     Sub('out_of_bounds', oob_case(), 'c06_oob', judge_oob, 2400, 24000),
     Sub('default', default_case(), 'c06_default', judge_default, 2400, 24000)],
    rule='Wrong-sized or wrong-shaped values, free vectors and vector encodings (for a leaf inside '
         'a dictionary or the dictionary itself); contradictory constructor arguments; values '
         'outside the constraints; parameters built without a value. Every case is non-trivial: '
         'each contains an input that must be refused or a default that must be valid.',
    assumptions=['ScalarParam does not check sizes; VectorParam and SubspaceVectorParam check the '
                 'number of entries, not the shape.'])
