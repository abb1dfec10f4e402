import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Prop, Sub, need, close, equal, check_shape, fail
from pbt.props.c01 import valid_value


def resolve(kids, path):
    s = next(k for k in kids if k['name'] == path[0])
    for n in path[1:]:
        s = next(k for k in ref.children(s) if k['name'] == n)
    return s


@st.composite
def paths(draw, kids, leaf_only=False):
    s = draw(st.sampled_from(kids))
    path = [s['name']]
    while ref.is_dict(s) and (leaf_only or draw(st.booleans())):
        s = draw(st.sampled_from(ref.children(s)))
        path.append(s['name'])
    return path


@st.composite
def many(draw):
    """A dictionary of more than ten entries."""
    n = draw(st.integers(11, 14))
    names = ['%s%d' % (draw(st.sampled_from(['p', 'layer_'])), k) for k in range(n)]
    if draw(st.booleans()):
        names = draw(st.permutations(names))
    kinds = draw(gen.vec(n, st.sampled_from(['scalar', 'scalar', 'vector', 'simplex'])))
    return [dict(t='scalar', name=nm, lb=None, ub=None) if k == 'scalar' else
            dict(t='vector', name=nm, size=2, lb=0.0, ub=None) if k == 'vector' else
            dict(t='simplex', name=nm, shape=[1, 2]) for nm, k in zip(names, kinds)]


@st.composite
def case(draw):
    names = list(draw(st.permutations(gen.NAMES)))
    init = [draw(gen.param(names.pop(), depth=1, small=True))
            for _ in range(draw(st.integers(1, 3)))]
    if draw(st.integers(0, 11)) == 0:
        init = draw(many())
    kids = {'o': list(init)}
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        on = draw(st.sampled_from(sorted(kids)))
        k = draw(st.sampled_from(['push', 'free', 'vec', 'cfree', 'cvec', 'cval',
                                  'cval_get', 'cval_values', 'range_vec',
                                  'range_free', 'copy', 'name']))
        if k == 'copy':
            kids['c' if on == 'o' else 'o'] = list(kids[on])
            ops.append(dict(k=k, on=on))
            continue
        here = kids[on]
        whole = dict(t='dict', name='w', children=here)
        op = dict(k=k, on=on)
        if k == 'push':
            used = set(c['name'] for c in here)
            free = [n for n in gen.NAMES if n not in used]
            op['spec'] = draw(gen.param(draw(st.sampled_from(free)), depth=1, small=True))
            kids[on] = here + [op['spec']]
        elif k == 'free':
            op['x'] = draw(gen.free_vec(whole))
        elif k == 'vec':
            op['x'] = draw(gen.point_vec(whole))
        elif k == 'name':
            op['name'] = draw(st.sampled_from(['model', 'renamed', 'q']))
        elif k in ('cfree', 'range_free'):
            op['path'] = draw(paths(here)) if k == 'cfree' else [draw(st.sampled_from(here))['name']]
            op['x'] = draw(gen.free_vec(resolve(here, op['path'])))
        elif k in ('cvec', 'range_vec'):
            op['path'] = draw(paths(here)) if k == 'cvec' else [draw(st.sampled_from(here))['name']]
            op['x'] = draw(gen.point_vec(resolve(here, op['path'])))
        else:
            op['path'] = draw(paths(here, leaf_only=True))
            op['x'] = draw(valid_value(resolve(here, op['path'])))
        ops.append(op)
    return dict(name=draw(st.sampled_from(['d', 'params'])), init=init, ops=ops)


def structure(kids, snap, what):
    """the snapshot is the ordered concatenation of its entries"""
    for keys in snap['idx_keys']:
        need(sorted(keys) == sorted(k['name'] for k in kids), '%s: index ranges of %s, expected %s',
             what, keys, [k['name'] for k in kids])
    need([e['name'] for e in snap['entries']] == [k['name'] for k in kids],
         '%s: entries %s, expected %s', what, [e['name'] for e in snap['entries']],
         [k['name'] for k in kids])
    fo = vo = 0
    vecs, frees, names = [], [], []
    for k, e in zip(kids, snap['entries']):
        w = '%s[%s]' % (what, k['name'])
        f, v = ref.sizes(k)
        need(e['free_size'] == f and e['vector_size'] == v, '%s: sizes %s, expected %s',
             w, (e['free_size'], e['vector_size']), (f, v))
        need(list(e['free_idx']) == list(range(fo, fo + f)), '%s: free index range %s, expected [%d, %d)',
             w, e['free_idx'], fo, fo + f)
        need(list(e['vec_idx']) == list(range(vo, vo + v)), '%s: vector index range %s, expected [%d, %d)',
             w, e['vec_idx'], vo, vo + v)
        fo, vo = fo + f, vo + v
        vec = np.asarray(e['vec'], float)
        check_shape(vec, (v,), w + ' vector')
        vecs.append(vec)
        if 'exc' in e['free']:
            fail('%s: get_free raised %s: %s', w, e['free']['exc'], e['free']['msg'])
        fr = np.asarray(e['free']['ret'], float)
        check_shape(fr, (f,), w + ' free vector')
        frees.append(fr)
        names += list(e['names'])
        if 'sub' in e:
            structure(ref.children(k), e['sub'], w)
            need(e['str'] == e['sub']['str'], '%s: printed forms differ', w)
            equal(np.asarray(e['sub']['vec'], float), vec, w + ' vector')
        else:
            need(not ref.is_dict(k), '%s is not a dictionary', w)
            val = np.asarray(e['value'], float)
            equal(val.ravel(), np.array(ref.vec_to_values(k, list(vec))), w + ' value')
            for how in ('via_get', 'via_values'):
                equal(np.asarray(e[how], float), val, w + ' value ' + how)
            equal(np.asarray(e['dictval'], float).ravel(), val.ravel(), w + ' plain-data dump')
            need(e['valstr'] in e['str'], '%s: printed form %r lacks the value %r', w, e['str'], e['valstr'])
    need(snap['free_size'] == fo and snap['vector_size'] == vo, '%s: sizes %s, expected %s',
         what, (snap['free_size'], snap['vector_size']), (fo, vo))
    equal(np.asarray(snap['vec'], float), np.concatenate(vecs), what + ' vector encoding')
    if 'exc' in snap['free']:
        fail('%s: get_free raised %s', what, snap['free']['exc'])
    equal(np.asarray(snap['free']['ret'], float), np.concatenate(frees), what + ' free encoding')
    need(list(snap['names']) == names, '%s: names %s, expected %s', what, snap['names'], names)
    for e in snap['entries']:
        need(all(e['name'] in n or 'sub' in e for n in e['names']), '%s: names of %s are %s',
             what, e['name'], e['names'])
    need(list(snap['dictkeys']) == [k['name'] for k in kids], '%s: dump lists %s', what, snap['dictkeys'])
    need(snap['plain'], '%s: the dump holds something other than dicts, lists and numbers: %s',
         what, snap['dictval'])
    for k, e in zip(kids, snap['entries']):
        need(dump_equal(snap['dictval'][k['name']], e['dictval']), '%s: dump of %s is %s, expected %s',
             what, k['name'], snap['dictval'][k['name']], e['dictval'])
    pos = snap['str'].find(snap['name'])
    need(pos == 0, '%s: printed form %r does not start with the name %r', what, snap['str'], snap['name'])
    pos = len(snap['name'])
    for e in snap['entries']:
        nxt = snap['str'].find(e['str'], pos)
        need(nxt >= 0, '%s: printed form lacks (in order) %r', what, e['str'])
        pos = nxt + len(e['str'])


def dump_equal(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and list(a) == list(b) and \
            all(dump_equal(a[k], b[k]) for k in a)
    return np.array_equal(np.asarray(a, float), np.asarray(b, float))


def value_vec(s, x):
    a = np.array([x] if isinstance(x, float) else x['a'], float)
    if s['t'].startswith('pd'):
        n = s['size']
        return np.concatenate([A[np.tril_indices(n)] for A in a.reshape((-1, n, n))])
    return a


def leaf_slices(kids, which):
    out, o = {}, 0
    whole = dict(t='dict', name='w', children=kids)
    for path, s in ref.leaf_specs(whole):
        k = ref.sizes(s)[which]
        out[path] = (o, o + k, s)
        o += k
    return out


def range_of(kids, path, which):
    sl = [v for p, v in leaf_slices(kids, which).items() if list(p[:len(path)]) == list(path)]
    return min(a for a, _, _ in sl), max(b for _, b, _ in sl)


def judge(case, obs):
    kids = {'o': list(case['init'])}
    name = {'o': case['name']}
    snaps = obs['snaps']
    structure(kids['o'], snaps[0]['o'], 'new dictionary')
    labels = []
    for i, op in enumerate(case['ops']):
        prev, now = snaps[i], snaps[i + 1]
        on, k = op['on'], op['k']
        what = 'after operation %d (%s)' % (i + 1, k)
        labels.append(k)
        if k == 'copy':
            to = 'c' if on == 'o' else 'o'
            kids[to], name[to] = list(kids[on]), name[on]
            prev = dict(prev)
            prev[to] = prev[on]
            on = None
        elif k == 'push':
            kids[on] = kids[on] + [op['spec']]
        elif k == 'name':
            name[on] = op['name']
        for w in sorted(kids):
            need(w in now, 'missing snapshot')
            need(now[w]['name'] == name[w], '%s: name %r, expected %r', what, now[w]['name'], name[w])
            structure(kids[w], now[w], what + (', the operated one' if w == on else ', the other one'))
            pv = np.asarray(prev[w]['vec'], float)
            pf = np.asarray(prev[w]['free']['ret'], float)
            nv = np.asarray(now[w]['vec'], float)
            nf = np.asarray(now[w]['free']['ret'], float)
            if w != on or k == 'name':
                equal(nv, pv, what + ': a dictionary that was not touched')
                if k == 'copy':
                    # a copy may hold its bases in another memory layout
                    close(nf, pf, what + ': the free encoding of the copy', rtol=1e-12,
                          atol=1e-12 * np.abs(pf).max())
                else:
                    equal(nf, pf, what + ': a dictionary that was not touched')
                continue
            if k == 'push':
                equal(nv[:len(pv)], pv, what + ': earlier entries')
                continue
            if k in ('free', 'vec'):
                path = []
            else:
                path = op['path']
            (va, vb) = range_of(kids[w], path, 1)
            (fa, fb) = range_of(kids[w], path, 0)
            out = np.ones(len(nv), bool)
            out[va:vb] = False
            if k == 'range_free':
                close(nv[out], pv[out], what + ': entries that were not named', rtol=1e-7, atol=1e-7)
            else:
                equal(nv[out], pv[out], what + ': entries that were not named')
            if k in ('free', 'cfree', 'range_free'):
                x = np.array(op['x'])
                close(nf[fa:fb], x, what + ': free encoding of the entry set', rtol=1e-6, atol=1e-6)
                o = 0
                for p, (a, b, s) in leaf_slices(kids[w], 1).items():
                    if list(p[:len(path)]) != list(path):
                        continue
                    n = ref.sizes(s)[0]
                    if s['t'] != 'subspace':
                        want = np.array(ref.free_to_vec(s, list(x[o:o + n])), float)
                        close(nv[a:b], want, what + ': value of the entry set', rtol=1e-9,
                              atol=1e-12 * np.abs(want).max())
                    o += n
            elif k in ('vec', 'cvec', 'range_vec'):
                equal(nv[va:vb], np.array(op['x']), what + ': vector encoding of the entry set')
            else:
                s = resolve(kids[w], path)
                equal(nv[va:vb], value_vec(s, op['x']), what + ': value of the entry set')
    return labels


def nontrivial(c):
    return len(c['ops']) >= 2 and len(set(o['k'] for o in c['ops'])) >= 2


PROP = Prop(
    'C05', ['ex_params'],
    [Sub('history', case(), 'c05', judge, 2000, 32000, nontrivial=nontrivial)],
    rule='Histories of up to six operations (push, set free/vector of the whole or of a nested '
         'entry, set a value by name, through get() or through values, set through an index '
         'range, deep copy, rename) on a dictionary and its copy, the whole visible state '
         'snapshotted after each; non-trivial = at least two operations of different kinds. '
         'Oracle: an ordered list of entries.',
    assumptions=['Names pushed to one dictionary are distinct; a child dictionary is not '
                 'extended after it was pushed.'])
