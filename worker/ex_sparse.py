"""Executors for sparse helpers and the logger."""
import io
import json
import contextlib

import numpy as onp
import scipy.sparse as osparse
import autograd.numpy as np

import LinearResponseVariationalBayes as vb
import LinearResponseVariationalBayes.SparseObjectives as obj_lib
import LinearResponseVariationalBayes.Parameters as par_lib

from base import executor, build, arr, ints
from ex_obj import make_fun, matrix
from base import flat_values, bases


def csr(m):
    return osparse.csr_matrix(
        (onp.array(m['data'], dtype=m['t']), onp.array(m['indices'], dtype='int32'),
         onp.array(m['indptr'], dtype='int32')), shape=tuple(m['shape']))


def facts(m):
    return {'m': m, 'format': getattr(m, 'format', None), 'dtype': str(m.dtype),
            'shape': [int(k) for k in m.shape]}


@executor('c24_pack')
def c24_pack(case):
    m = csr(case['m'])
    other = m if case['from'] == 'csr' else getattr(m, 'to' + case['from'])()

    def state(x):
        # stored entries, whatever their order
        c = osparse.coo_matrix(x)
        return str(x.dtype), sorted(zip(c.row.tolist(), c.col.tolist(), c.data.tolist()))
    keep, keep_other = state(m), state(other)
    out = {'mem': facts(obj_lib.unpack_csr_matrix(obj_lib.pack_csr_matrix(other))),
           'nnz': int(m.nnz)}
    d = obj_lib.json_pack_csr_matrix(m)
    out['json'] = facts(obj_lib.json_unpack_csr_matrix(d))
    text = json.dumps({'a': d})
    out['text'] = facts(obj_lib.json_unpack_csr_matrix(json.loads(text)['a']))
    out['kept'] = bool(keep == state(m) and keep_other == state(other))
    return out


@executor('c24_embed')
def c24_embed(case):
    b = arr(case['b'])
    if 'im' in case['b']:
        b = b + 1j * arr(dict(case['b'], a=case['b']['im']))
    keep = onp.array(b)
    ind = lambda v: onp.array(v, dtype=int) if case['as_array'] else list(v)
    rows, cols = ind(case['rows']), ind(case['cols'])
    out = {'sub': facts(obj_lib.get_sparse_sub_matrix(
        sub_matrix=b, row_indices=rows, col_indices=cols,
        row_dim=case['rd'], col_dim=case['cd']))}
    if b.shape[0] == b.shape[1]:
        out['hess'] = facts(obj_lib.get_sparse_sub_hessian(b, rows, case['rd']))
    coo = osparse.coo_matrix(b)
    out['offset'] = facts(par_lib.offset_sparse_matrix(
        coo, tuple(case['offset']), tuple(case['full'])))
    out['kept'] = bool(onp.array_equal(b, keep))
    if b.dtype.kind == 'c':
        for k in ('sub', 'hess', 'offset'):
            if k in out:
                m = out[k]['m']
                out[k] = facts(m.real)
                out[k + '_im'] = facts(m.imag)
    return out


@executor('c24_mul')
def c24_mul(case):
    x, y = matrix(case['x']), matrix(case['y'])
    if case['y'].get('vec'):
        y = ints(case['y']['m'], case['y'].get('t') == 'int64')
    z = obj_lib.safe_matmul(x, y)
    out = {'z': z, 'compress': obj_lib.compress(z)}
    return out


@executor('c25')
def c25(case):
    spec = case['spec']
    p = build(spec)
    o = obj_lib.Objective(p, make_fun(lambda: flat_values(spec, p), case))
    quiet = build(spec)
    oq = obj_lib.Objective(quiet, make_fun(lambda: flat_values(spec, quiet), case))
    # another objective, which logs as well
    o2 = obj_lib.Objective(build(spec), lambda: 1.0)
    o2.logger.callback = lambda logger: None
    out = {'ops': []}
    events = []

    def callback(logger):
        events.append({'n': len(logger.x_array), 'm': len(logger.val_array),
                       'x': onp.array(logger.x_array[-1]) if logger.x_array else None,
                       'val': logger.val_array[-1] if logger.val_array else None,
                       'cur': logger.value, 'curx': onp.array(logger.x),
                       'same': logger is o.logger})
    for op in case['ops']:
        r = {}
        del events[:]
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            k = op['op']
            if k == 'reset':
                o.logger.initialize()
            elif k == 'every':
                o.logger.print_every = op['n']
            elif k == 'callback':
                o.logger.callback = callback if op['on'] else None
            elif k == 'pre':
                o.preconditioner = matrix(op['P'])
            elif k == 'grad':
                o.fun_free_grad(arr(op['x']))
            elif k == 'other':
                if op['reset']:
                    o2.logger.initialize()
                for _ in range(op['times']):
                    o2.fun_free(arr(op['x']), verbose=True)
            elif k == 'hvp':
                o.fun_free_hvp(arr(op['x']), arr(op['x']))
            elif k == 'burst':
                x0, step = arr(op['x']), arr(op['step'])
                r['values'] = [float(o.fun_free(x0 + i * step, verbose=True))
                               for i in range(op['times'])]
            else:
                x = ints(op['x'], op.get('whole'))
                cond = k == 'cond'
                if cond:
                    oq.preconditioner = o.preconditioner
                f = o.fun_free_cond if cond else o.fun_free
                fq = oq.fun_free_cond if cond else oq.fun_free
                kw = dict(op['kw'])
                if op['verbose'] is not None:
                    kw['verbose'] = op['verbose']
                r['value'] = f(x, *op['args'], **kw)
                r['quiet'] = fq(x, *op['args'], **op['kw'])
                r['x'] = onp.array(x)
                if op['reuse']:
                    x[:] = 77.0
        r['printed'] = len(buf.getvalue().strip()) > 0
        r['events'] = list(events)
        r['xs'] = [onp.array(v) for v in o.logger.x_array]
        r['vals'] = [float(v) for v in o.logger.val_array]
        r['iter'] = int(o.logger.iter)
        r['other'] = [len(o2.logger.x_array), len(o2.logger.val_array), int(o2.logger.iter)]
        out['ops'].append(r)
    out['bases'] = bases(spec)
    return out
