"""Pieces shared by the engine and the properties' judges."""
import math
import numpy as np


class Violation(Exception):
    """The library's observed behaviour contradicts the property."""


class Skip(Exception):
    """The case is outside what can be judged (ill-conditioned); not counted."""


class HarnessError(Exception):
    """Something is wrong with the machinery, not with the library."""


class Sparse(object):
    def __init__(self, o):
        self.fmt = o['sp']
        self.shape = tuple(o['s'])
        self.kind = o['d']
        self.rows, self.cols = o['r'], o['c']
        self.raw = o['v']
        self.vals = [float(v) for v in o['v']]

    def dense(self):
        out = np.zeros(self.shape)
        for r, c, v in zip(self.rows, self.cols, self.vals):
            if not (0 <= r < self.shape[0] and 0 <= c < self.shape[1]):
                raise Violation('sparse entry (%d,%d) outside %s'
                                % (r, c, self.shape))
            out[r, c] += v
        return out


def dec(o, where=''):
    if isinstance(o, dict):
        if 'weird' in o:
            raise Violation('%s is not plain numbers: %s' % (where, o['weird']))
        if 'sp' in o:
            return Sparse(o)
        if set(o) == {'a', 's', 'd'}:
            kind = o['d']
            vals = o['a']
            for v in vals:
                if isinstance(v, dict):
                    raise Violation('%s holds %s' % (where, v))
            dt = {'f': float, 'i': 'int64', 'u': 'int64', 'b': bool}.get(kind, object)
            return np.array(vals, dtype=dt).reshape(o['s'])
        return {k: dec(v, where + '.' + k) for k, v in o.items()}
    if isinstance(o, list):
        return [dec(v, '%s[%d]' % (where, i)) for i, v in enumerate(o)]
    return o


def dense(x):
    return x.dense() if isinstance(x, Sparse) else np.asarray(x)


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def check_shape(got, shape, what):
    s = got.shape if hasattr(got, 'shape') else np.shape(got)
    if tuple(s) != tuple(shape):
        raise Violation('%s has shape %s, expected %s' % (what, tuple(s), tuple(shape)))


def close(got, want, what, rtol=1e-9, atol=1e-11, shape=True):
    """Elementwise |got-want| <= atol + rtol*|want|; atol may be an array."""
    if isinstance(got, Sparse):
        got = got.dense()
    try:
        got = np.asarray(got, dtype=float)
    except (TypeError, ValueError):
        raise Violation('%s is not numeric: %r' % (what, got))
    want = np.asarray(want, dtype=float)
    if shape and got.shape != want.shape:
        raise Violation('%s has shape %s, expected %s'
                        % (what, got.shape, want.shape))
    if got.size == 0 and want.size == 0:
        return
    with np.errstate(invalid='ignore', over='ignore'):
        err = np.abs(got - want)
        tol = atol + rtol * np.abs(want)
        bad = ~((err <= tol) | (got == want))
    bad = bad & ~(np.isnan(got) & np.isnan(want))
    if np.any(bad):
        i = np.unravel_index(np.argmax(np.where(bad, np.nan_to_num(err, nan=np.inf, posinf=np.inf), -1)), bad.shape) if bad.shape else ()
        tl = np.broadcast_to(tol, bad.shape)[i]
        raise Violation('%s: entry %s is %r, expected %r (tolerance %.3g)'
                        % (what, tuple(int(k) for k in i), float(got[i]),
                           float(want[i]), float(tl)))


def equal(got, want, what):
    """Exact equality, shapes included."""
    if isinstance(got, Sparse):
        got = got.dense()
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape:
        raise Violation('%s has shape %s, expected %s' % (what, g.shape, w.shape))
    if not np.array_equal(g, w):
        bad = np.argwhere(g != w)
        i = tuple(int(k) for k in bad[0]) if bad.size else ()
        raise Violation('%s: entry %s is %r, expected exactly %r'
                        % (what, i, g[i].item() if g.size else g, w[i].item() if w.size else w))


class Sub(object):
    """One generated check of a property.

    strategy : Hypothesis strategy of JSON-able cases
    ex       : name of the worker-side executor
    judge    : judge(case, obs) -> None | iterable of class labels
    nontrivial(case) -> bool
    quick    : examples in the quick tier (over all shards)
    thorough : examples in the thorough tier
    """

    def __init__(self, name, strategy, ex, judge, quick, thorough=None,
                 nontrivial=None, on_exc=None):
        self.name = name
        self.strategy = strategy
        self.ex = ex
        self.judge = judge
        self.quick = quick
        self.thorough = thorough or quick * 20
        self.nontrivial = nontrivial or (lambda case: True)
        self.on_exc = on_exc


class Prop(object):
    def __init__(self, pid, executors, subs, rule, assumptions=(), findings=()):
        self.pid = pid
        self.executors = executors
        self.subs = subs
        self.rule = rule
        self.assumptions = list(assumptions)
        # known findings: list of (key, predicate(sub, case, message))
        self.findings = list(findings)
