"""Executors for the sensitivity objects (C09 second part, C12, C13)."""
import copy
import warnings

import numpy as onp
import autograd.numpy as np

import LinearResponseVariationalBayes as vb
import LinearResponseVariationalBayes.ModelSensitivity as ms
import LinearResponseVariationalBayes.SparseObjectives as obj_lib

from base import (executor, layout, Buffers, build, bases, flat_values, arr, ints, attempt,
                  eval_objective,
                  eval_terms)


class Problem(object):
    def __init__(self, case):
        self.case = case
        self.whole = bool(case.get("whole"))
        self.a, self.b = build(case['sa']), build(case['sb'])
        va = lambda: flat_values(case['sa'], self.a)
        vb_ = lambda: flat_values(case['sb'], self.b)
        u = self.unit = case.get('unit', 1.0)
        self.part = lambda: u * eval_objective(case['G'], np.hstack([va(), vb_()]))
        self.full = lambda: u * eval_objective(case['F'], va()) + self.part()

    def set(self, x, h):
        c = self.case
        (self.a.set_free if c['afree'] else self.a.set_vector)(arr(x))
        (self.b.set_free if c['bfree'] else self.b.set_vector)(arr(h))

    def state(self):
        return {'in': onp.array(self.a.get_vector()), 'hyper': onp.array(self.b.get_vector())}

    def kw(self, hess=None):
        c = self.case
        kw = dict(input_is_free=c['afree'], hyper_is_free=c['bfree'])
        if c['afree'] and c.get('defaults'):
            kw.pop('input_is_free')
        if not c['bfree'] and c.get('defaults'):
            kw.pop('hyper_is_free')
        if hess is not None:
            kw['hess0'] = layout(self.unit * arr(hess))
        if c.get('part'):
            kw['hyper_par_objective_functor'] = self.part
        return kw

    def taylor(self, hess=None):
        c = self.case
        x, h = arr(c['x0']), arr(c['h0'])
        s = ms.ParametricSensitivityTaylorExpansion(
            self.full, self.a, self.b, x, h, c['order'], **self.kw(hess))
        self.after(x, h)
        return s

    def linear(self, hess=None):
        c = self.case
        x, h = arr(c['x0']), arr(c['h0'])
        s = ms.ParametricSensitivityLinearApproximation(
            self.full, self.a, self.b, x, h, **self.kw(hess))
        self.after(x, h)
        return s

    def rebase(self, s, hess=None):
        c = self.case
        x, h = arr(c['x1']), arr(c['h1'])
        s.set_base_values(x, h, **({} if hess is None else {'hess0': layout(self.unit * arr(hess))}))
        self.after(x, h)

    def after(self, *given):
        """What the caller may do once a base point has been set."""
        c = self.case
        if c.get('scribble'):
            for a in given:
                a += 1
        if c.get('move'):
            self.a.set_free(onp.full(self.a.free_size(), 0.25))
            self.b.set_free(onp.full(self.b.free_size(), -0.5))

    def old(self, out, conv, hess=None, opt=True):
        c = self.case
        kw = {}
        x = arr(c['x0'])
        if opt:
            kw['optimal_input_par'] = x
        if hess is not None:
            kw['objective_hessian'] = layout(self.unit * arr(hess))
        if c.get('part'):
            kw['hyper_par_objective_fun'] = self.part
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            s = obj_lib.ParametricSensitivity(
                self.full, self.a, out, self.b, conv, **kw)
        self.after(x)
        return s


@executor('c09_sens')
def c09_sens(case):
    P = Problem(case)
    out = vb.VectorParam('out', 2)

    def conv():
        v = flat_values(case['sa'], P.a)
        out.set_vector(np.array([np.sum(v), np.sum(v * v)]))
    dh = arr(case['dh'])
    if case['cls'] == 'taylor':
        s = P.taylor()
    elif case['cls'] == 'linear':
        s = P.linear()
    else:
        P.set(case['x0'], case['h0'])
        s = P.old(out, conv)
    res = {'start': P.state(), 'snaps': []}
    h = arr(case['h0'])
    for c in case['calls']:
        if case['cls'] == 'taylor':
            if c == 'deriv':
                s.evaluate_dkinput_dhyperk(dh, s.order)
            elif c == 'predict':
                s.evaluate_taylor_series(dh)
            elif c == 'set_order':
                s.set_order(3 - s.order)
            elif c == 'rebase':
                s.set_base_values(arr(case['x1']), arr(case['h1']))
            elif c == 'move':
                P.a.set_free(onp.zeros(P.a.free_size()))
                P.b.set_free(onp.zeros(P.b.free_size()))
        else:
            if c == 'deriv':
                s.get_dinput_dhyper()
                if case['cls'] == 'old':
                    s.get_doutput_dhyper()
            elif c == 'predict':
                s.predict_input_par_from_hyperparameters(h + dh)
            elif c == 'rebase':
                if case['cls'] == 'linear':
                    s.set_base_values(arr(case['x1']), arr(case['h1']))
                else:
                    P.b.set_vector(arr(case['h1']))
                    s.set_optimal_input_par(arr(case['x1']))
        res['snaps'].append(P.state())
    return res


@executor('c12')
def c12(case):
    P = Problem(case)
    hess = case.get('hess')
    s = P.linear(hess)
    res = {'rounds': []}

    def look(h_new):
        return {'D': s.get_dinput_dhyper(),
                'base': s.predict_input_par_from_hyperparameters(arr(case['h_now'])),
                'pred': [onp.array(s.predict_input_par_from_hyperparameters(buf('h', ints(x, P.whole))))
                         for x in h_new]}
    buf = Buffers(case.get('reuse'))
    case = dict(case, h_now=case['h0'])
    res['rounds'].append(look(case['news']))
    if case['rebase']:
        P.rebase(s, case.get('hess1'))
        case['h_now'] = case['h1']
        res['rounds'].append(look(case['news']))
    return res


@executor('c12_old')
def c12_old(case):
    P = Problem(case)
    out = build(case['sc'])
    rows = case['conv']['rows']

    def conv():
        v = flat_values(case['sa'], P.a)
        y = np.array([eval_terms(r, v) for r in rows])
        (out.set_free if case['conv']['mode'] == 'free' else out.set_vector)(y)
    P.set(case['x0'], case['h0'])
    res = {'rounds': [], 'bases_c': bases(case['sc'])}
    s = P.old(out, conv, case.get('hess'), opt=case['opt'])

    def look(h):
        return {'D': s.get_dinput_dhyper(), 'DO': s.get_doutput_dhyper(),
                'base': s.predict_input_par_from_hyperparameters(arr(h)),
                'base_lin': s.predict_output_par_from_hyperparameters(arr(h), True),
                'base_plug': s.predict_output_par_from_hyperparameters(arr(h), False),
                'pred': [onp.array(s.predict_input_par_from_hyperparameters(buf('h', ints(x, P.whole))))
                         for x in case['news']],
                'lin': [onp.array(s.predict_output_par_from_hyperparameters(buf('h', ints(x, P.whole)), True))
                        for x in case['news']],
                'plug': [attempt(lambda: onp.array(s.predict_output_par_from_hyperparameters(
                    buf('h', ints(x, P.whole)), linear=False))) for x in case['news']]}
    buf = Buffers(case.get('reuse'))
    res['rounds'].append(look(case['h0']))
    if case['rebase']:
        P.b.set_vector(arr(case['h1']))
        x = arr(case['x1'])
        if case['opt']:
            s.set_optimal_input_par(x)
        else:
            P.a.set_free(x)
            s.set_optimal_input_par()
        P.after(x)
        res['rounds'].append(look(case['h1']))
    return res


@executor('c13')
def c13(case):
    P = Problem(case)
    s = P.taylor(case.get('hess'))
    res = {'rounds': []}
    buf = Buffers(case.get('reuse'))

    def look():
        r = {'order': int(s.order), 'dirs': []}
        for d in case['dirs']:
            d = buf('d', ints(d, P.whole))
            q = {'derivs': [s.evaluate_dkinput_dhyperk(d, k) for k in range(1, s.order + 1)],
                 'default': s.evaluate_taylor_series(d)}
            k = q['k'] = 1 + case['pick'] % s.order
            q['series'] = s.evaluate_taylor_series(d, max_order=k)
            if s.order < 3 or case['pick'] % 2:
                q['bare'] = s.evaluate_taylor_series(d, add_offset=False)
            q.update({
                 'bare1': s.evaluate_taylor_series(d, add_offset=False, max_order=1),
                 'arg': d})
            r['dirs'].append(copy.deepcopy(q))
        d = arr(case['dirs'][0])
        c = case['factor']
        r['scaled'] = [s.evaluate_dkinput_dhyperk(c * d, k) for k in range(1, s.order + 1)]
        r['refused'] = ['exc' in attempt(lambda: s.evaluate_dkinput_dhyperk(d, k))
                        for k in (0, -1, s.order + 1, s.order + 3)] + \
                       ['exc' in attempt(lambda: s.evaluate_taylor_series(d, max_order=k))
                        for k in (0, -1, s.order + 1)]
        return r
    res['rounds'].append(look())
    lin = P.linear(case.get('hess'))
    res['linear'] = [lin.predict_input_par_from_hyperparameters(arr(case['h0']) + arr(d))
                     for d in case['dirs']]
    for op in case['ops']:
        if op == 'rebase':
            P.rebase(s)
        else:
            s.set_order(op)
        res['rounds'].append(look())
    # the same evaluation before and after others
    d = arr(case['dirs'][0])
    first = onp.array(s.evaluate_taylor_series(d, max_order=1))
    for c in (1e9, 1.37e7, -3.1e5):
        s.evaluate_taylor_series(c * d, max_order=1)
    res['same'] = [first, onp.array(s.evaluate_taylor_series(d, max_order=1))]
    return res
