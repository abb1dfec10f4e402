import numpy as np
from hypothesis import strategies as st, assume

from pbt import gen, ref, jets, sens
from pbt.funs import units
from pbt.core import Prop, Sub, need, close, equal
from pbt.props.c11 import converter, apply


@st.composite
def common(draw, p):
    p['part'] = draw(st.booleans())
    p['unit'], p['reuse'] = draw(units), draw(st.booleans())
    p['rebase'] = draw(st.booleans())
    p['scribble'], p['move'] = draw(st.booleans()), draw(st.booleans())
    n = len(p['x0'])
    p['hess'] = None
    if draw(st.integers(0, 2)) == 0:
        # a Hessian of the caller's own
        A = np.array(draw(gen.vec(n * n, st.sampled_from([0.0, 0.5, -0.25, 1.0])))).reshape(n, n)
        p['hess'] = (A @ A.T + np.diag(draw(gen.vec(n, st.sampled_from([1.0, 2.0, 4.0]))))).tolist()
    kind = draw(st.sampled_from(['both', 'both', 'input', 'hyper']))
    if kind != 'both' and p['rebase']:
        # only one of the two moves
        if kind == 'input':
            p['h1'] = list(p['h0'])
            p['x1'] = draw(gen.free_vec(p['sa'], -1, 1) if p['afree'] else
                           gen.point_vec(p['sa'], -1, 1))
        else:
            p['x1'] = list(p['x0'])
        try:
            ok = sens.good(sens.derivs(p, p['x1'], p['h1'])[1])
        except (ValueError, ZeroDivisionError, OverflowError, np.linalg.LinAlgError):
            ok = False
        assume(ok)
    p['news'] = [[a + b for a, b in zip(p['h0'], draw(gen.vec(len(p['h0']), gen.nice)))]
                 for _ in range(draw(st.integers(1, 2)))]
    if p['whole']:
        p['news'][0] = gen.whole(p['news'][0])
    return p


@st.composite
def case(draw):
    big = {0: 'a', 1: 'b', 2: 'a'}.get(draw(st.integers(0, 23)))
    p = draw(common(draw(sens.problem(big=big))))
    p['defaults'] = draw(st.booleans())
    p['hess1'] = p['hess'] if draw(st.booleans()) else None
    return p


@st.composite
def case_old(draw):
    p = draw(common(draw(sens.problem(force_free=(True, False)))))
    p['sc'] = draw(gen.param('out', depth=1, small=True).filter(lambda s: ref.sizes(s)[1] <= 5))
    p['conv'] = draw(converter(p['sa'], p['sc']))
    p['opt'] = draw(st.booleans())
    return p


def expected(case, x, h, hess):
    g, H, C = sens.derivs(case, x, h)
    if hess is not None:
        H = np.array(hess)
    return -np.linalg.solve(H, C), np.abs(H).max()


def lin(r, x, h, D, news, labels):
    s = 1 + np.abs(D).max() + np.abs(x).max()
    close(r['D'], D, 'derivative of the optimum', rtol=1e-7, atol=1e-9 * s)
    equal(np.asarray(r['base'], float), np.array(x, float) + 0.0,
          'prediction at the base hyperparameter')
    for new, got in zip(news, r['pred']):
        d = np.array(new) - np.array(h)
        close(got, np.array(x) + D @ d, 'predicted optimum', rtol=1e-7,
              atol=1e-8 * s * (1 + np.abs(d).sum()))


def judge(case, obs):
    labels = ['part' if case['part'] else 'whole', 'hess0' if case['hess'] else 'own',
              'afree' if case['afree'] else 'avec', 'bfree' if case['bfree'] else 'bvec']
    pts = [(case['x0'], case['h0'], case['hess']), (case.get('x1'), case.get('h1'), case['hess1'])]
    for r, (x, h, hess) in zip(obs['rounds'], pts):
        D, _ = expected(case, x, h, hess)
        lin(r, x, h, D, case['news'], labels)
    return labels + (['rebased'] if case['rebase'] else [])


def judge_old(case, obs):
    labels = ['part' if case['part'] else 'whole', 'hess0' if case['hess'] else 'own']
    pts = [(case['x0'], case['h0'], case['hess']), (case.get('x1'), case.get('h1'), None)]
    bc = obs['bases_c']
    ref.check_bases(case['sc'], bc)
    c11 = dict(spec2=case['sc'], conv=case['conv'])

    def out_at(x):
        vec, _ = apply(c11, sens.values(case['sa'], x, True), bc)
        return vec
    for r, (x, h, hess) in zip(obs['rounds'], pts):
        if not case['opt']:
            # the base point was read back from the parameter
            close(r['base'], np.array(x), 'base point read from the parameter',
                  rtol=1e-7, atol=1e-8)
            x = np.asarray(r['base'], float).tolist()
        D, _ = expected(case, x, h, hess)
        if case['opt']:
            lin(r, x, h, D, case['news'], labels)
        else:
            close(r['D'], D, 'derivative of the optimum', rtol=1e-6,
                  atol=1e-7 * (1 + np.abs(D).max()))
        n = len(x)
        y = [jets.d2_parts(v, n) for v in out_at(jets.D2.variables(x))]
        y0, J = np.array([v[0] for v in y]), np.array([v[1] for v in y])
        s = 1 + np.abs(y0).max() + np.abs(J).max() * (1 + np.abs(D).max())
        close(r['DO'], J @ D, 'derivative of the output', rtol=1e-6, atol=1e-7 * s)
        close(r['base_lin'], y0, 'linear output prediction at the base', rtol=1e-8, atol=1e-9 * s)
        close(r['base_plug'], y0, 'plug-in output prediction at the base', rtol=1e-8,
              atol=1e-9 * s)
        for new, a, b in zip(case['news'], r['lin'], r['plug']):
            d = np.array(new) - np.array(h)
            t = s * (1 + np.abs(d).sum())
            close(a, y0 + J @ D @ d, 'linear output prediction', rtol=1e-6, atol=1e-7 * t)
            xp = np.array(x) + D @ d
            if np.abs(xp).max() < 8:
                want = np.array(out_at(xp.tolist()), float)
                need('ret' in b, 'plug-in prediction of the output failed: %s' % b.get('msg'))
                close(b['ret'], want, 'plug-in output prediction', rtol=1e-4,
                      atol=1e-5 * (t + np.abs(want).max()))
                labels.append('plug')
    return labels


PROP = Prop(
    'C12', ['ex_obj', 'ex_sens'],
    [Sub('linear', case(), 'c12', judge, 1440, 14400),
     Sub('deprecated', case_old(), 'c12_old', judge_old, 480, 4800)],
    rule='Generated problems, stationary and strictly convex at the base point, in every '
         'combination of encodings; optionally the hyperparameter part, a Hessian supplied by the '
         'caller, re-basing to the solution at another hyperparameter, the arrays given as base '
         'point changed in place and the parameters moved before the predictions. All cases are non-trivial '
         '(the objective ties input and hyperparameter).',
    assumptions=['Condition number of the Hessian at most 1e4.'])
