import numpy as np
from hypothesis import strategies as st, assume

from pbt import gen, ref, jets
from pbt.core import Prop, Sub, Skip, need, close, equal


@st.composite
def free_leaf(draw, name):
    t = draw(st.sampled_from(['scalar', 'vector', 'vector', 'array']))
    s = dict(t=t, name=name, lb=draw(st.sampled_from([None, None, 0.0])), ub=None)
    if t == 'vector':
        s['size'] = draw(st.integers(1, 4))
    elif t == 'array':
        s['shape'] = draw(st.lists(st.integers(1, 2), min_size=1, max_size=2))
    return s


@st.composite
def spec(draw):
    if draw(st.booleans()):
        return draw(free_leaf('p'))
    names = draw(st.lists(st.sampled_from(gen.NAMES), min_size=1, max_size=2, unique=True))
    return dict(t='dict', name='p', children=[draw(free_leaf(n)) for n in names])


@st.composite
def convex(draw):
    """A parameter and a strictly convex function of its free coordinates."""
    sp = draw(spec())
    if draw(st.integers(0, 19)) == 0:
        sp = dict(t='vector', name='p', size=draw(st.integers(8, 14)), lb=sp.get('lb'), ub=None)
    n = ref.sizes(sp)[0]
    q = st.integers(-4, 4).map(lambda a: a / 4.0)
    L = np.array(draw(gen.vec(n * n, q)) if n < 8 else gen.pattern(draw, n * n, q, 17)).reshape(n, n)
    L = L if n < 8 else L * (6.0 / n)
    A = L @ L.T + np.diag(draw(gen.vec(n, st.sampled_from([0.3, 1.0, 1.0, 4.0, 20.0]))))
    ts = []
    for _ in range(draw(st.integers(0, 3))):
        ts.append(dict(p=draw(st.sampled_from(['sp', 'exp', 'sq', 'quart'])),
                       a=draw(gen.vec(n, q)), b=draw(q), w=draw(st.sampled_from([0.5, 1.0, 2.0]))))
    return dict(spec=sp, A=A.tolist(), b=draw(gen.vec(n, gen.nice)), terms=ts)


def objective(case, x):
    A = np.array(case['A'])
    n = len(x)
    tot = ref.eval_terms(case['terms'], x)
    for i in range(n):
        s = 0.0
        for j in range(n):
            s = x[j] * (0.5 * A[i, j]) + s
        tot = x[i] * s + x[i] * case['b'][i] + tot
    return tot


def derivs(case, x):
    return jets.d2_parts(objective(case, jets.D2.variables(list(x))), len(x))


def optimum(case):
    """Damped Newton; the function is strictly convex."""
    x = np.zeros(len(case['b']))
    for _ in range(200):
        f, g, H = derivs(case, x)
        step = np.linalg.solve(H, g)
        t = 1.0
        while t > 1e-12 and not derivs(case, x - t * step)[0] <= f - 0.1 * t * g @ step + 1e-14 * (1 + abs(f)):
            t /= 2
        x = x - t * step
        if np.abs(step).max() < 1e-13 * (1 + np.abs(x).max()):
            return x
    raise Skip('no optimum found')


@st.composite
def case(draw):
    c = draw(convex())
    n = len(c['b'])
    kind = draw(st.sampled_from(['none', 'hess', 'hess', 'matrix', 'matrix']))
    c['pre'] = dict(kind=kind)
    if kind == 'hess':
        lo = draw(st.sampled_from([None, 0.5, 2.0]))
        c['pre'].update(at=draw(gen.vec(n, gen.nice)), ev_min=lo,
                        ev_max=draw(st.sampled_from([None, 3.0, 10.0])))
    elif kind == 'matrix':
        m = np.array(draw(gen.vec(n * n, st.sampled_from([0.0, 0.25, -0.5, 1.0])))).reshape(n, n)
        d = draw(gen.vec(n, st.sampled_from([1.0, 2.0, -1.5, 0.5])))
        m = m + np.diag([np.sign(a) * (abs(a) + np.abs(m[i]).sum()) for i, a in enumerate(d)])
        if n > 1 and draw(st.booleans()):
            m = m[draw(st.permutations(list(range(n))))]
        c['pre']['m'] = (m / max(1.0, np.abs(m).sum(axis=1).max() / 2.0)).tolist()
    c['use_pre'] = kind != 'none' and draw(st.sampled_from([True, True, True, False]))
    c['method'] = draw(st.sampled_from(['ncg', 'bfgs']))
    kw = {}
    short = draw(st.integers(0, 7)) == 0
    kw['maxiter'] = draw(st.integers(1, 4)) if short else draw(st.sampled_from([400, 1000]))
    c['short'] = short
    d = draw(st.sampled_from([None, True, True, False]))
    if d is not None:
        kw['disp'] = d
    e = draw(st.sampled_from([None, 1, 2, 3]))
    if e is not None:
        kw['print_every'] = e
    i = draw(st.sampled_from([None, True, False, False]))
    if i is not None:
        kw['init_logger'] = i
    if c['method'] == 'ncg' and draw(st.booleans()):
        kw['gtol'] = draw(st.sampled_from([1e-4, 1e-8, 1e-2]))
    c['kw'] = kw
    c['x0'] = draw(gen.vec(n, gen.real(-3, 3)))
    c['whole'] = draw(st.sampled_from([False, False, False, True]))
    if c['whole']:
        # a starting point given as integers
        c['x0'] = gen.whole(c['x0'])
    # this scipy's trust-region method divides 0 by 0 when it starts exactly at the optimum
    assume(np.abs(derivs(c, c['x0'])[1]).max() > 1e-3)
    c['warm'] = [draw(gen.vec(n, gen.nice)) for _ in range(draw(st.integers(0, 2)))]
    c['callback'] = draw(st.booleans())
    return c


def judge(case, obs):
    n = len(case['b'])
    kw = case['kw']
    x, res = obs['x'], obs['res']
    equal(obs['x0'], np.array(case['x0'], float), 'the caller\'s starting point')
    P = np.eye(n) if not case['use_pre'] else obs['P']
    if 'P' in obs:
        equal(obs['P_after'], obs['P'], 'the preconditioner after optimizing')
    if case['pre']['kind'] == 'hess':
        H = derivs(case, case['pre']['at'])[2]
        close(obs['hess'], H, 'Hessian used for the preconditioner', rtol=1e-8, atol=1e-9 * (1 + np.abs(H).max()))
    if np.linalg.cond(P) > 1e4:
        raise Skip('preconditioner')
    # same coordinates
    close(x, P @ res['x'], 'returned point against the optimizer\'s', rtol=1e-10, atol=1e-10)
    need(obs.get('same', True), 'the optimizer result was changed')
    xs = np.array(x)
    need(np.all(np.isfinite(xs)), 'the returned point is not finite')
    need(res['nit'] <= kw['maxiter'], 'took %s iterations of %s', res['nit'], kw['maxiter'])
    f, g, H = derivs(case, xs)
    close(obs['f'], f, 'objective at the returned point', rtol=1e-9, atol=1e-9)
    close(res['fun'], f, 'value reported with the returned point', rtol=1e-9, atol=1e-8 * (1 + abs(f)))
    gP = P.T @ g
    close(res['jac'], gP, 'gradient reported with the result', rtol=1e-7, atol=1e-7 * (1 + np.abs(H).max()))
    f0 = derivs(case, case['x0'])[0]
    need(f <= f0 + 1e-8 * (1 + abs(f0)), 'the returned point is worse than the starting point')
    xstar = optimum(case)
    labels = [case['method'], case['pre']['kind'] if case['use_pre'] else 'unconditioned']
    mu = np.linalg.eigvalsh(np.array(case['A']))[0]
    if case['short']:
        labels.append('short')
    else:
        gtol = kw.get('gtol', 1e-6) if case['method'] == 'ncg' else 1e-5 * np.sqrt(n)
        if res['success']:
            tol = gtol * np.linalg.norm(np.linalg.inv(P), 2) * 1.01 + 1e-8
        else:
            # the optimizer ran out of precision
            labels.append('not_converged')
            tol = 1e-3 * (1 + np.abs(H).max())
        need(np.linalg.norm(g) <= tol, 'gradient at the returned point is %.3g (allowed %.3g)',
             np.linalg.norm(g), tol)
        close(xs, xstar, 'optimum', rtol=0, atol=tol / mu + 1e-8)
    # the log
    log = obs['log']
    disp = kw.get('disp', True)
    keep = [] if kw.get('init_logger', True) else case['warm']
    m = len(log['x'])
    need(m == len(log['val']) == log['iter'], 'log holds %d points, %d values and counts %s',
         m, len(log['val']), log['iter'])
    need(m >= len(keep), 'the log lost earlier entries')
    for i, w in enumerate(keep):
        equal(log['x'][i], np.array(w, float), 'earlier log entry')
    new = list(zip(log['x'], log['val']))[len(keep):]
    if disp:
        need(len(new) > 0, 'nothing was logged')
        close(new[0][0], np.array(case['x0'], float), 'first logged point', rtol=1e-9, atol=1e-9)
        d = min(np.abs(a - xs).max() for a, _ in new)
        need(d <= 1e-9 * (1 + np.abs(xs).max()), 'the optimum is not among the logged points (nearest %.3g)', d)
        for a, v in new[:3] + new[-2:]:
            w = jets.val(objective(case, [float(q) for q in a]))
            close(v, w, 'logged value', rtol=1e-8, atol=1e-8 * (1 + abs(w)))
    else:
        need(not new, '%d evaluations were logged with disp off', len(new))
    every = kw.get('print_every', 7)
    need(log['print_every'] == every, 'reporting interval is %s, requested %s', log['print_every'], every)
    if case['callback']:
        want = [i + 1 for i in range(len(keep), m) if i % every == 0]
        need(obs['seen'] == want, 'callback at log lengths %s, expected %s', obs['seen'], want)
    return labels


PROP = Prop(
    'C20', ['ex_opt'],
    [Sub('optimum', case(), 'c20', judge, 2000, 20000,
         nontrivial=lambda c: len(c['b']) > 1 and any(c['b']))],
    rule='Strictly convex functions (quadratic plus softplus, exponential and quartic terms) of the '
         'free coordinates of scalars, vectors, arrays and dictionaries, with no, Hessian-based or '
         'arbitrary invertible preconditioners, both minimizers and their options; non-trivial = at '
         'least two coordinates and a linear term. Oracle: damped Newton with independent jets.',
    assumptions=['The starting point is not already stationary (scipy 0.19 divides 0 by 0 there).',
                 'Where the optimizer itself reports that it did not converge, only a loose bound on '
                 'the gradient is required.'])
