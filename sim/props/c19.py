"""C19: a hyperparameter search ends in a consistent, correctly assigned model."""
import contextlib, copy
import numpy as np
import scipy.stats as st
from sim import lopsys as L, seams, oracle as O, ledger as LG
from sim.core import Violation, Reject

ID = 'C19'
RUNS = {'quick': 900, 'thorough': 20000}
RULE = ('one run = a preference model with a mixture of data types, a choice of kernel and of tuned parameters, and a history of deliveries, searches '
        '(asked for, or started by a prediction), failures part-way through a search (numerical routine, allocation, interrupt at a source line) and '
        'reads; or a few hundred restarts of one search judged as a sample from the priors (plain, aborted at the first inversion, or after a forced '
        'roll-back); non-trivial: a search moved at least one parameter, or the restarts were judged')
MEASURE = 'distinct (mode, kernel, tuned parameters, data types, kind of failure) combinations'
ASSUMPTIONS = ['a search which ends without an answer (no inverse, no fit) raises; only searches that return are judged for consistency',
               'with bounded ratings the final fit may stop at any mode of the posterior; the distance is then measured to the nearest one',
               'restarts are compared with the priors by the Kolmogorov distance at error probability 1e-9 per parameter; kernels made of two kernels and ordinal data are not tuned by the library']
REQUIRED_PROBES = ['search', 'lazy', 'failed', 'retried', 'restarts', 'rollback', 'aborted', 'no_convergence', 'mixed', 'too_few', 'moved', 'untuned']
CPU_LIMIT = 240
TOL = 0.02
LA = ('cholesky', 'inv', 'pinv', 'eigvalsh', 'cho_solve', 'svd')


def gen_kern(rng, d):
    k = rng.choice(['rbf', 'rbf', 'rbf', 'rbf0', 'lin', 'per'])
    if k in ('rbf', 'rbf0'):
        return dict(k=k, s=round(rng.uniform(0.5, 1.5), 3), l=round(rng.uniform(0.2, 1.5), 3), n=rng.choice([0.01, 0.02, 0.05]))
    if k == 'lin':
        return dict(k=k, s=round(rng.uniform(0.3, 1.0), 3), sb=round(rng.uniform(0.2, 1.0), 3), off=round(rng.uniform(0.05, 0.8), 3))
    return dict(k=k, s=round(rng.uniform(0.5, 1.5), 3), l=round(rng.uniform(0.4, 1.5), 3), p=round(rng.uniform(1.5, 4), 3))


def gen_model(rng, d):
    return dict(kern=gen_kern(rng, d), only_probit=rng.random() < 0.4, vonly=rng.random() < 0.6, tune=[rng.random() < 0.8, rng.random() < 0.8],
                sigma=rng.choice([0.3, 0.5, 1.0]), asigma=rng.choice([0.7, 1.0, 1.4]), v=rng.choice([20.0, 80.0]), pareto=d > 1 and rng.random() < 0.15)


def gen_item(rng, d, used, kind, nmax):
    op = L.gen_delivery(rng, d, used, (kind,), nmax=nmax, mindist=0.05)
    if kind == 'abs':
        op[2] = [round(min(0.97, max(0.03, v)), 3) for v in op[2]]
    return op


def generate(rng, i):
    mode = rng.choice(['search'] * 12 + ['restarts', 'restarts', 'aborted', 'rollback'])
    d = rng.choice([0, 1, 1, 2, 2, 3])
    m = gen_model(rng, d)
    used = []
    kinds = rng.choice([('pref',), ('abs',), ('pref', 'abs'), ('pref', 'abs'), ('abs', 'pref')])
    if mode != 'search':
        items = [gen_item(rng, d, used, k, 4) for k in kinds]
        while sum(len(o[1]) for o in items) < 4:
            items.append(gen_item(rng, d, used, rng.choice(kinds), 4))
        scale = dict()
        for n in ('pref.sigma', 'abs.sigma', 'abs.v', 'kern.sigma', 'kern.l', 'kern.sigma_b', 'kern.c', 'kern.p'):
            if rng.random() < 0.25:
                scale[n] = [rng.choice([1.5, 2, 4, 8]), round(10 ** rng.uniform(-1, 0.5), 3)]
        if m['kern']['k'] in ('rbf0',):
            m['kern']['k'] = 'rbf'
        m['tune'][0 if 'pref' in kinds else 1] = True
        return dict(mode=mode, d=d, model=m, items=items, prior=scale)
    ops = []
    for k in kinds:
        ops.append(['add', gen_item(rng, d, used, k, rng.choice([3, 4, 5]))])
    for _ in range(rng.choice([1, 1, 2])):
        if rng.random() < 0.5 and len(used) < 12:
            ops.append(['add', gen_item(rng, d, used, rng.choice(kinds), 4)])
        fail = rng.choice([None, None, None, 'la', 'la', 'line', 'interrupt'])
        how = rng.choice(['optimize', 'optimize', 'predict', 'large', 'best'])
        avg = rng.choice([1, 2, 3, 4, 4])
        tol = rng.choice([1e12, 1e12, 1e12, 30.0, 3.0])
        if rng.random() < 0.012 and len(used) < 7:
            tol = rng.choice([0.0, 0.3])
        ops.append(['search', how, avg, tol, None if fail is None else
                    dict(kind=fail, at=round(rng.random(), 5), exc=rng.choice(['LinAlgError', 'LinAlgError', 'MemoryError', 'FloatingPointError']))])
        if rng.random() < 0.4:
            ops.append(['read', rng.choice(['predict', 'large', 'best'])])
    return dict(mode=mode, d=d, model=m, ops=ops, q=L.gen_points(rng, 4, d), start=rng.choice([0.0, 0.3, 0.5, 0.9]))


# ------------------------------------------------------------------------ models
def build_kern(k):
    import lop
    if k['k'] == 'rbf0':
        return lop.RBF_kern_zeroed(k['s'], k['l'], sigma_noise=k['n'])
    return L.build_kern(k)


def build(m, **kw):
    import lop
    gp = lop.PreferenceGP(build_kern(m['kern']), pareto_pairs=m['pareto'], hyperparam_only_probit=m['only_probit'], **kw)
    gp.probits[0].optimize_parameters = m['tune'][0]
    gp.probits[2].optimize_parameters = m['tune'][1]
    gp.probits[2].optimize_v_only = m['vonly']
    gp.probits[0].set_sigma(m['sigma'])
    gp.probits[2].set_sigma(m['asigma'])
    gp.probits[2].set_v(m['v'])
    return gp


KERN = dict(rbf=('sigma', 'l'), rbf0=('sigma', 'l'), lin=('sigma', 'sigma_b', 'c'), per=('sigma', 'l', 'p'))


def parameters(gp, m):
    """Every parameter of the model by name."""
    out = {'pref.sigma': float(gp.probits[0].sigma), 'abs.sigma': float(gp.probits[2].sigma), 'abs.v': float(gp.probits[2].v),
           'ord.sigma': float(gp.probits[1].sigma)}
    for n in KERN[m['kern']['k']]:
        out['kern.' + n] = float(getattr(gp.cov_func, n))
    if hasattr(gp.cov_func, 'sigma_noise'):
        out['kern.noise'] = float(gp.cov_func.sigma_noise)
    return out


def tuned(gp, m):
    """The names of those which a search may change (parameters of data types without data are left alone)."""
    out = []
    if gp.y_train[0] is not None and m['tune'][0]:
        out.append('pref.sigma')
    if gp.y_train[2] is not None and m['tune'][1]:
        out += ['abs.v'] if m['vonly'] else ['abs.sigma', 'abs.v']
    if not m['only_probit']:
        out += ['kern.' + n for n in KERN[m['kern']['k']]]
    return out


def owner(gp, name):
    o, n = name.split('.')
    return dict(pref=gp.probits[0], abs=gp.probits[2], kern=gp.cov_func)[o], n


def extra(gp):
    """Settings which no search changes."""
    s = [gp.use_hyper_optimization, gp.hyperparam_only_probit, gp.pareto_pairs, gp.hyper_grad_avg, gp.hyper_grad_tol, gp.maxloops, gp.delta_f]
    for p in gp.probits:
        s.append(getattr(p, 'optimize_parameters', None))
    for o in (gp.probits[0], gp.probits[2], gp.cov_func):
        for n in sorted(vars(o)):
            if n.endswith('_k') or n.endswith('_theta'):
                s.append((n, float(getattr(o, n))))
    return s


def execute(case, ctx):
    if case['mode'] == 'search':
        return search(case, ctx)
    return restarts(case, ctx)


class Count:
    """A kernel's gradient, counted: one evaluation per step of the search."""

    def __init__(self, f):
        self.f, self.n = f, 0

    def __call__(self, *a, **k):
        self.n += 1
        if self.n > 5000:
            raise Violation('the search does not end: more than 5000 steps', 'no-end')
        return self.f(*a, **k)


def search(case, ctx):
    m, d = case['model'], case['d']
    gp = build(m)
    items = []
    q = L.shape_points(case['q'], d)
    for op in case['ops']:
        if op[0] == 'add':
            if op[1][1]:
                L.deliver(gp, op[1], d)
                items.append(op[1])
            continue
        if gp.X_train is None:
            continue
        if op[0] == 'read':
            with seams.frozen_draws(case['start']):
                try:
                    read(gp, op[1], q)
                except np.linalg.LinAlgError:
                    raise Reject('the fit is refused')
            continue
        how, avg, tol, fail = op[1:]
        gp.hyper_grad_avg, gp.hyper_grad_tol = avg, tol
        may = tuned(gp, m)
        if not may and m['only_probit']:
            raise Reject('nothing to tune')
        p0, s0, data = parameters(gp, m), extra(gp), L.snap_data(gp)
        if fail is not None:
            one(case, ctx, gp, m, may, how, q, data, p0, s0, fail)
            ctx.probe('failed')
            ctx.probe('retried')
        ok = one(case, ctx, gp, m, may, how, q, data, parameters(gp, m), s0, None)
        if not ok:
            refused(case, ctx, gp, m, items, q)
        after(case, ctx, gp, m, may, how, q, p0, data, items, tol)
        ctx.state('search', m['kern']['k'], may, [o[0] for o in items], fail and fail['kind'])


def read(gp, how, q):
    if how == 'predict':
        return gp.predict(q)
    if how == 'large':
        return gp.predict_large(q)
    return gp.select_best(q)


def one(case, ctx, gp, m, may, how, q, data, p0, s0, fail):
    """One search, perhaps failing. -> whether it returned"""
    c = Count(type(gp.cov_func).cov_gradient.__get__(gp.cov_func))
    gp.cov_func.cov_gradient = c
    w = None
    scope = contextlib.nullcontext()
    if fail is not None:
        if fail['kind'] == 'la':
            exc = dict(LinAlgError=np.linalg.LinAlgError, MemoryError=MemoryError, FloatingPointError=FloatingPointError)[fail['exc']]
            w = seams.Window(ctx, names=LA, fire={int(fail['at'] ** 2 * 200): exc})
            scope = seams.window(w)
        else:
            at = int(np.exp(fail['at'] * np.log(2e4)))
            scope = w = seams.LineTrap(at, KeyboardInterrupt if fail['kind'] == 'interrupt' else MemoryError, ctx)
    out = 'returned'
    gp.use_hyper_optimization = how != 'optimize'
    try:
        with seams.frozen_draws(case['start']), scope:
            if how == 'optimize':
                gp.optimize(optimize_hyperparameter=True)
            else:
                gp.optimized = False
                read(gp, how, q)
    except Violation:
        raise
    except (np.linalg.LinAlgError, MemoryError, FloatingPointError, KeyboardInterrupt) as e:
        out = type(e).__name__
    finally:
        gp.use_hyper_optimization = False
        del gp.cov_func.cov_gradient
    ctx.log('search', how, out, c.n, gp.get_hyper())
    if how != 'optimize':
        ctx.probe('lazy')
    what = 'a search (%s)' % out
    ctx.check(L.same_data(data, L.snap_data(gp)), what + ' changed the training data', 'data-changed')
    p1 = parameters(gp, m)
    for n in p1:
        if n not in may:
            ctx.check(p1[n] == p0[n], '%s changed %s, which is not subject to tuning, from %r to %r' % (what, n, p0[n], p1[n]), 'untuned-changed')
            ctx.probe('untuned')
    ctx.check(repr(extra(gp)) == repr(s0), what + ' changed settings of the model: %s -> %s' % (s0, extra(gp)), 'settings-changed')
    ctx.check(c.n <= 700, 'a search took %d steps (its bound is about 600)' % c.n, 'too-long')
    if out == 'returned' and fail is None:
        n = len(gp.X_train)
        if n < 4:
            ctx.probe('too_few')
        elif c.n >= 590:
            ctx.probe('no_convergence')
        ctx.dev_steps = max(getattr(ctx, 'dev_steps', 0), c.n)
    return out == 'returned'


def after(case, ctx, gp, m, may, how, q, p0, data, items, tol):
    """A search has returned."""
    ctx.probe('search')
    p1 = parameters(gp, m)
    ctx.log('tuned', [p1[n] for n in may])
    if len(gp.X_train) >= 4:
        for n in may:
            ctx.check(np.isfinite(p1[n]) and p1[n] >= 0, 'a search ended with %s = %r' % (n, p1[n]), 'unusable')
        if any(p1[n] != p0[n] for n in may):
            ctx.probe('moved')
            ctx.nontrivial = True
    else:
        # too few points for a search: only the fit is renewed
        for n in may:
            ctx.check(np.isfinite(p1[n]) and p1[n] >= 0, 'a search ended with %s = %r' % (n, p1[n]), 'unusable')
    if len({o[0] for o in items}) > 1:
        ctx.probe('mixed')
    # the model answers for all its data under these parameters
    f0 = seams.rng_fingerprint()
    try:
        got = L.predict(gp, q)
    except np.linalg.LinAlgError:
        raise Reject('prediction refused')
    ctx.check(seams.rng_fingerprint() == f0, 'a prediction after a search draws random numbers (the search left no fit behind)', 'no-fit')
    ctx.check(parameters(gp, m) == p1, 'a prediction after a search changed the hyperparameters', 'changed-later')
    twin = same_model(case, m, items, p1)
    rs = seams.rng_state()
    with seams.frozen_draws(case['start']):
        try:
            want = L.predict(twin, q)
        except np.linalg.LinAlgError:
            raise Reject('the fit is refused')
    seams.set_rng_state(rs)
    if max(gp.n_loops, twin.n_loops) >= 100:
        raise Reject('the fit ran into its iteration limit')
    e = dev(got, want)
    if e > TOL and any(o[0] == 'abs' for o in items):
        e = min(e, nearest(case, gp, m, p1, q, got, items))
    ctx.dev = max(getattr(ctx, 'dev', 0), e)
    ctx.log('after', got[0], e)
    ctx.check(e < TOL, 'after a search the predictions are %.3g away from those of the full training data under the final hyperparameters' % e, 'not-the-full-fit')


def same_model(case, m, items, p1):
    """A new model with the same data and parameters."""
    twin = build(m)
    for o in items:
        L.deliver(twin, o, case['d'])
    twin.probits[0].set_sigma(p1['pref.sigma'])
    twin.probits[2].set_sigma(p1['abs.sigma'])
    twin.probits[2].set_v(p1['abs.v'])
    twin.cov_func.set_param(np.array([p1['kern.' + n] for n in KERN[m['kern']['k']]]))
    return twin


def refused(case, ctx, gp, m, items, q):
    """A search without any fault raised: is there really no fit where it stopped?"""
    p1 = parameters(gp, m)
    ctx.log('refused at', p1)
    ctx.check(all(np.isfinite(v) for v in p1.values()), 'a search stopped with an error at %s' % p1, 'refused')
    twin = same_model(case, m, items, p1)
    try:
        with seams.frozen_draws(case['start']):
            L.predict(twin, q)
    except np.linalg.LinAlgError:
        raise Reject('the search is refused')
    raise Violation('a search stopped with an error at parameters under which a new model can be fitted: %s' % p1, 'refused')


def dev(a, b):
    """Deviation in units of the prior's size (tuned amplitudes may be large)."""
    s = max(1.0, float(np.sqrt(np.abs(b[2]).max())), float(np.abs(b[0]).max()))
    return max(L.dev(a[:1], b[:1]) / s, L.dev(a[1:], b[1:]) / s ** 2)


def nearest(case, gp, m, p1, q, got, items):
    """Distance to the posterior of the mode nearest to the model's own fit."""
    from sim.props import c04
    led = c04.ledger(items, m['pareto'])
    prefs = list(led.prefs) + (LG.dominance(led.points) if m['pareto'] else [])
    lik = O.Lik(len(led.points), prefs, led.ratings, led.labels, sigma=p1['pref.sigma'], abs_sigma=p1['abs.sigma'], v=p1['abs.v'])
    X = np.array(gp.X_train)
    kf = gp.cov_func
    K, Kq, Kqq = kf.cov(X, X), kf.cov(q, X), kf.cov(q.copy(), q)
    Kqq = kf.cov(q, q)
    f, ok = O.mode(K, lik, f0=np.array(gp.F))
    if not ok:
        raise Reject('no mode found')
    mu, cov = O.predict(K, Kq, Kqq, lik, f)
    return dev(got, (mu, np.maximum(0, np.diagonal(cov)), cov))


# -------------------------------------------------------------------- restarts
class Stop(Exception):
    pass


def restarts(case, ctx):
    m, d, mode = case['model'], case['d'], case['mode']
    stop = [False]

    def inverse(a):
        if stop[0]:
            ctx.fault('abort@inverse')
            raise Stop()
        return np.linalg.pinv(a)
    gp = build(m, mat_inv=inverse)
    for op in case['items']:
        if op[1]:
            L.deliver(gp, op, d)
    if gp.X_train is None or len(gp.X_train) < 4:
        raise Reject('too few points')
    may = tuned(gp, m)
    if not may:
        raise Reject('nothing to tune')
    for n, (k, th) in case['prior'].items():
        if n in may:
            o, a = owner(gp, n)
            setattr(o, a + '_k', k)
            setattr(o, a + '_theta', th)
    forced = None
    if mode == 'rollback':
        # a step from here always leaves the range of usable values
        forced = [n for n in may if n not in ('abs.v', 'pref.sigma')]   # (these have no upper bound)
        if not forced or (m['kern']['k'] != 'rbf' and not m['only_probit']):
            raise Reject('no roll-back can be forced')
        forced = forced[-1]
        o, a = owner(gp, forced)
        setattr(o, a + '_k', 3.0)
        setattr(o, a + '_theta', 1e-4)
        gp.hyper_grad_avg, gp.hyper_grad_tol = 1, 1e300
    prior = {}
    for n in may:
        o, a = owner(gp, n)
        prior[n] = (float(getattr(o, a + '_k')), float(getattr(o, a + '_theta')))
    p0, s0, data = parameters(gp, m), extra(gp), L.snap_data(gp)
    N = dict(restarts=1200, aborted=250, rollback=60)[mode]
    rows = []
    for _ in range(N):
        if mode == 'restarts':
            gp.randomize_hyper()
        elif mode == 'aborted':
            stop[0] = True
            try:
                gp.optimize(optimize_hyperparameter=True)
                raise Reject('the search does not invert anything')
            except Stop:
                pass
            except np.linalg.LinAlgError:
                continue
        else:
            try:
                gp.optimize(optimize_hyperparameter=True)
            except np.linalg.LinAlgError:
                continue
        p = parameters(gp, m)
        for n in p:
            if n not in may:
                ctx.check(p[n] == p0[n], 'a restart changed %s, which is not subject to tuning, from %r to %r' % (n, p0[n], p[n]), 'untuned-changed')
        rows.append([p[n] for n in may])
    if len(rows) < N * 0.6:
        raise Reject('most searches are refused')
    ctx.check(L.same_data(data, L.snap_data(gp)), 'restarts changed the training data', 'data-changed')
    ctx.check(repr(extra(gp)) == repr(s0), 'restarts changed settings of the model: %s -> %s' % (s0, extra(gp)), 'settings-changed')
    R = np.array(rows)
    n = len(R)
    U = np.empty_like(R)
    bound = np.sqrt(np.log(2 / 1e-9) / (2 * n))
    for j, name in enumerate(may):
        k, th = prior[name]
        ctx.check(np.isfinite(R[:, j]).all(), 'a restart set %s to a value which is not finite' % name, 'unusable')
        U[:, j] = st.gamma.cdf(R[:, j], k, scale=th)
        u = np.sort(U[:, j])
        D = max(np.abs(u - np.arange(n) / n).max(), np.abs(u - np.arange(1, n + 1) / n).max())
        ctx.log(name, D, R[:, j].mean())
        ctx.check(D <= bound, '%s: %d restarts of %s do not follow its prior gamma(%g, %g): distance %.3f, allowed %.3f, mean %.4g, expected %.4g'
                  % (mode, n, name, k, th, D, bound, R[:, j].mean(), k * th), 'wrong-prior')
    if mode != 'rollback':
        for a in range(len(may)):
            for b in range(a):
                r = np.corrcoef(U[:, a], U[:, b])[0, 1]
                ctx.check(abs(r) < 6.5 / np.sqrt(n), '%s: %s and %s are not restarted independently (correlation %.3f)' % (mode, may[a], may[b], r), 'dependent')
    ctx.probe(mode)
    ctx.nontrivial = True
    ctx.state(mode, m['kern']['k'], may)


def simplify(case):
    for key in ('items', 'ops'):
        for j, op in enumerate(case.get(key, [])):
            if key == 'ops':
                if op[0] == 'search' and op[4] is not None:
                    c = copy.deepcopy(case)
                    c['ops'][j][4] = None
                    yield c
                if op[0] != 'add':
                    continue
                op = op[1]
            for s in L.shrink_delivery(op):
                c = copy.deepcopy(case)
                if key == 'ops':
                    c['ops'][j][1] = s
                else:
                    c['items'][j] = s
                yield c


def warmup():
    pass
