"""C12: fitting ends at the true posterior, whatever the random start."""
import copy
import numpy as np
from sim import lopsys as L, seams, oracle as O
from sim.core import Violation, Reject
from sim.ledger import Ledger, dominance

ID = 'C12'
RUNS = {'quick': 6000, 'thorough': 80000}
RULE = ('one run = a model fitted to random data of mixed types from a random or adversarial start (every uniform draw 0, just below 1, '
        'alternating, random), after a random number of earlier fits; its latent mode and its predictions at random and training '
        'points are compared with an independent Laplace (or exact regression) posterior; non-trivial: at least three observations')
MEASURE = 'distinct (model, data types, number of points, start, number of Newton steps) tuples'
ASSUMPTIONS = ['points at least 0.05 apart; kernels RBF, linear+RBF, products; observation noise at the shipped defaults or a few other values',
               'linear models: preferences consistent with one weight vector with an angular margin of at least 0.03',
               'with bounded ratings the posterior may have several modes: any of them is accepted']
REQUIRED_PROBES = ['logconcave', 'ratings', 'gp', 'plin', 'adversarial_start']
F_TOL, P_TOL = 1e-3, 4e-3
STARTS = ['real', 'real', 0.0, 0.5, 0.999999, 'alt', 'desc']


def generate(rng, i):
    t = rng.choice(['pgp'] * 6 + ['gp', 'plin', 'plin'])
    m = L.gen_model(rng, (t,), ('rbf', 'rbf', 'sum', 'prod'), pareto=t == 'pgp' and rng.random() < 0.15)
    d = rng.choice([1, 2, 2, 3, 4])
    if m.get('pareto') or t == 'plin':
        d = max(d, 2)
    r = rng.random()
    if t != 'plin' and r < 0.1:
        m['kern'] = L.gen_kern(rng, ('rbf0',))
    elif t != 'plin' and r < 0.2 and not m.get('pareto'):
        m['kern'], d = L.gen_kern(rng, ('sper',)), 1
    used = []
    case = dict(model=m, d=d, start=rng.choice(STARTS), refits=rng.choice([0, 0, 1, 2]))
    if t == 'gp':
        case['items'] = []
        for _ in range(rng.randint(1, 3)):
            op = L.gen_delivery(rng, d, used, ('gp',), nmax=6, mindist=0.05)
            ts = rng.choice([None, round(rng.uniform(0.001, 0.3), 3), [round(rng.uniform(0.001, 0.5), 3) for _ in op[1]]])
            case['items'].append(op + [ts])
    elif t == 'plin':
        n = rng.randint(1, rng.choice([6, 6, 15, 30]))
        margin = rng.choice([0.35, 0.1, 0.03])
        d = case['d'] = rng.choice([d, d, 5])
        w = [rng.uniform(-1, 1) for _ in range(d)]
        wn = sum(c * c for c in w) ** 0.5
        dels, k = [], 0
        while k < n:
            pts = L.gen_points(rng, 2, d, used=used)
            df = [a - b for a, b in zip(*pts)]
            dn = sum(c * c for c in df) ** 0.5
            dot = sum(a * b for a, b in zip(w, df))
            if dn < 0.15 or abs(dot) < margin * dn * wn:
                continue
            k += 1
            y = [-1 if dot > 0 else 1, 0, 1]
            dels.append(['pref', pts, [y if rng.random() < 0.5 else [-y[0], 1, 0]]])
        case['items'] = dels
    else:
        kinds = rng.choice([('pref',), ('pref', 'ord'), ('ord',), ('pref', 'abs'), ('abs',), ('pref', 'abs', 'ord')])
        nd = rng.randint(1, 5) if d > 1 else rng.randint(1, 3)
        case['items'] = [L.gen_delivery(rng, d, used, kinds, nmax=5 if d > 1 else 3, mindist=0.05) for _ in range(nd)]
        L.gen_lik(rng, m)
        for op in case['items']:
            if op[0] == 'ord' and m.get('nord'):
                op[2] = [rng.randint(1, m['nord']) for _ in op[2]]
    case['q'] = L.gen_points(rng, 4, d, lo=-0.2, hi=1.2)
    return case


class Start:
    """Adversarial starts: replaces the value of uniform array draws."""

    def __init__(self, kind):
        self.kind = kind

    def __enter__(self):
        k = self.kind
        self.cm = None
        if k == 'real':
            return self
        if k in ('alt', 'desc'):
            self.saved = np.random.random
            def f(size=None):
                if size is None:
                    return 0.0
                a = np.empty(size)
                v = a.reshape(-1)
                n = np.arange(v.size)
                v[:] = np.where(n % 2 == 0, 0.0, 0.999999) if k == 'alt' else 0.999999 * (1 - n / max(1, v.size))
                return a
            np.random.random = f
        else:
            self.cm = seams.frozen_draws(k)
            self.cm.__enter__()
        return self

    def __exit__(self, *a):
        if self.kind == 'real':
            return
        if self.cm is not None:
            self.cm.__exit__(*a)
        else:
            np.random.random = self.saved


def lik_of(led, m):
    prefs = list(led.prefs)
    if led.pareto:
        prefs += dominance(led.points)
    return O.Lik(len(led.points), prefs, led.ratings, led.labels, **L.lik_args(m))


def execute(case, ctx):
    m, d = case['model'], case['d']
    t = m['type']
    if not case['items']:
        raise Reject('no data')
    model = L.build_model(m)
    led = Ledger(m.get('pareto', False))
    q = L.shape_points(case['q'], d)
    if t == 'gp':
        return execute_gp(case, ctx, model, q)
    for j, op in enumerate(case['items']):
        L.deliver(model, op, d)
        led.add(L.shape_points(op[1], d), op[0], op[2])
        if j < case['refits']:
            try:
                model.predict(q)
            except np.linalg.LinAlgError:
                pass
    nobs = len(led.prefs) + len(led.ratings) + len(led.labels)
    ctx.nontrivial = nobs >= 3
    if case['start'] != 'real':
        ctx.probe('adversarial_start')
    if t == 'plin':
        if not led.prefs:
            raise Reject('no data')
        ctx.probe('plin')
        X = L.shape_points(led.points, d)
        if case['start'] == 0.0:
            raise Reject('a zero weight vector has no direction')
        with Start(case['start']):
            F, _ = model.predict(X)
        ctx.log('plin', F)
        ctx.state('plin', len(led.prefs), case['start'], model.n_loops)
        ctx.check(np.isfinite(F).all(), 'linear model predicts undefined values', 'plin-undefined')
        for a, b in led.prefs:
            ctx.check(F[a] > F[b], 'linear model fitted to %d mutually consistent preferences ranks a pair the wrong way round (%.4g vs %.4g, start %s)'
                      % (len(led.prefs), F[a], F[b], case['start']), 'plin-ranking')
        return
    lik = lik_of(led, m)
    X = np.array(led.points)
    K = O.kern(m['kern'], X, X, noise=True)
    try:
        with Start(case['start']):
            model.predict(q)
    except np.linalg.LinAlgError:
        if np.linalg.cond(K) < 1e8:
            raise Violation('fitting a well-conditioned problem (condition %.2g) is refused' % np.linalg.cond(K), 'refused')
        raise Reject('ill-conditioned')
    F = np.array(model.F)
    logconcave = not led.ratings
    ctx.probe('logconcave' if logconcave else 'ratings')
    f, ok = O.mode(K, lik, f0=F)
    if not ok:
        raise Reject('the reference search did not converge')
    ctx.state(m.get('pareto'), sorted({o[0] for o in case['items']}), len(X), case['start'], model.n_loops)
    e = float(np.abs(F - f).max()) if F.shape == f.shape and np.isfinite(F).all() else float('inf')
    ctx.fdev = e
    ctx.log('mode', F, f, e, model.n_loops)
    ctx.check(e < F_TOL, 'the fit is %.3g away from the nearest mode of the posterior (start %s, %d Newton steps)'
              % (e, case['start'], model.n_loops), 'not-a-mode')
    _, _, W = lik.all(f)
    w, U = np.linalg.eigh(K)
    A = U * np.sqrt(np.maximum(w, 0))
    ctx.check(np.linalg.eigvalsh(A.T @ W @ A)[0] > -1 - 1e-6, 'the fit ends at a saddle of the posterior (start %s)' % case['start'], 'saddle')
    if logconcave:
        f0, ok0 = O.mode(K, lik)
        if ok0:
            e0 = float(np.abs(F - f0).max())
            ctx.check(e0 < F_TOL, 'the fit is %.3g away from the unique mode (start %s)' % (e0, case['start']), 'not-the-mode')
    # predictions: at new points, and at new points together with training points
    for Q, what in ((q, 'new points'), (L.shape_points(case['q'][:1] + [list(p) for p in led.points[:3]], d), 'training points')):
        mu, sig = model.predict(Q)
        Qm = np.asarray(Q, dtype=float).reshape(len(Q), -1)
        Kq = O.kern(m['kern'], Qm, X)
        mean, cov = O.predict(K, Kq, O.kern(m['kern'], Qm, Qm, noise=True), lik, f)
        em = float(np.abs(mu - mean).max())
        ev = float(np.abs(sig - np.maximum(0, np.diagonal(cov))).max())
        ec = float(np.abs(model.cov - cov).max())
        ctx.pdev = max(getattr(ctx, 'pdev', 0), em, ev, ec)
        ctx.log('pred', mu, mean, em, ev, ec)
        ctx.check(em < P_TOL, 'predictive mean at %s is off by %.3g' % (what, em), 'mean')
        ctx.check(ev < P_TOL, 'predictive variance at %s is off by %.3g' % (what, ev), 'variance')
        ctx.check(ec < P_TOL, 'predictive covariance at %s is off by %.3g' % (what, ec), 'covariance')
    ctx.dev = max(ctx.fdev, ctx.pdev)


def execute_gp(case, ctx, model, q):
    m, d = case['model'], case['d']
    ctx.probe('gp')
    a = m.get('mean') or 0
    mf = lambda x: np.asarray(x, dtype=float).reshape(len(x), -1).sum(1) * a
    Xs, ys, ns = [], [], []
    for j, op in enumerate(case['items']):
        if not op[1]:
            continue
        X, y, ts = L.shape_points(op[1], d), L.arr(op[2]), op[3]
        if isinstance(ts, list):
            ts = ts[:len(y)]
        if ts is None:
            model.add(X, y)
        else:
            model.add(X, y, training_sigma=ts)
        Xs.append(X.reshape(len(X), -1))
        ys.append(y)
        ns.append(np.ones(len(y)) * (0.0005 if ts is None else ts))
        if j < case['refits']:
            model.predict(q)
    if not Xs:
        raise Reject('no data')
    X, y, s = np.concatenate(Xs), np.concatenate(ys), np.concatenate(ns)
    ctx.nontrivial = len(y) >= 3
    K = O.kern(m['kern'], X, X, noise=True) + np.diag(s)
    ctx.state('gp', len(X), len(Xs))
    for Q in (q, L.shape_points(case['q'][:1] + [list(p) for p in X[:3]], d)):
        mu, sig = model.predict(Q)
        Qm = np.asarray(Q, dtype=float).reshape(len(Q), -1)
        Kq = O.kern(m['kern'], Qm, X)
        al = np.linalg.solve(K, y - mf(X))
        mean = Kq @ al + mf(Qm)
        cov = O.kern(m['kern'], Qm, Qm, noise=True) - Kq @ np.linalg.solve(K, Kq.T)
        e = max(float(np.abs(mu - mean).max()), float(np.abs(sig - np.maximum(0, np.diagonal(cov))).max()), float(np.abs(model.cov - cov).max()))
        ctx.log('gp', mu, mean, e)
        ctx.check(e < 1e-6, 'Gaussian process differs from the exact regression posterior by %.3g' % e, 'gp-regression')


def simplify(case):
    for j, op in enumerate(case['items']):
        for s in L.shrink_delivery(op):
            c = copy.deepcopy(case)
            c['items'][j] = s
            yield c
    for k, v in (('refits', 0), ('start', 'real')):
        if case[k] != v:
            c = copy.deepcopy(case)
            c[k] = v
            yield c
