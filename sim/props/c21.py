"""C21: sampling learners ask what their measure ranks highest on the beliefs they drew."""
import contextlib
import copy
import math
import sys
from itertools import combinations
import numpy as np
import scipy.special as sp
from scipy.stats import rankdata
from sim import lopsys as L, seams, learn
from sim.core import Reject
from sim.props import c06, c07

ID = 'C21'
RUNS = {'quick': 3000, 'thorough': 60000}
RULE = ('one run = a session of one sampling learner (mutual information, expected alignment by pairs or ratings, best-candidate information gain, '
        'probability of being best; on its own or inside a learner that shares its samples) with additions, model exchanges and failing or '
        'interrupted selections; the draws of every completed selection are recorded behind the random seam, checked to come from the posterior at '
        'the candidates and representative points, and every step of the selection is judged by an independent evaluation of the measure on those '
        'very draws; non-trivial: a step was judged')
MEASURE = 'distinct (learner, alignment, model, kind of step, candidates to choose from, size of the query so far, shared, after what failure) combinations judged'
ASSUMPTIONS = ['the measure is the one the learner documents or the equation it cites', 'a step whose measure is undefined on the draw (constant samples) is not judged',
               'approxcdf is stubbed by an independent-normal approximation']
REQUIRED_PROBES = ['judged', 'pair', 'greedy', 'rating', 'posterior', 'linear', 'representative', 'stable', 'shared', 'after_failure', 'metric', 'other_model']
TOL = 1e-6
JUDGED = ('mutual', 'acq', 'absacq', 'bayes', 'prob')
ALIGN = learn.ALIGN_F


def generate(rng, i):
    t = rng.choice(['pgp'] * 6 + ['plin'] * 3 + ['gp'])
    kinds = dict(pgp=('mutual', 'acq', 'acq', 'acq', 'absacq', 'absacq', 'bayes', 'prob', 'ratechoose', 'mixedcomp'), plin=('mutual', 'acq', 'acq', 'absacq', 'bayes', 'ratechoose'), gp=('mutual',))[t]
    d = rng.choice([1, 2, 2, 3])
    spec = learn.gen_learner(rng, kinds)
    if spec['l'] == 'mixedcomp':
        spec['abs'] = dict(spec['comp'])
    m = L.gen_model(rng, (t,), ('rbf', 'rbf', 'sum') if t == 'pgp' else ('rbf',), pareto=False)
    if t != 'gp':
        L.gen_lik(rng, m, labels=False)
    first = {'gp': ('gp',), 'plin': ('pref',), 'pgp': ('pref',)}[t]
    stable = None
    if rng.random() < 0.2:
        per = rng.choice([4, 4, 5])        # at least as many as a query has
        stable = L.gen_points(rng, 10 * per, d)
        for x in learn.subs(spec):
            if 'rep' in x:
                x['stable'] = True
    models = []
    for _ in range(2):
        used, o = [], []
        for _ in range(rng.choice([1, 1, 2])):
            o.append(L.gen_delivery(rng, d, used, first, nmax=5, mindist=0.05))
        if t == 'pgp' and rng.random() < 0.4:
            op = L.gen_delivery(rng, d, used, ('abs',), nmax=3, mindist=0.05)
            op[2] = [round(rng.uniform(0.2, 0.8), 3) for _ in op[1]]
            o.append(op)
        models.append(o)
    ops = []
    for _ in range(rng.randint(1, 4)):
        n = rng.randint(2, 7 if spec['l'] not in ('prob', 'absacq') else 5)
        q = learn.gen_query(rng, spec, n)
        if len(q['prev']) + q['k'] > n:
            q['prev'], q['k'] = [], min(q['k'], n)
        fail = rng.choice(['none', 'none', 'none', 'la', 'line', 'interrupt', 'worker'])
        f = dict(kind=fail, at=round(rng.random(), 5), start=0, exc=rng.choice(['LinAlgError', 'MemoryError', 'KeyboardInterrupt', 'FloatingPointError']))
        pre = rng.random() < 0.5
        ops.append(['sel', L.gen_points(rng, n, d), q, f, pre])
        r = rng.random()
        if r < 0.25:
            ops.append(['add', L.gen_delivery(rng, d, [], first, nmax=3, mindist=0.05)])
        elif r < 0.4:
            ops.append(['model', rng.randint(0, 1)])
    last = [o for o in ops if o[0] == 'sel'][-1]
    last[3]['kind'] = 'none'
    return dict(d=d, model=m, spec=spec, models=models, ops=ops, stable=stable)


# ------------------------------------------------------------------- recording
class Recorder:
    """What a selection drew and how its steps were decided."""

    def __init__(self, learners):
        self.learners = learners                 # [(spec, learner)]
        self.reset()

    def reset(self):
        self.draws, self.steps, self.reps = [], [], {}

    def spy(self, s, l):
        for kind in ('select_greedy', 'select_pair'):
            if hasattr(l, kind):
                setattr(l, kind, self.step(s, l, kind, getattr(l, kind)))
        if hasattr(l, 'get_representative_Q'):
            orig = l.get_representative_Q

            def rep(*a, **k):
                r = orig(*a, **k)
                self.reps.setdefault(id(l), []).append(r)
                return r
            l.get_representative_Q = rep

    def step(self, s, l, kind, orig):
        def f(candidate_pts, mu, data, indicies, prev_selection, *a, **k):
            nd, nr = len(self.draws), len(self.reps.get(id(l), []))
            el, prev = sorted(indicies), sorted(prev_selection)
            r = orig(candidate_pts, mu, data, indicies, prev_selection, *a, **k)
            reps = self.reps.get(id(l), [])
            self.steps.append(dict(spec=s, kind=kind, el=[int(i) for i in el], prev=[int(i) for i in prev],
                                   got=[int(i) for i in np.atleast_1d(r)], metric=getattr(l, 'sel_metric', None), first=nd, last=len(self.draws),
                                   rep=reps[-1] if len(reps) > nr else None, mu=np.array(mu, dtype=float)))
            return r
        return f

    @contextlib.contextmanager
    def recording(self):
        """Opens the seams on the draws of the learners."""
        from lop.utilities import metropolis_hastings as mh
        self.reset()
        orig = np.random.multivariate_normal

        def mvn(mean, cov, size=None, *a, **k):
            r = orig(mean, cov, size, *a, **k)
            self.draws.append(('mvn', np.array(mean, dtype=float), np.array(cov, dtype=float), np.array(r, dtype=float)))
            return r

        def chain(*a, **k):
            r = mh(*a, **k)
            self.draws.append(('mh', None, None, np.array(r[0] if isinstance(r, tuple) else r, dtype=float)))
            return r
        mods = [(m, n) for name, m in list(sys.modules.items()) if name.startswith('lop') and m is not None
                for n, v in list(vars(m).items()) if v is mh]
        for s, l in self.learners:
            self.spy(s, l)
        np.random.multivariate_normal = mvn
        for m, n in mods:
            setattr(m, n, chain)
        try:
            yield self
        finally:
            for _s, l in self.learners:
                for n in ('select_greedy', 'select_pair', 'get_representative_Q'):
                    l.__dict__.pop(n, None)
            np.random.multivariate_normal = orig
            for m, n in mods:
                setattr(m, n, mh)


# ------------------------------------------------------------------- reference
def phi(z):
    return sp.ndtr(np.clip(z, -30, 100))


def pair_probs(F, sigma):
    """P(i preferred to j) for latent values F (..., n) -> (..., n, n)."""
    return phi((F[..., :, None] - F[..., None, :]) / (math.sqrt(2.0) * sigma))


def choice_probs(F, Q, sigma):
    """Probability of each member of Q being chosen out of Q: (M, len(Q))."""
    P = pair_probs(F[:, Q], sigma)
    n = len(Q)
    p = np.ones((len(F), n))
    for a in range(n):
        for b in range(n):
            if a != b:
                p[:, a] *= P[:, a, b]
    return p / p.sum(axis=1, keepdims=True)


def similarity(kind, R, Q, sigma):
    """How alike two sampled rewards are, by their values R (M, points)."""
    M = len(R)
    if R.shape[1] < 2:
        return np.zeros((M, M))
    if kind == 'rho':
        e = np.exp(R - R.max(axis=1, keepdims=True))
        e /= e.sum(axis=1, keepdims=True)
        return -np.sqrt(((e[:, None, :] - e[None, :, :]) ** 2).sum(axis=2))
    if kind == 'loglikelihood':
        g = np.zeros((M, M))
        for q in Q:
            q = list(q)
            lp = np.log(choice_probs(R, q, sigma))
            best = np.argmax(R[:, q], axis=1)
            g += lp[:, best]                     # g[w', w]: w' judged by the choice of w
        return g + g.T
    if kind == 'spearman':
        R = np.array([rankdata(r) for r in R])
    C = np.corrcoef(R)
    return C if kind == 'spearman' else -np.sqrt(np.maximum(1 - C, 0)) / math.sqrt(2.0)


def expected_alignment(f, p):
    """Equation (10) for one query; p (M, answers)."""
    M = len(p)
    num = np.einsum('wa,wv,va->a', p, f, p) / (M * M)
    return float(np.sum(num / p.mean(axis=0)))


def rating_alignment(f, A, B, n=6000):
    """The same for a rating query, the answer being a rating; A, B (M,)."""
    M = len(A)
    lo, hi = 0.0001, 0.9999
    x, w = _nodes(lo, hi, n)
    lp = (A[:, None] - 1) * np.log(x) + (B[:, None] - 1) * np.log1p(-x) - sp.betaln(A, B)[:, None]
    p = np.exp(lp)
    mean = p.mean(axis=0)
    num = np.einsum('wx,wv,vx->x', p, f, p) / (M * M)
    with np.errstate(divide='ignore', invalid='ignore'):
        v = np.where(mean > 0, num / mean, 0.0)
    return float(np.sum(v * w))


_N = {}


def _nodes(lo, hi, n):
    if (lo, hi, n) not in _N:
        x, w = np.polynomial.legendre.leggauss(20)
        e = np.linspace(lo, hi, n // 20 + 1)
        c, h = (e[1:] + e[:-1]) / 2, (e[1:] - e[:-1]) / 2
        _N[(lo, hi, n)] = ((c[:, None] + h[:, None] * x).ravel(), (h[:, None] * w).ravel())
    return _N[(lo, hi, n)]


def mutual_information(F, Q, peak):
    z = peak * F[:, Q]
    lp = z - sp.logsumexp(z, axis=1, keepdims=True)
    p = np.exp(lp)
    lm = sp.logsumexp(lp, axis=0) - math.log(len(F))
    return float(np.sum(p * (lp - lm)) / len(F) / math.log(2))


def best_probs(mu, cov):
    """P(candidate is the best) with the stubbed distribution function."""
    n = len(mu)
    p = np.empty(n)
    for i in range(n):
        o = [j for j in range(n) if j != i]
        K = cov[i, i] + cov[np.ix_(o, o)] - cov[i, o][None, :] - cov[i, o][:, None]
        p[i] = sys.modules['approxcdf'].mvn_cdf(-(mu[o] - mu[i]), K)
    return p / p.sum()


def entropy(p):
    p = np.asarray(p)
    p = p[p > 1e-300]
    return float(-np.sum(p * np.log(p)))


def best_info(pB, P, i, j, how):
    """Expected drop in the entropy of which candidate is the best."""
    out = entropy(pB)
    for a, b in ((i, j), (j, i)):
        like = np.full(len(pB), P[a, b])         # of the answer a, for each best
        hi, lo = {'probit': (max(P[a, b], P[b, a]), min(P[a, b], P[b, a])), '999': (0.999, 0.001), '99': (0.99, 0.01)}[how]
        like[a], like[b] = hi, lo
        post = like * pB
        out -= P[a, b] * entropy(post / post.sum())
    return out


def best_info_set(pB, P, Q, how):
    """The same for a query of any size, answers being normalised over it."""
    k = len(Q)
    p = np.array([np.prod([P[a, b] for b in Q if b != a]) for a in Q])
    like = np.repeat(p[:, None], len(pB), axis=1)
    for x, a in enumerate(Q):
        like[x, a] = dict({'999': 0.999 ** (k - 1), '99': 0.99 ** (k - 1)}, probit=np.prod([max(P[a, b], 1 - P[a, b]) for b in Q if b != a]))[how]
    p = p / p.sum()
    like = like / like.sum(axis=0)
    out = entropy(pB)
    for x in range(k):
        post = like[x] * pB
        if p[x] * post.sum() > 0:                # (answers that cannot be given weigh nothing)
            out -= p[x] * entropy(post / post.sum())
    return out


def prob_best(mu, cov, i):
    from scipy.stats import multivariate_normal
    n = len(mu)
    o = [j for j in range(n) if j != i]
    K = cov[i, i] + cov[np.ix_(o, o)] - cov[i, o][None, :] - cov[i, o][:, None]
    return float(multivariate_normal(mean=mu[o] - mu[i], cov=K).cdf(np.zeros(n - 1)))


# ----------------------------------------------------------------------- judge
def judge(ctx, rec, model, case, cand, q, sel, ns, after):
    m = case['model']
    lik = L.lik_args(m)
    n = len(cand)
    linear = m['type'] == 'plin'
    snap = copy.deepcopy(model)
    mixed = case['spec']['l'] in learn.MIXED
    inside(ctx, rec, case, q, sel, mixed)
    for st in rec.steps:
        s, name = st['spec'], st['spec']['l']
        el, prev, got = st['el'], st['prev'], st['got']
        tag = '%s%s (%s of %s from %s, query so far %s)' % (name, '/' + s['f'] if 'f' in s else '', st['kind'], got, el, prev)
        ctx.check(all(g in el for g in got) and len(set(got)) == len(got), '%s: not among the candidates to choose from' % tag, 'range')
        draws = rec.draws[st['first']:st['last']]
        shared = not draws
        if shared and name in ('acq', 'absacq') and mixed:
            draws = rec.draws[:1]              # drawn once for the whole query
        if name in ('acq', 'absacq', 'mutual') and len(draws) == 0:
            continue                             # nothing drawn: a first point at random
        if name == 'mutual' or name in ('acq', 'absacq'):
            kind, mean, cov, D = draws[-1]
        rep = st['rep']
        F = R = None
        if name in ('acq', 'absacq'):
            if rep is None or rep[0] is None:
                continue
            x_rep, Q = np.asarray(rep[0]), np.asarray(rep[1])
            representative(ctx, snap, case, s, cand, x_rep, Q, q, tag, name)
            if mixed and shared:
                # drawn once for the whole query, at the points represented then
                x_rep = np.asarray(rec.reps[id(lead(rec))][0][0])
                ctx.probe('shared')
            x = np.concatenate([cand, x_rep], axis=0)
            if len(D) != s['M']:
                ctx.check(False, '%s: %d samples drawn, asked for %d' % (tag, len(D), s['M']), 'samples')
        elif name == 'mutual':
            x = cand
        if name in ('acq', 'absacq', 'mutual'):
            if kind == 'mh':
                V = x @ D.T
                V = V.T
                ctx.probe('linear')
            else:
                V = D
                if name == 'absacq' and V.shape[1] == len(el) + len(x_rep) < len(x):
                    # drawn for the candidates to choose from only
                    x = np.concatenate([cand[el], x_rep], axis=0)
                    cols = [el.index(i) if i in el else 0 for i in range(n)]
                    V = np.concatenate([D[:, :len(el)][:, cols], D[:, len(el):]], axis=1)
                ctx.check(D.shape[1] == len(x), '%s: drew values of %d points for %d' % (tag, D.shape[1], len(x)), 'drawn')
                posterior(ctx, snap, x, mean, cov, tag)
            F, R = V[:, :n], V[:, n:]
        value, tol = None, TOL
        if name == 'mutual':
            vals = {(i,): mutual_information(F, prev + [i], 10) for i in el}
        elif name == 'acq':
            f = similarity(s['f'], R, Q, lik['sigma'])
            if st['kind'] == 'select_pair':
                vals = {(i, j): expected_alignment(f, choice_probs(F, [i, j], lik['sigma'])) for i, j in combinations(el, 2)}
            elif prev:
                vals = {(i,): expected_alignment(f, choice_probs(F, prev + [i], lik['sigma'])) for i in el}
            else:
                continue
        elif name == 'absacq':
            f = similarity(s['f'], R, Q, lik['sigma'])
            ml = np.clip(phi(F / (math.sqrt(2.0) * lik['abs_sigma'])), 1e-10, 1 - 1e-10)
            v = lik['v']
            vals = {(i,): rating_alignment(f, v * ml[:, i], v - v * ml[:, i]) for i in el}
            tol = 4e-3
            ctx.probe('rating')
        elif name == 'bayes':
            if snap.X_train is None or (st['kind'] == 'select_greedy' and not prev):
                continue                         # a first point at random
            mu = st['mu']
            if linear:
                mh = [x for x in rec.draws[:st['last']] if x[0] == 'mh']
                if not mh:
                    continue
                b = np.argmax(cand @ mh[-1][3].T, axis=0)
                pB = np.bincount(b, minlength=n) / len(b)
            else:
                snap.predict(cand)
                pB = best_probs(mu, snap.cov)
            P = pair_probs(mu, lik['sigma'])
            if st['kind'] == 'select_pair':
                vals = {(i, j): best_info(pB, P, i, j, s['m']) for i, j in combinations(el, 2)}
            else:
                vals = {(i,): best_info_set(pB, P, prev + [i], s['m']) for i in el}
        elif name == 'prob':
            if n < 2:
                continue
            mu, _ = snap.predict(cand)
            mu, K = np.array(mu), np.array(snap.cov)
            try:
                vals = {(i,): prob_best(mu, K, i) for i in el}
            except (np.linalg.LinAlgError, ValueError):
                continue
            tol = 2e-3
        a = np.array(list(vals.values()))
        if not np.all(np.isfinite(a)):
            ctx.probe('undefined')
            continue
        key = tuple(sorted(got)) if st['kind'] == 'select_pair' else tuple(got)
        top = max(vals, key=vals.get)
        scale = max(1.0, np.abs(a).max()) if tol == TOL else max(np.abs(a).max(), 1e-3)
        ctx.check(vals[key] >= vals[top] - tol * scale, '%s: its measure is %.8g, that of %s is %.8g' % (tag, vals[key], list(top), vals[top]), 'best')
        if name != 'prob' and st['metric'] is not None:
            ctx.check(abs(float(st['metric']) - vals[key]) <= 3 * tol * scale, '%s: reports the measure %.8g, it is %.8g' % (tag, float(st['metric']), vals[key]), 'metric')
            ctx.probe('metric')
        ctx.nontrivial = True
        ctx.probe('judged')
        ctx.probe('pair' if st['kind'] == 'select_pair' else 'greedy')
        if after:
            ctx.probe('after_failure')
        ctx.state(name, s.get('f'), s.get('m'), m['type'], st['kind'], len(el), len(prev), shared, after)


def lead(rec):
    """The learner that draws the samples the others share."""
    return next(l for s, l in rec.learners if s['l'] == 'acq')


def inside(ctx, rec, case, q, sel, mixed):
    """Every step was given what is in the query so far and what is left."""
    if mixed:
        return
    spec = case['spec']
    seen, prev = [], set(q['prev'])
    if spec.get('best') and not prev and sel:
        prev.add(sel[0])
    for st in rec.steps:
        got = set(st['prev'])
        ctx.check(not got & set(st['el']), '%s: offered %s again, in the query already' % (spec['l'], sorted(got & set(st['el']))), 'offered')
        if q['ns']:
            ctx.check(prev <= got and got <= prev | set(seen), '%s: a step was told the query so far is %s, earlier choices are %s and %s' % (spec['l'], sorted(got), sorted(prev), seen), 'so-far')
        else:
            ctx.check(got == prev | set(seen), '%s: a step was told the query so far is %s, it is %s' % (spec['l'], sorted(got), sorted(prev | set(seen))), 'so-far')
        seen += st['got']


def posterior(ctx, snap, x, mean, cov, tag):
    """The draw came from the posterior at these points."""
    try:
        mu, _ = snap.predict(x)
    except np.linalg.LinAlgError:
        raise Reject('ill-conditioned')
    mu, K = np.array(mu, dtype=float).ravel(), np.array(snap.cov, dtype=float)
    tol = 1e-5 * max(1.0, np.abs(mu).max(), np.abs(K).max())
    ctx.check(mean.shape == mu.shape and np.abs(mean - mu).max() <= tol, '%s: drawn around %s, the posterior mean is %s' % (tag, mean[:4], mu[:4]), 'posterior')
    ctx.check(cov.shape == K.shape and np.abs(cov - K).max() <= tol, '%s: drawn with another covariance than that of the posterior (by %.3g)'
              % (tag, np.abs(cov - K).max() if cov.shape == K.shape else np.nan), 'posterior')
    ctx.probe('posterior')


def representative(ctx, snap, case, s, cand, x_rep, Q, q, tag, name):
    k = 2 if name == 'absacq' else max(2, q['k'])
    if s.get('stable'):
        X = L.shape_points(case['stable'], case['d'])
        ctx.check(np.array_equal(X, x_rep), '%s: the representative points are not those of the file' % tag, 'representative')
        per = len(X) // 10
        want = [tuple(e * per + i for i in c) for e in range(10) for c in combinations(range(per), k)]
        ctx.check(sorted(map(tuple, Q.tolist())) == sorted(want), '%s: the representative queries are not those within each environment' % tag, 'representative')
        ctx.probe('stable')
        return
    X = np.asarray(snap.X_train)
    pool = X if len(X) >= 4 else np.concatenate([X, cand], axis=0)
    N = min(len(pool), s['rep']['num_pts'])
    rows = [tuple(r) for r in pool.tolist()]
    for r in x_rep.tolist():
        ctx.check(tuple(r) in rows, '%s: represented by a point that is neither data nor candidate' % tag, 'representative')
        rows.remove(tuple(r))
    ctx.check(len(x_rep) == N, '%s: %d representative points, expected %d' % (tag, len(x_rep), N), 'representative')
    want = min(s['rep']['num_Q'], math.comb(N, k))
    ctx.check(len(Q) == want, '%s: %d representative queries of %d, expected %d' % (tag, len(Q), k, want), 'representative')
    if want:
        ctx.check(Q.shape[1] == k and Q.min() >= 0 and Q.max() < N and all(len(set(r)) == k for r in Q.tolist()) and len({frozenset(r) for r in Q.tolist()}) == len(Q),
                  '%s: the representative queries are not distinct sets of %d of the %d points' % (tag, k, N), 'representative')
    ctx.probe('representative')


@contextlib.contextmanager
def rep_file(case):
    """The file of representative points of a stable comparison."""
    orig = np.load

    def load(f, *a, **k):
        if f == 'sim:rep':
            return L.shape_points(case['stable'], case['d'])
        return orig(f, *a, **k)
    np.load = load
    try:
        yield
    finally:
        np.load = orig


def execute(case, ctx):
    with rep_file(case):
        run(case, ctx)


def run(case, ctx):
    d, spec = case['d'], case['spec']
    models = []
    for o in case['models']:
        mod = L.build_model(case['model'])
        for op in o:
            if op[1]:
                L.deliver(mod, op, d)
        models.append(mod)
    made = []

    def build(s):
        l = learn.build_learner(s, lambda x: build(x) if x is not s else None)
        if s.get('stable') and 'rep' in s:
            l.rep_Q_method, l.rep_Q_data = 'stable', {'filename': 'sim:rep'}
        if s['l'] in JUDGED:
            made.append((s, l))
        return l
    learner = build(spec)
    rec = Recorder(made)
    cur, after = 0, None

    def attach():
        models[cur].active_learner = learner
        learner.set_model(models[cur])
    attach()
    for op in case['ops']:
        if op[0] == 'add':
            if op[1][1]:
                L.deliver(models[cur], op[1], d)
            continue
        if op[0] == 'model':
            cur = op[1]
            attach()
            ctx.probe('other_model')
            continue
        pts, q, f, pre = op[1:]
        model = models[cur]
        cand = L.shape_points(pts, d)
        if pre:
            try:
                model.predict(cand)
            except np.linalg.LinAlgError:
                raise Reject('ill-conditioned')
        if f['kind'] == 'worker':
            after = worker(ctx, learner, cand, q, f) or after
            continue
        if f['kind'] != 'none':
            out, where = c07.attempt(ctx, model, learner, spec, pts, q, f, d)
            if out != 'completed':
                after = f['kind']
            continue
        with seams.pool(seams.Pool()), rec.recording():
            try:
                sel, ns = learn.unpack(learn.call(learner, cand, q), q['ns'])
            except np.linalg.LinAlgError:
                raise Reject('ill-conditioned')
        if spec['l'] == 'prob':
            ctx.log('prob', len(sel))
        else:
            ctx.log(spec['l'], sel, ns)
        judge(ctx, rec, model, case, cand, q, sel, ns, after)


def worker(ctx, learner, cand, q, f):
    """A selection whose pool of workers fails."""
    try:
        with seams.pool(seams.Pool(fail=(int(f['at'] * 40),), ctx=ctx)):
            learn.call(learner, cand, q)
    except OSError:
        return 'worker'
    except np.linalg.LinAlgError:
        raise Reject('ill-conditioned')
    return None


def warmup():
    learn.warm()


def simplify(case):
    for k in (0, 1):
        for j, op in enumerate(case['models'][k]):
            for s in L.shrink_delivery(op):
                c = copy.deepcopy(case)
                c['models'][k][j] = s
                yield c
    for j, op in enumerate(case['ops']):
        if op[0] == 'add':
            for s in L.shrink_delivery(op[1]):
                c = copy.deepcopy(case)
                c['ops'][j][1] = s
                yield c
        elif op[0] == 'sel':
            if op[3]['kind'] != 'none':
                c = copy.deepcopy(case)
                c['ops'][j][3]['kind'] = 'none'
                yield c
            for s in learn.simpler(op[2]):
                c = copy.deepcopy(case)
                c['ops'][j][2] = s
                yield c
