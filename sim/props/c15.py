"""C15: synthetic users answer as their choice model says."""
import contextlib, copy, math, random
import numpy as np
from sim import lopsys as L, seams
from sim.core import Violation, Reject

ID = 'C15'
RUNS = {'quick': 1500, 'thorough': 60000}
RULE = ('one run = a history of choices, ratings, pair answers, calibrations (achievable, impossible, on inseparable rewards, failing part-way), parameter '
        'changes and randomisations over one to three users, who may share a reward function; choice frequencies and the distribution of ratings are '
        'tested against the stated model after any such history; non-trivial: a noisy user answered at least once')
MEASURE = 'distinct (user, reward function, dimension, sequence of operations) combinations'
ASSUMPTIONS = ['frequencies are judged with an exponential tail bound of 1e-12 per candidate, ratings by a Kolmogorov-Smirnov bound of 1e-12',
               'the accepted calibration error is the one the solver accepts (squared error 0.02 for HumanChoiceUser), plus sampling noise of its evaluation set',
               'functions of one variable are given one-dimensional candidate arrays']
REQUIRED_PROBES = ['perfect', 'human', 'human2', 'choose', 'rate', 'pairs', 'calibrated', 'calibrated2', 'calibration-error', 'fake-fails', 'shared-function', 'after-calibration', 'ragged', 'inseparable', 'wide', 'grid', 'uninitialised', 'large-batch']
FAKES = ['FakeLinear', 'FakeSquared', 'FakeLogistic', 'FakeSinExp', 'FakeWeightedMax', 'FakeWeightedMin', 'FakeSquaredMinMax', 'FakeMixtureGaussian', 'FakeMinLog']


def gen_user(rng):
    return dict(kind=rng.choice(['perfect', 'human', 'human', 'human2', 'human2']), beta=rng.choice([None, 0.3, 1.0, 3.0, 20.0]), sigma=rng.choice([None, 0.1, 0.5, 2.0]),
                fake=rng.randrange(2))


def generate(rng, i):
    d = rng.choice([1, 2, 2, 3])
    n = rng.choice([1, 1, 2, 2, 3])
    fk = [rng.choice(FAKES + (['FakeStaticSin'] if d == 1 else [])) for _ in range(2)]
    ops = []
    for _ in range(rng.randint(1, 6)):
        u = rng.randrange(n)
        k = rng.choice(['choose', 'choose', 'rate', 'pairs', 'calibrate', 'calibrate', 'set', 'randomize'])
        o = dict(op=k, u=u, ds=rng.getrandbits(24), k=rng.choice([2, 2, 3, 4, 6, 15]), scale=rng.choice([1.0, 1.0, 0.3, 2.0, 12.0]), form=rng.choice(['plain', 'plain', 'view', 'fortran', 'readonly']))
        if rng.random() < 0.06:
            o['k'] = 1
        if k == 'calibrate':
            o.update(N=rng.choice([4, 8, 12, 25, 40]), p=rng.choice([0.6, 0.7, 0.8, 0.9, 0.95]), ps=rng.choice([None, None, 0.7, 0.85]), Q=rng.choice([2, 2, 2, 3]),
                     envs=[[rng.choice([8, 8, 8, 12, 20]) for _ in range(rng.choice([1, 2, 2, 3]))] for _ in range(rng.choice([1, 2, 3]))],
                     spread=rng.choice(['uniform', 'uniform', 'uniform', 'wide', 'same', 'grid', 'grid']), levels=rng.choice([2, 3, 4]))
            if rng.random() < 0.5:
                # as many problems in every environment
                o['envs'] = [o['envs'][0]] * len(o['envs'])
            if rng.random() < 0.04:
                o['envs'] = [[520, 505]]
            if rng.random() < 0.2:
                o['fail'] = rng.choice([0, 1, 2, 3])
        if k == 'set':
            o.update(beta=rng.choice([0.2, 1.5, 8.0]), sigma=rng.choice([0.2, 1.0]))
        ops.append(o)
    # every history ends with answers
    ops.append(dict(op=rng.choice(['choose', 'rate']), u=rng.randrange(n), ds=rng.getrandbits(24), k=rng.choice([2, 3, 5]), scale=1.0, form='plain'))
    return dict(d=d, users=[gen_user(rng) for _ in range(n)], fakes=fk, ops=ops, fs=rng.getrandbits(24))


class FakeFailed(RuntimeError):
    pass


class Wrapped:
    """The reward function as the user sees it; fails at a chosen call."""

    def __init__(self, f):
        self.f, self.at, self.n, self.error = f, None, 0, None

    def __call__(self, r, data=None):
        if self.at is not None:
            if self.n == self.at:
                self.error = FakeFailed('reward function failed')
                raise self.error
            self.n += 1
        return self.f(r)


def points(o, d, n, scale=1.0):
    rs = np.random.RandomState(o['ds'] % (2 ** 31))
    X = rs.random_sample((n, d)) * scale
    if d == 1:
        X = X[:, 0]
    f = o.get('form')
    if f == 'view':
        big = np.full((2 * n,) + X.shape[1:], 77.0)
        big[::2] = X
        X = big[::2]
    elif f == 'fortran':
        X = np.asfortranarray(X)
    elif f == 'readonly':
        X = X.copy()
        X.setflags(write=False)
    return X


def truth(f, X, d):
    """The value of every candidate, asked for one at a time."""
    if d == 1:
        return np.array([float(np.ravel(f(np.array([float(x)])))[0]) for x in X])
    return np.array([float(np.ravel(f(np.array([r], dtype=float)))[0]) for r in np.asarray(X)])


def softmax(z):
    e = np.exp(z - np.max(z))
    return e / e.sum()


def tail(k, n, p):
    t = abs(k - n * p)
    return 2 * math.exp(-t * t / (2 * n * p * (1 - p) + 2 * t / 3 + 1e-9))


@contextlib.contextmanager
def memory(seed, ctx):
    """What freshly allocated, not yet written memory holds, decided by the seed."""
    rs = np.random.RandomState(seed)
    orig = np.empty
    def empty(shape, dtype=float, *a, **k):
        x = orig(shape, dtype, *a, **k)
        import sys
        if sys._getframe(1).f_code.co_filename.startswith(seams.SRC) and x.dtype.kind == 'f':
            x[...] = rs.choice([0.0, -3.0, 1e3, 2.0, -1e6], size=x.shape)
            ctx.fault('uninitialised-memory')
            ctx.probe('uninitialised')
        return x
    np.empty = empty
    try:
        yield
    finally:
        np.empty = orig


def params(u):
    return [(k, copy.deepcopy(getattr(u, k))) for k in ('beta', 'sigma', 'k', 'b') if hasattr(u, k)]


def fstate(f):
    return repr(sorted((k, np.asarray(v).tolist() if not hasattr(v, '__dict__') else fstate(v)) for k, v in vars(f).items()))


def execute(case, ctx):
    import lop.utilities as U
    d = case['d']
    seams.seed_all(case['fs'])
    fk = [getattr(U, n)(d) if n != 'FakeStaticSin' else U.FakeStaticSin() for n in case['fakes']]
    W = [Wrapped(f) for f in fk]
    users = []
    for s in case['users']:
        kw = {k: s[k] for k in ('beta', 'sigma') if s[k] is not None}
        cls = dict(perfect=U.PerfectUser, human=U.HumanChoiceUser, human2=U.HumanChoiceUser2)[s['kind']]
        users.append(cls(W[s['fake']]) if s['kind'] == 'perfect' else cls(W[s['fake']], **kw))
        ctx.probe(s['kind'])
    if len({s['fake'] for s in case['users']}) < len(case['users']):
        ctx.probe('shared-function')
    seams.seed_all(case['rng'])
    shown = [(s['kind'], case['fakes'][s['fake']]) for s in case['users']]
    calibrated = set()
    for o in case['ops']:
        u = o['u']
        if u >= len(users):
            continue
        s, user, f = case['users'][u], users[u], fk[case['users'][u]['fake']]
        others = [params(v) for j, v in enumerate(users) if j != u]
        fs = fstate(f)
        name = '%s user of %s in %d dimensions' % (s['kind'], case['fakes'][s['fake']], d)
        if o['op'] == 'randomize':
            f.randomize()
            fs = fstate(f)
        elif o['op'] == 'set':
            if s['kind'] != 'perfect':
                user.beta, user.sigma = o['beta'], o['sigma']
        elif o['op'] == 'calibrate':
            if s['kind'] != 'perfect' and calibrate(ctx, o, d, s, user, W[s['fake']], f, name):
                calibrated.add(u)
        else:
            if u in calibrated:
                ctx.probe('after-calibration')
            answer(ctx, o, d, s, user, f, name)
        ctx.check([params(v) for j, v in enumerate(users) if j != u] == others, '%s: %s changed another user\'s parameters' % (name, o['op']), 'shared-calibration')
        ctx.check(fstate(f) == fs, '%s: %s changed the reward function' % (name, o['op']), 'function-changed')
    ctx.state(shown, d, [o['op'] for o in case['ops']])


def believed(s, user, y):
    """-> what the noisy models work with"""
    return np.asarray(y) * user.k + user.b


def answer(ctx, o, d, s, user, f, name):
    X = points(o, d, o['k'], o['scale'])
    keep = np.array(X)
    y = truth(f, X, d)
    ctx.check(np.all(np.isfinite(y)), '%s: no finite value at %s' % (name, keep.tolist()), 'value')
    tol = 1e-9 * (1 + np.max(np.abs(y)))
    batch = np.asarray(f(np.array(X)))
    ctx.check(batch.shape == (len(X),) and np.allclose(batch, y, rtol=1e-9, atol=tol), '%s: the values of %d candidates together (%s) are not those of each alone (%s)'
              % (name, len(X), batch.tolist(), y.tolist()), 'value-shape')
    if o['op'] in ('choose', 'pairs'):
        R = (400 if o['op'] == 'choose' else 60) if s['kind'] != 'perfect' else 3
        if s['kind'] != 'perfect':
            p = softmax(user.beta * believed(s, user, y))
            ctx.nontrivial = True
        cnt = np.zeros(len(X), int)
        for _ in range(R):
            if o['op'] == 'choose':
                c = user.choose(X)
            else:
                P = [tuple(int(v) for v in q) for q in user.choose_pairs(X)]
                c = chosen(ctx, name, P, len(X))
                if c is None:
                    continue
            ctx.check(np.ndim(c) == 0 and 0 <= int(c) < len(X) and int(c) == c, '%s: chose %r of %d candidates' % (name, c, len(X)), 'choice-range')
            cnt[int(c)] += 1
        ctx.probe('choose' if o['op'] == 'choose' else 'pairs')
        ctx.log(o['op'], cnt)
        if s['kind'] == 'perfect':
            for c in np.nonzero(cnt)[0]:
                ctx.check(y[c] >= np.max(y) - tol, '%s: chose %d of the values %s' % (name, c, y.tolist()), 'not-best')
        elif cnt.sum():
            for j in range(len(X)):
                ctx.check(tail(cnt[j], R, p[j]) > 1e-12, '%s, beta %.4g: candidate %d of the values %s was chosen %d times of %d, %.1f expected'
                          % (name, user.beta, j, y.tolist(), cnt[j], R, R * p[j]), 'choice-frequency')
    else:
        ctx.probe('rate')
        x = X[0] if d > 1 else float(keep[0])
        if s['kind'] == 'perfect':
            r = user.rate(x)
            ctx.check(np.size(r) == 1, '%s: rating one candidate gives %r' % (name, r), 'rating-shape')
            r = float(np.ravel(r)[0])
            ctx.log('rate', r)
            ctx.check(0 <= r <= 1, '%s: a rating of %s' % (name, r), 'rating-range')
            # better candidates are rated at least as well
            rs = [float(np.ravel(user.rate(X[j] if d > 1 else float(keep[j])))[0]) for j in range(len(X))]
            for a in range(len(X)):
                for b in range(len(X)):
                    if y[a] > y[b] + tol:
                        ctx.check(rs[a] > rs[b] or max(rs) > 1 - 1e-12 or min(rs) < 1e-12, '%s: rates value %.4g as %.6g and value %.4g as %.6g' % (name, y[a], rs[a], y[b], rs[b]), 'rating-order')
        else:
            ctx.nontrivial = True
            R = 300
            out = [user.rate(x) for _ in range(R)]
            ctx.check(all(np.size(r) == 1 for r in out), '%s: rating one candidate gives %r' % (name, out[0]), 'rating-shape')
            r = np.array([float(np.ravel(v)[0]) for v in out])
            ctx.log('rate', float(r.mean()))
            ctx.check(np.all((r >= 0) & (r <= 1)), '%s: a rating of %s' % (name, r[(r < 0) | ~(r <= 1)][:1]), 'rating-range')
            mu = float(believed(s, user, y[:1])[0])
            ok = abs(mu) + 8 * user.sigma < 30
            if ok:
                ctx.check(np.all((r > 0) & (r < 1)), '%s: a rating of exactly 0 or 1' % name, 'rating-range')
                import scipy.special as spec
                z = np.sort((np.log(r) - np.log1p(-r) - mu) / user.sigma)
                F = spec.ndtr(z)
                D = max(np.max(np.arange(1, R + 1) / R - F), np.max(F - np.arange(R) / R))
                ctx.check(2 * math.exp(-2 * R * D * D) > 1e-12, '%s: %d ratings of a candidate of value %.4g do not spread around it by %.4g (mean %.3g, deviation %.3g of the logits, expected %.3g)'
                          % (name, R, y[0], user.sigma, (z * user.sigma + mu).mean(), (z * user.sigma).std(), mu), 'rating-distribution')
            # several at once are rated each for itself
            b = np.asarray(user.rate(np.array(X)))
            ctx.check(b.shape == (len(X),), '%s: %d candidates rated together give %s' % (name, len(X), b.shape), 'rating-shape')
    ctx.check(np.array_equal(np.array(X), keep), '%s: answering changed the candidates' % name, 'candidates-changed')


def chosen(ctx, name, P, n):
    """-> the candidate the pairs prefer, None if there is one only"""
    if n == 1:
        ctx.check(P == [], '%s: pairs %s from one candidate' % (name, P), 'pairs')
        return None
    ctx.check(len(P) == n - 1, '%s: %d pairs from %d candidates' % (name, len(P), n), 'pairs')
    win = {u if dk < 0 else v for dk, u, v in P}
    lose = sorted(v if dk < 0 else u for dk, u, v in P)
    ctx.check(len(win) == 1, '%s: pairs %s do not prefer one candidate' % (name, P), 'pairs')
    w = win.pop()
    ctx.check(lose == [j for j in range(n) if j != w], '%s: pairs %s do not compare the choice with every other' % (name, P), 'pairs')
    return w


def rewards(o, d, n, k=0):
    q = dict(o, ds=o['ds'] + k, form='plain')
    X = points(q, d, n)
    if o['spread'] == 'wide':
        X = X * 4
    elif o['spread'] == 'grid':
        # few distinct values: every two are alike or far apart
        lo, hi = X.min(), X.max()
        X = lo + np.round((X - lo) / max(hi - lo, 1e-9) * o['levels']) / o['levels'] * (hi - lo)
    elif o['spread'] == 'same':
        X = np.repeat(X[:1], n, axis=0)
    return X


def calibrate(ctx, o, d, s, user, w, f, name):
    if o['spread'] == 'wide':
        ctx.probe('wide')
    if o['spread'] == 'same':
        ctx.probe('inseparable')
    if o['spread'] == 'grid':
        ctx.probe('grid')
    w.at, w.n, w.error = o.get('fail'), 0, None
    p, ps = o['p'], o['ps'] if o['ps'] is not None else o['p']
    try:
        if s['kind'] == 'human':
            return calibrate1(ctx, o, d, user, w, f, name, p, ps)
        return calibrate2(ctx, o, d, user, w, f, name, p, ps)
    finally:
        w.at = None


def failed(ctx, w, e, name):
    if w.error is not None:
        ctx.probe('fake-fails')
        ctx.fault('reward-function-fails')
        ctx.check(e is w.error, '%s: an error of the reward function came out of the calibration as %r' % (name, e), 'calibration-error')
        return
    ctx.probe('calibration-error')


def calibrate1(ctx, o, d, user, w, f, name, p, ps):
    Xs = rewards(o, d, o['N'])
    keep = Xs.copy()
    ctx.log('calibrate', o['N'], p, ps, o['Q'])
    try:
        user.learn_beta(Xs, p, **(dict(Q_size=o['Q']) if o['Q'] != 2 else {}), **(dict(p_sigma=o['ps']) if o['ps'] is not None else {}))
    except Exception as e:
        ctx.check(np.array_equal(Xs, keep), '%s: calibration changed the rewards' % name, 'candidates-changed')
        failed(ctx, w, e, name)
        ctx.log('error', type(e).__name__)
        return False
    ctx.check(w.error is None, '%s: an error of the reward function was swallowed by the calibration' % name, 'calibration-error')
    ctx.check(np.array_equal(Xs, keep), '%s: calibration changed the rewards' % name, 'candidates-changed')
    ctx.probe('calibrated')
    ctx.check(np.isfinite(user.beta) and np.isfinite(user.sigma) and user.sigma > 0, '%s: calibrated to beta %s, sigma %s' % (name, user.beta, user.sigma), 'calibration')
    # the accuracy over all queries of that size
    y = truth(f, Xs, d)
    z = believed(None, user, y)
    rs = np.random.RandomState(5)
    comb = math.comb(o['N'], o['Q'])
    import itertools
    Q = np.array(list(itertools.combinations(range(o['N']), o['Q'])))
    if len(Q) > 3000:
        Q = Q[rs.choice(len(Q), 3000, replace=False)]
    zq = z[Q]
    e = np.exp(user.beta * (zq - zq.max(1, keepdims=True)))
    acc = float(np.mean(e.max(1) / e.sum(1)))
    nq = int(min(comb * 0.5, 60000))
    nq = max(1, nq if nq >= 30 else min(30, comb))
    tol = math.sqrt(0.02) + 5 * 0.5 / math.sqrt(nq)
    ctx.log('accuracy', acc)
    ctx.check(abs(acc - p) <= tol, '%s: calibrated to choose right with probability %.2f, does so with %.3f over its own evaluation set (beta %.4g)' % (name, p, acc, user.beta), 'calibration-accuracy')
    R = zq[None] + user.sigma * rs.standard_normal((20,) + zq.shape)
    racc = float(np.mean(np.argmax(R, axis=2) == np.argmax(zq, axis=1)[None]))
    ctx.check(abs(racc - ps) <= tol + 0.02, '%s: calibrated to rate right with probability %.2f, does so with %.3f over its own evaluation set (sigma %.4g)' % (name, ps, racc, user.sigma), 'calibration-accuracy')
    return True


def accuracy2(z, beta, sigma):
    import scipy.special as spec
    a, b = [], []
    for v in z:
        i, j = np.triu_indices(len(v), 1)
        dd = np.abs(v[i] - v[j])
        a.append(dd)
    dd = np.concatenate(a)
    dd = dd[dd > 0]
    if len(dd) == 0:
        return None
    return float(np.mean(spec.expit(beta * dd))), float(np.mean(spec.ndtr(dd / (math.sqrt(2) * sigma))))


def calibrate2(ctx, o, d, user, w, f, name, p, ps):
    env = [[rewards(o, d, n, 17 * a + b) for b, n in enumerate(e)] for a, e in enumerate(o['envs'])]
    if o['spread'] == 'same':
        # the same everywhere: no accuracy is achievable
        env = [[np.repeat(env[0][0][:1], len(x), axis=0) for x in e] for e in env]
    keep = copy.deepcopy(env)
    sizes = [len(x) for e in env for x in e]
    if max(sizes) > 500:
        ctx.probe('large-batch')
    if len({len(e) for e in env}) > 1:
        ctx.probe('ragged')
    ctx.log('calibrate2', sizes, p, ps)
    try:
        with memory(o['ds'], ctx):
            user.learn_beta(env, p, **(dict(p_sigma=o['ps']) if o['ps'] is not None else {}))
    except Exception as e:
        if not (w.error is not None or o['spread'] == 'same'):
            raise
        failed(ctx, w, e, name)
        return False
    ctx.check(w.error is None, '%s: an error of the reward function was swallowed by the calibration' % name, 'calibration-error')
    ctx.check(all(np.array_equal(a, b) for e, k in zip(env, keep) for a, b in zip(e, k)), '%s: calibration changed the rewards' % name, 'candidates-changed')
    if o['spread'] == 'same':
        return False
    ctx.probe('calibrated2')
    z = [believed(None, user, truth(f, x, d)) for e in env for x in e]
    # the outcome is exact where every problem is used whole; otherwise up to the sample
    whole = len(set(sizes)) == 1 and sizes[0] <= 500
    lo, hi = accuracy2(z, 0.05, 4.0), accuracy2(z, 150.0, 0.01)
    if lo is None:
        return False
    acc = accuracy2(z, user.beta, user.sigma)
    tol = 0.02 if whole else 0.12
    ctx.log('accuracy', acc)
    if lo[0] + 0.02 < p < hi[0] - 0.02 and len(z[0]) >= 4:
        ctx.check(abs(acc[0] - p) <= tol, '%s: calibrated to choose right with probability %.2f, does so with %.3f (problems of %s candidates, beta %.4g)' % (name, p, acc[0], o['envs'], user.beta), 'calibration-accuracy')
    if lo[1] + 0.02 < ps < hi[1] - 0.02:
        ctx.check(abs(acc[1] - ps) <= tol, '%s: calibrated to rate right with probability %.2f, does so with %.3f (problems of %s candidates, sigma %.4g)' % (name, ps, acc[1], o['envs'], user.sigma), 'calibration-accuracy')
    return True


def warmup():
    pass


def simplify(case):
    if len(case['users']) > 1:
        yield dict(case, users=case['users'][:1], ops=[dict(o, u=0) for o in case['ops']])
    for j, o in enumerate(case['ops']):
        for k, v in (('k', 2), ('form', 'plain'), ('scale', 1.0), ('N', 8), ('envs', [[8]])):
            if k in o and o[k] != v:
                c = dict(case, ops=list(case['ops']))
                c['ops'][j] = dict(o, **{k: v})
                yield c
