"""C14: random query sets and cross-validation folds are valid and unbiased."""
import contextlib, copy, itertools, math, random
import numpy as np
from sim import lopsys as L, seams, learn
from sim.core import Violation, Reject

ID = 'C14'
RUNS = {'quick': 4000, 'thorough': 150000}
BOUNDED = True
CPU_LIMIT = 40
RULE = ('one run = a batch of draws of one kind (unique sets, sets with repeats, representative queries of a learner, folds and their restriction) of seeded '
        'size, up to and beyond the number of possible sets, under seeded or adversarial random draws; every result is checked for validity, batches for '
        'uniformity, all for termination; non-trivial: more than one possible result')
MEASURE = 'distinct (kind, sizes, draws, data types) combinations'
ASSUMPTIONS = ['uniformity is judged per set with an exponential tail bound of 1e-12', 'elements to draw from are distinct integers']
REQUIRED_PROBES = ['all-sets', 'beyond', 'uniform', 'fold', 'restrict', 'bursts', 'rep', 'few-points', 'ratings-only', 'model-data', 'nonunique', 'fold-extreme']


def generate(rng, i):
    k = rng.choice(['sets', 'sets', 'fold', 'fold', 'fold', 'restrict', 'rep', 'uniform', 'nonunique', 'beyond'])
    c = dict(kind=k, form=rng.choice(['int', 'int', 'list', 'array', 'range']), ds=rng.getrandbits(30))
    if k in ('sets', 'uniform', 'beyond', 'nonunique'):
        n = rng.choice([1, 2, 3, 4, 5, 6, 8] if k != 'sets' else [1, 2, 3, 4, 5, 6, 8, 12, 20, 40])
        size = rng.randint(1, min(n, 5))
        if k == 'uniform':
            size = min(size, 3)
        cmb = math.comb(n, size)
        c.update(n=n, size=size, off=rng.choice([0, 1, 7, 1000, -5]), step=rng.choice([1, 2, 3]), perm=rng.getrandbits(20))
        if k == 'beyond':
            if rng.random() < 0.3:
                c['size'] = n + rng.randint(1, 3)
                c['num'] = rng.randint(1, 5)
            else:
                c['num'] = cmb + rng.choice([1, 1, 2, 10, 1000])
        else:
            c['num'] = min(rng.choice([1, 2, 3, 5, cmb, max(1, cmb - 1), rng.randint(1, cmb)]), cmb, 400)
        c['burst'] = rng.choice([0, 0, 0, 1, 3, 20])
    elif k == 'rep':
        d = rng.choice([1, 2])
        c.update(d=d, npts=rng.choice([2, 3, 5, 6, 12]), N=rng.choice([2, 3, 5, 20]), num=rng.choice([1, 3, 10, 50]), alts=rng.choice([1, 2, 3]), m=L.gen_model(rng, ('pgp',)))
        c['alts'] = min(c['alts'], c['N'])
    else:
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 17, 30])
        c.update(n=n, k=rng.choice([1, 2, 2, 3, 4, 4, 5, 10]), draws=rng.choice(['real', 'real', 'low', 'high', 'mix']), d=rng.choice([1, 2]), src=rng.choice(['plain', 'plain', 'model']))
        c['prefs'] = [[rng.choice([-1, 1]), *rng.sample(range(n), 2)] for _ in range(rng.choice([0, 1, n // 2, n, 3 * n]))] if n > 1 else []
        if rng.random() < 0.2 and n > 2:
            # one point compared with all others
            c['prefs'] = [[rng.choice([-1, 1]), 0, j] for j in range(1, n)]
        c['abs'] = [[round(rng.uniform(0.01, 0.99), 3), j] for j in rng.sample(range(n), rng.choice([0, 0, n // 2, n]))]
        c['ord'] = [[rng.randint(1, 5), j] for j in rng.sample(range(n), rng.choice([0, 0, n // 2, n]))]
        if not (c['prefs'] or c['abs'] or c['ord']):
            c['ord'] = [[1, 0]]
        c['sub'] = rng.getrandbits(n) if k == 'restrict' else 0
        c['order'] = rng.choice(['sorted', 'shuffled'])
    return c


def source(c):
    """what is passed, and its elements"""
    n = c['n']
    el = list(range(c['off'], c['off'] + n * c['step'], c['step']))
    random.Random(c['perm']).shuffle(el)
    if c['form'] == 'int':
        return n, list(range(n))
    if c['form'] == 'range':
        return range(n), list(range(n))
    return (list(el) if c['form'] == 'list' else np.array(el)), el


@contextlib.contextmanager
def burst(k, ctx):
    """The first k draws all come out alike."""
    if not k:
        yield
        return
    orig = np.random.choice
    memo = {}
    def choice(a, size=None, replace=True, p=None):
        r = orig(a, size, replace, p)
        key = (repr(a), size, replace)
        if memo.setdefault(key, [0, copy.copy(r)])[0] < k:
            memo[key][0] += 1
            ctx.fault('repeated-draw')
            return copy.copy(memo[key][1])
        return r
    np.random.choice = choice
    try:
        yield
    finally:
        np.random.choice = orig


def check_sets(ctx, c, out, el, num, unique=True):
    what = '%s sets of %d of %d elements (%s)' % (num, c['size'], len(el), c['form'])
    out = np.asarray(out)
    ctx.check(out.shape == (num, c['size']), '%s: result of shape %s' % (what, out.shape), 'number')
    ctx.check(np.all(np.isfinite(out)) and np.all(out == np.round(out)), '%s: elements that are no candidates' % what, 'element')
    E = set(el)
    rows = [tuple(int(v) for v in r) for r in out]
    for r in rows:
        ctx.check(all(v in E for v in r), '%s: %s holds a stranger' % (what, r), 'element')
        ctx.check(len(set(r)) == len(r), '%s: %s repeats a candidate' % (what, r), 'repeated-element')
    fs = [frozenset(r) for r in rows]
    if unique:
        ctx.check(len(set(fs)) == len(fs), '%s: the same set twice' % what, 'repeated-set')
    return fs


def tail(k, n, p):
    """bound on the probability of being this far from n * p"""
    t = abs(k - n * p)
    v = n * p * (1 - p)
    return 2 * math.exp(-t * t / (2 * v + 2 * t / 3 + 1e-9))


def execute(case, ctx):
    return globals()['run_' + case['kind']](case, ctx)


def run_sets(c, ctx):
    from lop import utilities as U
    s, el = source(c)
    keep = copy.copy(s)
    cmb = math.comb(c['n'], c['size'])
    if c['num'] > cmb:
        raise Reject('more than exist')
    if c['num'] == cmb:
        ctx.probe('all-sets')
    if c['burst']:
        ctx.probe('bursts')
    with burst(c['burst'], ctx):
        out = U.sample_unique_sets(s, c['num'], c['size'])
    fs = check_sets(ctx, c, out, el, c['num'])
    ctx.check(np.array_equal(np.array(s), np.array(keep)), 'the elements passed in were changed', 'argument-changed')
    ctx.nontrivial = cmb > 1
    ctx.state('sets', c['n'], c['size'], c['num'], c['form'], c['burst'])
    ctx.log(sorted(sorted(f) for f in fs))


def run_beyond(c, ctx):
    from lop import utilities as U
    s, el = source(c)
    cmb = math.comb(c['n'], c['size'])
    ctx.probe('beyond')
    ctx.nontrivial = True
    ctx.state('beyond', c['n'], c['size'], c['num'], c['form'])
    try:
        out = np.asarray(U.sample_unique_sets(s, c['num'], c['size']))
    except Exception as e:
        ctx.log('raised', type(e).__name__)
        return
    ctx.log('returned', out.shape)
    check_sets(ctx, c, out, el, cmb)


def run_nonunique(c, ctx):
    from lop import utilities as U
    s, el = source(c)
    ctx.probe('nonunique')
    R = 30
    tot = {}
    m = c['num']
    for _ in range(R):
        for f in check_sets(ctx, c, U.sample_nonunique_sets(s, m, c['size']), el, m, unique=False):
            tot[f] = tot.get(f, 0) + 1
    cmb = math.comb(c['n'], c['size'])
    for t in itertools.combinations(el, c['size']):
        k = tot.get(frozenset(t), 0)
        ctx.check(tail(k, R * m, 1 / cmb) > 1e-12, 'sets with repeats: %s drawn %d times of %d, %.1f expected' % (t, k, R * m, R * m / cmb), 'bias')
    ctx.nontrivial = cmb > 1
    ctx.state('nonunique', c['n'], c['size'], m, c['form'])
    ctx.log(sorted((sorted(k), v) for k, v in tot.items()))


def run_uniform(c, ctx):
    from lop import utilities as U
    s, el = source(c)
    cmb = math.comb(c['n'], c['size'])
    num = min(c['num'], cmb)
    if cmb < 2:
        raise Reject('one set only')
    R = max(60, min(1500, 12000 // num if num * 3 < cmb else 900))
    if num > 20:
        R = 150
    tot, first = {}, {}
    for _ in range(R):
        fs = check_sets(ctx, c, U.sample_unique_sets(s, num, c['size']), el, num)
        for f in fs:
            tot[f] = tot.get(f, 0) + 1
    ctx.probe('uniform')
    ctx.nontrivial = True
    ctx.state('uniform', c['n'], c['size'], num, c['form'])
    ctx.log(sorted((sorted(k), v) for k, v in tot.items()))
    for t in itertools.combinations(el, c['size']):
        k = tot.get(frozenset(t), 0)
        ctx.check(tail(k, R, num / cmb) > 1e-12, '%d of the %d sets of %d of %d candidates: %s drawn in %d of %d batches, %.1f expected'
                  % (num, cmb, c['size'], c['n'], t, k, R, R * num / cmb), 'bias')
    # a candidate's total does not depend on which one it is
    if num == 1:
        for e in el:
            k = sum(v for f, v in tot.items() if e in f)
            ctx.check(tail(k, R, c['size'] / c['n']) > 1e-12, 'candidate %s is in %d of %d sets' % (e, k, R), 'bias')


def run_rep(c, ctx):
    from lop.active_learning import AcquisitionSelection
    rs = np.random.RandomState(c['ds'] % 2 ** 31)
    n = c['npts']
    X = np.round(rs.random_sample((n, c['d'])), 3) + np.arange(n)[:, None]
    m = L.build_model(c['m'])
    m.add(X.copy(), [(-1, j, j + 1) for j in range(n - 1)])
    l = AcquisitionSelection(rep_Q_data=dict(num_pts=c['N'], num_Q=c['num']))
    l.set_model(m)
    l.num_alts = c['alts']
    cand = np.round(rs.random_sample((5, c['d'])), 3) - 8 + np.arange(5)[:, None]   # no two points alike
    keep = cand.copy()
    alts = 2 if c['alts'] == 1 else c['alts']
    pool = X if n >= 4 else np.append(X, cand, axis=0)
    if n < 4:
        ctx.probe('few-points')
    N = min(c['N'], len(pool))
    if alts > N:
        raise Reject('queries larger than the representative set')
    num = min(c['num'], math.comb(N, alts))
    R = 120
    cnt = np.zeros(len(pool), int)
    for _ in range(R):
        P, Q = l.get_representative_Q(cand)
        check_sets(ctx, dict(size=alts, form='rep'), Q, list(range(N)), num)
        ctx.check(P.shape == (N, c['d']), 'representative points of shape %s, %d asked for' % (P.shape, N), 'number')
        idx = [int(np.argmin(np.abs(pool - p).sum(1))) for p in P]
        ctx.check(np.array_equal(pool[idx], P), 'representative points that the model does not hold', 'element')
        ctx.check(len(set(idx)) == N, 'a representative point is drawn twice', 'repeated-element')
        cnt[idx] += 1
    ctx.probe('rep')
    ctx.check(np.array_equal(cand, keep) and np.array_equal(m.X_train, X), 'drawing representative queries changed the points', 'argument-changed')
    for j in range(len(pool)):
        ctx.check(tail(cnt[j], R, N / len(pool)) > 1e-12, 'point %d of %d is in %d of %d representative sets of %d' % (j, len(pool), cnt[j], R, N), 'bias')
    ctx.nontrivial = len(pool) > N
    ctx.state('rep', n, N, num, alts, c['d'])
    ctx.log(cnt)


# ------------------------------------------------------------------- folds
def stored(c, ctx):
    """-> X, y (as held), through a real model if so configured"""
    X = np.arange(c['n'] * c['d'], dtype=float).reshape(c['n'], c['d']) / 7
    y = [None, None, None]
    if c['prefs']:
        y[0] = np.array([tuple(p) for p in c['prefs']])
    if c['ord']:
        y[1] = (np.array([v for v, _ in c['ord']]), np.array([j for _, j in c['ord']]))
    if c['abs']:
        y[2] = (np.array([v for v, _ in c['abs']]), np.array([j for _, j in c['abs']]))
    if c['src'] != 'model':
        return X, y
    ctx.probe('model-data')
    from lop.models import PreferenceGP
    from lop.kernels import RBF_kern
    m = PreferenceGP(RBF_kern(1.0, 1.0))
    first = True
    for t, k in ((0, 'relative_discrete'), (1, 'ordinal'), (2, 'abs')):
        if y[t] is None:
            continue
        if t == 0:
            # the points come with their first observation
            m.add(X, [tuple(int(v) for v in p) for p in y[0]], type=k)
            first = False
        else:
            v, j = y[t]
            if first:
                m.add(X[j], v, type=k)
                first = False
                # what is held now is in another order
                X2 = m.X_train
                return np.array(X2), m.y_train
            m.add(np.array(X[j]), v, type=k)
    return np.array(m.X_train), m.y_train


@contextlib.contextmanager
def extreme(kind, seed, ctx):
    if kind == 'real':
        yield
        return
    r = random.Random(seed)
    ctx.probe('fold-extreme')
    ctx.fault('extreme-draws')
    def pick(lo, hi):
        return {'low': lo, 'high': hi - 1}.get(kind) if kind != 'mix' else r.choice([lo, hi - 1, r.randrange(lo, hi)])
    def randint(low, high=None, size=None, dtype=int):
        lo, hi = (0, low) if high is None else (low, high)
        return pick(int(lo), int(hi)) if size is None else np.array([pick(int(lo), int(hi)) for _ in range(int(np.prod(size)))]).reshape(size)
    def shuffle(x):
        if kind == 'high' or (kind == 'mix' and r.random() < 0.5):
            x[:] = x[::-1]
    saved = np.random.randint, random.shuffle, np.random.shuffle
    np.random.randint, random.shuffle, np.random.shuffle = randint, shuffle, shuffle
    try:
        yield
    finally:
        np.random.randint, random.shuffle, np.random.shuffle = saved


def same(a, b):
    return repr(plain(a)) == repr(plain(b))


def plain(y):
    if y is None:
        return None
    if isinstance(y, (list, tuple)):
        return [plain(v) for v in y]
    return np.asarray(y).tolist()


def rows(y):
    """-> multiset-free, ordered observations of the three types"""
    out = [[], [], []]
    if y[0] is not None:
        out[0] = [(int(p[0]), int(p[1]), int(p[2])) for p in y[0]]
    for t in (1, 2):
        if y[t] is not None:
            out[t] = [(float(v), int(j)) for v, j in zip(np.ravel(y[t][0]), np.ravel(y[t][1]))]
    return out


def run_fold(c, ctx):
    from lop import utilities as U
    X, y = stored(c, ctx)
    n = len(X)
    k = c['k']
    if k < 2:
        raise Reject('no folds')
    keepX, keepy = X.copy(), copy.deepcopy(y)
    if not c['prefs']:
        ctx.probe('ratings-only')
    for rep in range(3):
        with extreme(c['draws'], c['ds'] + rep, ctx):
            S = U.k_fold_x_y(X, y, k)
        ctx.check(np.array_equal(X, keepX) and same(y, keepy), 'making %d folds of %d points changed the data' % (k, n), 'argument-changed')
        m = min(k, n // 2)
        ctx.state('fold', n, k, c['draws'], len(c['prefs']), bool(c['abs']), bool(c['ord']), c['src'])
        if m < 2:
            ctx.log('none', n, k, S is None)
            ctx.check(S is None or sorted(int(v) for s in S for v in s) == list(range(n)), 'too few points for folds, answered with %s' % (S,), 'partition')
            return
        ctx.nontrivial = True
        ctx.probe('fold')
        S = [[int(v) for v in s] for s in S]
        ctx.log(S)
        flat = sorted(v for s in S for v in s)
        ctx.check(flat == list(range(n)), '%d folds of %d points (%d preferences): %s is no partition' % (k, n, len(c['prefs']), S), 'partition')
        ctx.check(len(S) == m, '%d folds of %d points asked for, %d made' % (k, n, len(S)), 'number')
        ctx.check(max(len(s) for s in S) <= math.ceil(n / m), '%d folds of %d points: sizes %s, at most %d each' % (m, n, [len(s) for s in S], math.ceil(n / m)), 'fold-size')
        # the folds and what is left of the data without each
        for s in S:
            restrict(ctx, X, y, s)
            restrict(ctx, X, y, [v for t in S if t is not s for v in t])


def restrict(ctx, X, y, idx):
    from lop import utilities as U
    keep = copy.deepcopy(y)
    ki = list(idx)
    z = U.get_y_with_idx(y, idx)
    ctx.check(same(y, keep) and list(idx) == ki, 'restricting the data to %d points changed it' % len(ki), 'argument-changed')
    pos = {int(v): j for j, v in enumerate(ki)}
    r = rows(y)
    want = [[(d, pos[u], pos[v]) for d, u, v in r[0] if u in pos and v in pos]] + [[(v, pos[j]) for v, j in r[t] if j in pos] for t in (1, 2)]
    got = rows(z)
    for t, what in enumerate(('preferences', 'labels', 'ratings')):
        ctx.check(sorted(got[t]) == sorted(want[t]), '%s restricted to the points %s: %s, expected %s' % (what, ki, got[t], want[t]), 'restriction')
    ctx.probe('restrict')
    return got


def run_restrict(c, ctx):
    X, y = stored(c, ctx)
    idx = [j for j in range(len(X)) if c['sub'] >> (j % max(c['n'], 1)) & 1]
    if c['order'] == 'shuffled':
        random.Random(c['ds']).shuffle(idx)
    if c['form'] == 'array':
        idx = np.array(idx, dtype=int)
    got = restrict(ctx, X, y, idx)
    ctx.nontrivial = len(idx) > 1
    ctx.state('restrict', len(X), len(idx), c['order'], c['form'], c['src'], len(c['prefs']), bool(c['abs']), bool(c['ord']))
    ctx.log(got)


def warmup():
    pass


def simplify(case):
    for k, v in (('burst', 0), ('src', 'plain'), ('draws', 'real'), ('form', 'int')):
        if case.get(k) not in (None, v):
            yield dict(case, **{k: v})
    for k in ('prefs', 'abs', 'ord'):
        if case.get(k):
            yield dict(case, **{k: []})
            yield dict(case, **{k: case[k][:len(case[k]) // 2]})
