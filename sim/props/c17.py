"""C17: failures surface as ordinary errors, within bounded time, and never in a debugger."""
import copy, math
import numpy as np
from sim import lopsys as L, seams, learn
from sim.core import Violation, Reject, SimTimeout

ID = 'C17'
RUNS = {'quick': 4000, 'thorough': 100000}
BOUNDED = True
CPU_LIMIT = 60
CALLS = 20000      # numerical routines per call of the library
SEARCH = 600000    # ... when the call may search hyperparameters: 600 fits of up to 100 steps of up to 10 routines
RULE = ('one run = a history of 3-10 library calls on one model, learner or synthetic user, fed with degenerate data (repeated, constant, contradictory, '
        'extreme, undefined, empty, wrongly shaped or typed) while numerical routines fail or return undefined results once, for a while, at random or '
        'always, allocations fail, workers die and files cannot be written; every call must return or raise an ordinary exception within its bound and '
        'never reach a debugger or standard input; non-trivial: at least one call raised, or one fault fired')
MEASURE = 'distinct (entry point, kind of input, kind of fault, outcome) combinations'
ASSUMPTIONS = ['an ordinary exception is any subclass of Exception', 'bounded time: at most 20000 numerical routines per call (600000 with hyperparameter search, its own iteration bound) and 60 s of processor time per run',
               'sizes are small: time that grows with the size of a valid request is not judged']
REQUIRED_PROBES = ['add', 'predict', 'large', 'optimize', 'hyper', 'select', 'best', 'user', 'util', 'raised', 'returned', 'fault', 'la_always', 'nan_result',
                   'hostile', 'disk', 'gp', 'pgp', 'plin', 'chain', 'probit', 'kern', 'calibrate', 'alloc', 'worker', 'prior', 'full_search']
LA = seams.LA_NAMES + ('eigh', 'eigvalsh', 'svd', 'cho_factor', 'solve_triangular', 'save', 'quad_worker')
HOSTILE = ['plain', 'plain', 'plain', 'same', 'constant', 'huge', 'tiny', 'nan', 'inf', 'empty', 'list', 'strings', 'object', 'int', 'column', 'square', 'zero_d',
           'none', 'mixed_scale', 'near', 'collinear', 'neg_inf', 'complex', 'bool', 'overflow']
YHOST = ['plain', 'plain', 'contradict', 'self', 'nan', 'huge', 'negative', 'range', 'strings', 'none', 'short', 'long', 'empty', 'float_idx', 'cycle', 'same', 'bounds', 'scalar']
EXC = dict(LinAlgError=np.linalg.LinAlgError, MemoryError=MemoryError, FloatingPointError=FloatingPointError, OSError=OSError, ValueError=ValueError, ZeroDivisionError=ZeroDivisionError)


def gen_fault(rng):
    if rng.random() < 0.4:
        return None
    k = rng.choice(['once', 'some', 'burst', 'always', 'always', 'nan', 'nan', 'inf', 'huge', 'zero', 'line', 'disk', 'alloc', 'worker'])
    return dict(k=k, at=rng.choice([0, 1, 2, 3, 5, 9, 20, 60]), n=rng.choice([1, 2, 3, 6, 12, 100000]), p=rng.choice([0.05, 0.3, 0.7, 1.0]), seed=rng.getrandbits(24),
                exc=rng.choice(['LinAlgError', 'LinAlgError', 'LinAlgError', 'MemoryError', 'FloatingPointError', 'ValueError']), line=int(math.exp(rng.random() * 9)),
                only=rng.choice([None, None, None, 'cholesky', 'inv', 'pinv', 'det', 'cho_solve', 'svd', 'eigvalsh', 'solve', 'slogdet']))


def gen_kern(rng, d):
    k = rng.choice(['rbf'] * 6 + ['lin', 'per', 'sum', 'prod', 'bad', 'bad', 'rbf0'])
    if k == 'lin':
        return dict(k='lin', s=rng.choice([0.5, 1e-9, 0.0, 30.0]), sb=rng.choice([0.3, 0.0]), off=0.1)
    if k == 'per':
        return dict(k='per', s=1.0, l=rng.choice([0.7, 1e-6]), p=rng.choice([2.0, 1e-9, 0.0]))
    if k == 'bad':
        return dict(k='rbf', s=rng.choice([0.0, 1e-200, 1e160, -1.0, float('nan'), float('inf')]), l=rng.choice([0.5, 0.0, 1e-300, 1e200, float('nan')]), n=rng.choice([0.0, 0.01, -0.5, float('nan')]))
    if k == 'rbf0':
        return dict(k='rbf0', s=1.0, l=0.5, n=rng.choice([0.0, 0.01]))
    if k in ('sum', 'prod'):
        return L.gen_kern(rng, (k,))
    return dict(k='rbf', s=round(rng.uniform(0.6, 1.6), 3), l=rng.choice([0.3, 0.7, 5.0, 100.0]), n=rng.choice([0.0, 0.0, 1e-12, 0.01, 0.05]))


def generate(rng, i):
    what = rng.choice(['model'] * 10 + ['user', 'user', 'util', 'util'])
    odd = rng.choice([0.0, 0.0, 0.1, 0.1, 0.4])
    x_how = lambda: rng.choice(HOSTILE) if rng.random() < odd else 'plain'
    y_how = lambda: rng.choice(YHOST) if rng.random() < odd else 'plain'
    if what == 'model':
        t = rng.choice(['pgp'] * 7 + ['plin'] * 2 + ['gp'] * 2)
        d = rng.choice([0, 1, 1, 2, 2, 3]) if t != 'plin' else rng.choice([1, 2, 3])
        m = dict(type=t, kern=gen_kern(rng, d) if odd else L.gen_kern(rng, ('rbf', 'rbf', 'sum', 'prod')), pareto=rng.random() < 0.2, norm=rng.random() < 0.15, normpos=rng.random() < 0.5, hyperopt=rng.random() < 0.06,
                 only_probit=rng.random() < 0.5, sigma=rng.choice([None, None, 0.5, 1e-8, 1e8, 1e-160] if odd else [None, 0.5]), v=rng.choice([None, 80.0, 1e-6, 1e6] if odd else [None, 20.0]))
        if m['norm']:
            m['hyperopt'] = False     # mode search of a normalised model has no fixed point: a full search uses all of its bound
        kinds = learn.SIMPLE + ('absacq', 'prob') if t != 'pgp' else learn.SIMPLE + ('absacq', 'prob') + learn.MIXED
        spec = learn.gen_learner(rng, kinds)
        over = rng.random() < 0.06        # candidates whose covariance overflows
        if over:
            m['kern'] = dict(k='lin', s=0.5, sb=0.3, off=0.1) if rng.random() < 0.5 else dict(k='sum', a=dict(k='rbf', s=1.0, l=0.5, n=0.01), b=dict(k='lin', s=0.5, sb=0.3, off=0.1))
            spec = learn.gen_learner(rng, [x for x in kinds if x not in ('random', 'best', 'ucb')])
        ops = []
        n = 0
        for _ in range(rng.randint(3, 9)):
            f = gen_fault(rng)
            k = rng.choice(['add', 'add', 'add', 'predict', 'predict', 'large', 'optimize', 'best', 'select', 'select', 'select', 'call', 'reset', 'remove', 'hyper', 'ops']) if n else 'add'
            if not n and rng.random() < 0.15:
                k = rng.choice(['predict', 'large', 'optimize', 'best', 'select', 'hyper', 'remove'])
            if k == 'hyper' and (t != 'pgp' or m['norm'] or rng.random() < 0.6):
                k = 'predict'
            if k == 'add':
                y = {'gp': 'gp', 'plin': 'pref'}.get(t) or rng.choice(['pref', 'pref', 'pref', 'abs', 'ord'])
                ops.append(['add', f if rng.random() < 0.3 else None, y, rng.choice([1, 2, 3, 3, 4, 6]), x_how(), y_how(), rng.getrandbits(24)])
                n += 1
            elif k in ('select',):
                c = rng.choice([1, 2, 3, 4, 6] if odd else [3, 4, 6])
                if over and rng.random() < 0.5:
                    ops.append(['select', f, 4, 'overflow', learn.gen_query(rng, spec, 4), rng.getrandbits(24)])
                    continue
                q = learn.gen_query(rng, spec, c)
                if rng.random() < 0.3 * odd:
                    q['k'] = rng.choice([0, -1, c + 1, 50])
                if rng.random() < 0.2 * odd:
                    q['prev'] = rng.choice([[c + 3], [-1], [0, 0], [0.5]])
                if rng.random() < 0.2 * odd:
                    q['pref'] = rng.choice(['nonsense', -1, c + 5, 1.5])
                ops.append(['select', f, c, x_how(), q, rng.getrandbits(24)])
            elif k == 'hyper':
                ops.append(['hyper', f, rng.choice([1e12, 1e12, 5.0, 0.3]) if rng.random() < 0.97 else 0.0])
            elif k == 'remove':
                ops.append(['remove', f, rng.choice(['prune', 'prune', 'keep', 'get', 'prior', 'prior', 'flat', 'back', 'nan'])])
            else:
                ops.append([k, f, rng.choice([0, 1, 2, 4, 17] if odd else [1, 2, 4, 17]), x_how(), rng.getrandbits(24)])
        return dict(what=what, d=d, model=m, spec=spec, ops=ops)
    if what == 'user':
        d = rng.choice([1, 2, 2, 3])
        ops = []
        for _ in range(rng.randint(2, 6)):
            k = rng.choice(['choose', 'choose', 'pairs', 'rate', 'calibrate', 'calibrate', 'randomize'])
            ops.append([k, gen_fault(rng), rng.choice([0, 1, 2, 3, 5, 8, 12]), rng.choice(HOSTILE), rng.getrandbits(24), dict(p=rng.choice([0.5, 0.7, 0.9, 1.0, 0.0, 1.5, float('nan'), -1]),
                       ps=rng.choice([None, 0.8, 0.0, 1.0, float('nan')]), Q=rng.choice([2, 2, 3, 0, 1, 20]), envs=rng.choice([1, 2, 0]))])
        return dict(what=what, d=d, kind=rng.choice(['perfect', 'human', 'human2']), fake=rng.choice(FAKES), beta=rng.choice([1.0, 0.0, 1e300, -1.0, float('nan')]),
                    sigma=rng.choice([1.0, 0.0, 1e300, -1.0, float('nan')]), ops=ops)
    ops = [[rng.choice(['sets', 'nonunique', 'mcmc', 'mcmc', 'pareto', 'fold', 'restrict', 'human', 'rank', 'fakepairs', 'cdf', 'normalize', 'gamma', 'fake', 'probit', 'probit', 'kern']), gen_fault(rng),
            rng.choice([0, 1, 2, 3, 5, 9]), rng.choice(HOSTILE), rng.getrandbits(24)] for _ in range(rng.randint(2, 6))]
    return dict(what='util', d=rng.choice([0, 1, 2]), ops=ops)


FAKES = ['FakeLinear', 'FakeSquared', 'FakeLogistic', 'FakeSinExp', 'FakeWeightedMax', 'FakeWeightedMin', 'FakeSquaredMinMax', 'FakeMixtureGaussian', 'FakeMinLog', 'FakeStaticSin']


# ------------------------------------------------------------------- inputs
def points(n, d, how, seed):
    rs = np.random.RandomState(seed)
    X = rs.random_sample((n, max(d, 1)))
    if how == 'same' and n:
        X[rs.randint(n)] = X[0]
        X[-1] = X[0]
    elif how == 'constant':
        X[:] = 0.5
    elif how == 'zero_d':
        return np.array(0.3)
    elif how == 'huge':
        X *= 1e300
    elif how == 'tiny':
        X *= 1e-300
    elif how == 'mixed_scale' and n:
        X *= 10.0 ** rs.randint(-200, 200, size=(n, 1))
    elif how == 'overflow' and n:
        X[rs.randint(n)] *= 10.0 ** rs.randint(154, 200)    # squares overflow, the values themselves do not
    elif how == 'near':
        X = 0.5 + X * 1e-15
    elif how == 'collinear' and n:
        X = np.repeat(np.linspace(0, 1, n)[:, None], max(d, 1), axis=1)
    elif how in ('nan', 'inf', 'neg_inf') and X.size:
        X[rs.randint(len(X)), rs.randint(X.shape[1])] = dict(nan=np.nan, inf=np.inf, neg_inf=-np.inf)[how]
    elif how == 'empty':
        X = X[:0]
    elif how == 'int':
        X = (X * 4).astype(int)
    elif how == 'bool':
        X = X > 0.5
    elif how == 'complex':
        X = X + 1j
    elif how == 'object':
        X = X.astype(object)
    if d == 0:
        X = X.reshape(-1)
    if how == 'list':
        return X.tolist()
    if how == 'strings':
        return X.astype(str)
    if how == 'none':
        return None
    if how == 'column':
        return X[..., None]
    if how == 'square':
        return np.zeros((n, n + 1))
    return X


def answers(y, n, how, seed):
    rs = np.random.RandomState(seed + 1)
    if how == 'none':
        return None
    if how == 'scalar':
        return 3
    if y == 'pref':
        ps = [(int(rs.choice([-1, 1])), *[int(j) for j in (rs.permutation(n)[:2] if n > 1 else (0, 0))]) for _ in range(max(1, n - 1))] if n else []
        if how == 'contradict' and ps:
            ps += [(-a, b, c) for a, b, c in ps] * 3
        elif how == 'cycle' and n > 2:
            ps = [(-1, j, (j + 1) % n) for j in range(n)] * 2
        elif how == 'self' and n:
            ps = [(1, 0, 0)]
        elif how == 'nan':
            ps = [(float('nan'), 0, 1)]
        elif how == 'huge':
            ps = [(10 ** 12, 0, 1)]
        elif how == 'negative':
            ps = [(1, -1, 0)]
        elif how == 'range':
            ps = [(1, 0, n + 5)]
        elif how == 'strings':
            ps = [('a', 'b', 'c')]
        elif how == 'short':
            ps = [(1, 0)]
        elif how == 'long':
            ps = [(1, 0, 1, 2)]
        elif how == 'empty':
            ps = []
        elif how == 'float_idx':
            ps = [(1.0, 0.0, 1.0)]
        elif how == 'bounds':
            ps = [(0, 0, 1)]
        return ps
    v = rs.random_sample(n)
    if y == 'gp':
        v = 4 * v - 2
    if how == 'nan' and n:
        v[0] = np.nan
    elif how == 'huge':
        v = v * 1e300
    elif how == 'negative':
        v = v - 5
    elif how == 'range':
        v = v + 1e6
    elif how == 'same':
        v[:] = 0.5
    elif how == 'bounds':
        v = (v > 0.5).astype(float)
    elif how == 'short':
        v = v[:-1]
    elif how == 'long':
        v = np.append(v, [0.5, 0.5])
    elif how == 'empty':
        v = v[:0]
    elif how == 'strings':
        v = v.astype(str)
    elif how == 'contradict' and y != 'gp':
        return (np.append(v, 1 - v), np.append(np.arange(n), np.arange(n)))
    if y == 'ord':
        if how in ('plain', 'same', 'float_idx', 'cycle', 'self'):
            return [int(1 + 5 * x) for x in v]
        if how == 'range':
            return [99] * n
        if how == 'negative':
            return [0] * n
    return v


# ------------------------------------------------------------------- running
class Watch(seams.Window):
    """Injects the faults of one call and bounds its work."""

    def __init__(self, ctx, f):
        self.f = f
        self.limit = getattr(ctx, 'call_limit', CALLS)
        super().__init__(ctx, names=None)
        self.m = 0
        self.rng = np.random.RandomState(f['seed']) if f else None

    def hit(self, name):
        if name not in LA:
            return
        self.m += 1
        if self.m > self.limit:
            raise SimTimeout('more than %d numerical routines in one call' % self.limit)
        f = self.f
        if f is None or f['k'] in ('line', 'disk', 'alloc', 'worker') and not (f['k'] == 'disk' and name == 'save'):
            return
        if f['only'] is not None and name != f['only'] and f['k'] != 'disk':
            return
        i = self.n
        self.n += 1
        k = f['k']
        hit = dict(once=i == f['at'], some=self.rng.random_sample() < f['p'], burst=f['at'] <= i < f['at'] + f['n'], always=True, disk=True).get(k)
        if hit is None:
            hit = f['at'] <= i < f['at'] + f['n'] and self.rng.random_sample() < f['p']   # undefined results
        if not hit:
            return
        self.fired.append((i, name))
        if k in ('nan', 'inf', 'huge', 'zero'):
            if name in ('save', 'quad_worker'):
                return
            self.ctx.fault('%s@%s' % (k, name))
            return k
        exc = OSError if name == 'save' else EXC[f['exc']]
        self.ctx.fault('%s@%s' % (exc.__name__, name))
        raise exc('injected at %s call %d' % (name, i))


def call(ctx, op, f, fn):
    """One library call; -> whether it returned, and what"""
    del seams.HANG[:]
    w = Watch(ctx, f)
    trap = seams.LineTrap(f['line'], EXC['MemoryError'] if f['exc'] == 'LinAlgError' else EXC[f['exc']], ctx) if f is not None and f['k'] == 'line' else None
    alloc = None
    pool = seams.Pool(fail=(f['at'], f['at'] + 1) if f is not None and f['k'] == 'worker' else (), ctx=ctx)
    if pool.fail:
        ctx.probe('worker')
    out, r = None, None
    try:
        with np.errstate(all='ignore'), seams.pool(pool), seams.window(w):
            if trap is not None:
                with trap:
                    r = fn()
            elif f is not None and f['k'] == 'alloc':
                alloc = seams.Window(ctx, fire={f['at']: MemoryError})
                with seams.alloc_window(alloc):
                    r = fn()
            else:
                r = fn()
        out = 'returned'
    except Exception as e:
        out = type(e).__name__
    except (SimTimeout, seams.SimHang):
        raise
    except BaseException as e:
        raise Violation('%s ended with %s, which is not an ordinary exception: %s' % (op, type(e).__name__, str(e)[:100]), 'not-ordinary')
    if seams.HANG:
        raise Violation('%s stopped in a debugger or waited for input: %s' % (op, seams.HANG[0]), 'hang')
    fired = bool(w.fired) or (trap is not None and trap.where) or (alloc is not None and alloc.fired)
    if fired:
        ctx.probe('fault')
        ctx.nontrivial = True
        if f['k'] == 'always':
            ctx.probe('la_always')
        if f['k'] in ('nan', 'inf', 'huge', 'zero'):
            ctx.probe('nan_result')
        if f['k'] == 'disk':
            ctx.probe('disk')
        if f['k'] == 'alloc':
            ctx.probe('alloc')
    if out != 'returned':
        ctx.nontrivial = True
        ctx.probe('raised')
    else:
        ctx.probe('returned')
    ctx.log(op, out, w.m)
    ctx.dev = max(getattr(ctx, 'dev', 0), w.m)
    ctx.state(op, f and f['k'], out)
    return out == 'returned', r


def execute(case, ctx):
    dict(model=model, user=user, util=util)[case['what']](case, ctx)


def model(case, ctx):
    m, d = case['model'], case['d']
    t = m['type']
    ctx.probe(t)
    if m['kern']['k'] == 'rbf0':
        import lop
        m = dict(m, kern=dict(m['kern'], k='rbf'))
        gp = L.build_model(m)
        if t != 'plin':
            gp.cov_func = lop.RBF_kern_zeroed(1.0, 0.5, sigma_noise=m['kern']['n'])
    else:
        gp = L.build_model(m)
    try:
        learner = learn.build_learner(case['spec'])
    except Exception as e:
        raise Reject('no such learner here: %s' % type(e).__name__)
    gp.active_learner = learner
    learner.set_model(gp)
    ctx.call_limit = SEARCH if m['hyperopt'] else CALLS
    for op in case['ops']:
        k, f = op[0], op[1]
        if k == 'add':
            y, n, xh, yh, seed = op[2:]
            X, Y = points(n, d, xh, seed), answers(y, n, yh, seed)
            if xh != 'plain' or yh != 'plain':
                ctx.probe('hostile')
            ctx.probe('add')
            if t == 'gp':
                call(ctx, 'add', f, lambda: gp.add(X, Y))
            else:
                call(ctx, 'add', f, lambda: gp.add(X, Y, type=L.TYPES[y]))
            ctx.state('add', t, y, xh, yh)
            continue
        if gp.X_train is None:
            ctx.probe('prior')
        if k == 'select':
            c, xh, q, seed = op[2:]
            X = points(c, d, xh, seed)
            call(ctx, 'select', f, lambda: learner.select(X, q['k'], learn.prev_arg(q), learn.prefer_arg(q['pref']), q['ns'], q.get('pair', True)))
            ctx.probe('select')
            ctx.state('select', case['spec']['l'], xh, f and f['k'])
        elif k == 'hyper':
            ctx.call_limit = SEARCH
            gp.hyper_grad_tol = op[2]
            if op[2] < 1:
                ctx.probe('full_search')
            call(ctx, 'hyper', f, lambda: gp.optimize(optimize_hyperparameter=True))
            ctx.probe('hyper')
        elif k == 'reset':
            call(ctx, 'reset', f, gp.reset)
        elif k == 'remove':
            prune(ctx, gp, f, op[2])
        elif k == 'optimize':
            call(ctx, 'optimize', f, lambda: gp.optimize())
            ctx.probe('optimize')
        elif k == 'ops':
            call(ctx, 'likelihood', f, lambda: gp.loss_func(gp.F))
        else:
            X = points(op[2], d, op[3], op[4])
            if op[3] != 'plain':
                ctx.probe('hostile')
            call(ctx, k, f, lambda: dict(predict=gp.predict, large=gp.predict_large, best=gp.select_best, call=gp.__call__)[k](X))
            ctx.probe(k)
    # the session goes on: a last call without any fault
    X = points(3, d, 'plain', 1)
    call(ctx, 'predict', None, lambda: gp.predict(X))


def prune(ctx, gp, f, how):
    # (pruning, and points which stand for the prior)
    if how == 'prune':
        call(ctx, 'prune', f, lambda: gp.remove_without_reference(True))
    elif how == 'keep':
        call(ctx, 'prune', f, lambda: gp.remove_without_reference(False))
    elif how == 'get':
        call(ctx, 'get_prior', f, lambda: gp.get_prior_pts())
    else:
        b = dict(prior=[[0, 1]], flat=[[0.5, 0.5]], back=[[1, -1]], nan=[[float('nan'), 1]])[how]
        d = 2 if gp.X_train is None else gp.X_train.shape[-1]
        call(ctx, 'add_prior', f, lambda: gp.add_prior(bounds=np.array(b * max(d, 1), dtype=float), num_pts=7))


def user(case, ctx):
    import lop
    d = case['d']
    fk = getattr(lop, case['fake'])
    fake = fk() if case['fake'] == 'FakeStaticSin' else fk(d)
    if case['kind'] == 'perfect':
        u = lop.PerfectUser(fake)
    elif case['kind'] == 'human':
        u = lop.HumanChoiceUser(fake, case['beta'], case['sigma'])
    else:
        u = lop.HumanChoiceUser2(fake, case['beta'], case['sigma'])
    ctx.probe('user')
    for op in case['ops']:
        k, f, n, xh, seed, p = op
        X = points(n, d if d > 1 else 0, xh, seed)
        if xh != 'plain':
            ctx.probe('hostile')
        if k == 'choose':
            call(ctx, 'choose', f, lambda: u.choose(X))
        elif k == 'pairs':
            call(ctx, 'choose_pairs', f, lambda: u.choose_pairs(X))
        elif k == 'rate':
            call(ctx, 'rate', f, lambda: u.rate(X))
        elif k == 'randomize':
            call(ctx, 'randomize', f, fake.randomize)
        elif case['kind'] != 'perfect':
            R = [[points(n, d if d > 1 else 0, xh, seed + a + 7 * b) for a in range(2)] for b in range(p['envs'])] if case['kind'] == 'human2' else X
            call(ctx, 'calibrate', f, lambda: u.learn_beta(R, p['p'], Q_size=p['Q'], p_sigma=p['ps']))
            ctx.probe('calibrate')
        ctx.state('user', case['kind'], case['fake'], k, xh)


def util(case, ctx):
    import lop
    d = case['d']
    ctx.probe('util')
    for k, f, n, xh, seed in case['ops']:
        rs = np.random.RandomState(seed)
        X = points(n, d, xh, seed)
        if xh != 'plain':
            ctx.probe('hostile')
        bad = float(rs.choice([0.0, -1.0, np.nan, np.inf, 1e300, -1e300]))
        num, size = int(rs.choice([0, 1, 2, 5, 40, -1])), int(rs.choice([0, 1, 2, 3, 7, -1]))
        if k == 'sets':
            s = rs.choice([0, 1]) and list(range(n)) or n
            call(ctx, 'sets', f, lambda: lop.sample_unique_sets(s, num, size))
        elif k == 'nonunique':
            call(ctx, 'nonunique', f, lambda: lop.sample_nonunique_sets(list(range(n)), num, size))
        elif k == 'mcmc':
            ll = [lambda x: bad, lambda x: -float(np.sum(np.square(x))), lambda x: np.array([np.nan]), lambda x: None, lambda x: -np.inf][rs.randint(5)]
            call(ctx, 'mcmc', f, lambda: lop.metropolis_hastings(ll, num, dim=rs.choice([1, 2, 0])))
            ctx.probe('chain')
        elif k == 'pareto':
            call(ctx, 'pareto', f, lambda: lop.get_pareto(X, bool(rs.randint(2))))
        elif k in ('fold', 'restrict'):
            prefs = np.array([[1, *(rs.permutation(n)[:2])] for _ in range(n)]) if n > 1 else None
            y = [prefs, None, (np.full(n, 0.4), np.arange(n)) if n else None]
            if k == 'fold':
                call(ctx, 'fold', f, lambda: lop.k_fold_x_y(X, y, int(rs.choice([0, 1, 2, 4, 50, -1]))))
            else:
                call(ctx, 'restrict', f, lambda: lop.get_y_with_idx(y, [int(j) for j in rs.randint(0, n + 2, size=rs.randint(0, 4))]))
        elif k == 'human':
            r = rs.random_sample(n) * (bad if rs.randint(2) else 1)
            call(ctx, 'human', f, lambda: lop.sample_human_choice(r, p=float(rs.choice([1.0, 0.0, 1e300, np.nan])), samples=[None, 3, 0][rs.randint(3)]))
        elif k == 'rank':
            call(ctx, 'rank', f, lambda: lop.generate_ranking_pairs(X, lop.FakeLinear(max(d, 1))))
        elif k == 'fakepairs':
            call(ctx, 'fakepairs', f, lambda: lop.generate_fake_pairs(X, lop.FakeSquared(max(d, 1)), int(rs.randint(-1, n + 2))))
        elif k == 'cdf':
            A = rs.random_sample((n, n)) * bad if rs.randint(2) else np.eye(n)
            call(ctx, 'cdf', f, lambda: lop.calc_cdf(rs.random_sample(n), A))
        elif k == 'normalize':
            call(ctx, 'normalize', f, lambda: lop.normalize_0_1(X))
        elif k == 'gamma':
            call(ctx, 'gamma', f, lambda: (lop.pdf_gamma(bad, 2.0, 1.0), lop.log_pdf_gamma(bad, 2.0, 1.0), lop.d_log_pdf_gamma(bad, 2.0, 1.0)))
        elif k == 'probit':
            probit(ctx, f, n, rs, bad)
        elif k == 'kern':
            kern(ctx, f, X, points(n, d, 'plain', seed + 1), rs, bad)
        elif k == 'fake':
            name = FAKES[rs.randint(len(FAKES) - 1)]
            call(ctx, 'fake', f, lambda: getattr(lop, name)(max(d, 1))(X))
        ctx.state('util', k, xh, n)


def probit(ctx, f, n, rs, bad):
    """Every public method of one likelihood, on plain and undefined latent values and answers"""
    import lop
    n = max(n, 2)
    t = rs.randint(3)
    sig = float(rs.choice([0.5, 1.0, 1e-8, 1e8, 1e-160, 0.0]))
    ok, P = call(ctx, 'probit', None, lambda: [lop.PreferenceProbit, lop.OrdinalProbit, lop.AbsBoundProbit][t](sigma=sig))
    if not ok:
        return
    F = rs.uniform(-2, 2, n)
    how = rs.randint(5)
    if how == 0:
        F[rs.randint(n)] = bad
    elif how == 1:
        F = F * bad
    elif how == 2:
        F[:] = F[0]
    idx = rs.permutation(n)[:max(1, n - 1)]
    if t == 0:
        y = np.array([[rs.choice([-1, 1]), *rs.permutation(n)[:2]] for _ in range(n)])
        if rs.randint(4) == 0:
            y[:, 2] = y[:, 1]
    elif t == 1:
        y = (rs.randint(1, 6, size=len(idx)), idx)
    else:
        y = (rs.choice([0.0, 1.0, 0.5, 0.001, np.nan, 7.0], size=len(idx)) if rs.randint(2) else rs.uniform(0.01, 0.99, len(idx)), idx)
    if rs.randint(8) == 0:
        y = y[:0] if t == 0 else (y[0][:0], y[1][:0])
    ctx.probe('probit')
    calls = [('derivatives', (y, F)), ('likelihood', (y, F)), ('log_likelihood', (y, F)), ('grad_hyper', (y, F)), ('calc_W_dF', (y, F)), ('calc_W_dHyper', (y, F)),
             ('z_k', (y, F)), ('param_likli', ()), ('grad_param_likli', ()), ('randomize_hyper', ()), ('print_hyperparameters', ()), ('get_hyper', ()),
             [('likelihood_all_pairs', (F,)), ('norm_cdf', (y, F)), ('mean_link', (F,))][t], [('calc_W', (y, F)), ('norm_pdf', (y, F)), ('get_alpha_beta', (F,))][t],
             [('derv_log_likelyhood', (y, F)), ('log_likelihood_each', (y, F)), ('cdf', (0.5, F))][t]]
    for j in rs.permutation(len(calls))[:6]:
        name, args = calls[j]
        if hasattr(P, name):
            call(ctx, 'probit.' + name, f, lambda: getattr(P, name)(*args))
            ctx.state('probit', t, name, how)


def kern(ctx, f, X, Y, rs, bad):
    import lop
    j, b = rs.randint(5), (bad if rs.randint(2) else 1.0)
    ok, K = call(ctx, 'kern', None, [lambda: lop.RBF_kern(b, 0.5), lambda: lop.LinearKern(b, 0.3, 0.1), lambda: lop.PeriodicKern(1.0, b, 2.0),
                                     lambda: lop.RBF_kern(1.0, 0.5) + lop.LinearKern(1.0, 0.3, 0.1), lambda: lop.RBF_kern(1.0, 0.5) * lop.PeriodicKern(1.0, 0.5, b)][j])
    if not ok:
        return
    ctx.probe('kern')
    for name, args in [('cov', (X, Y)), ('cov', (Y, X)), ('cov_gradient', (X, Y)), ('gradient', (X, Y)), ('get_param', ()), ('randomize_hyper', ()), ('param_likli', ()), ('grad_param_likli', ()), ('set_param', (np.full(len(np.atleast_1d(K.get_param())), bad),)),
                       ('cov', (X, X))]:
        if hasattr(K, name):
            call(ctx, 'kern.' + name, f, lambda: getattr(K, name)(*args))


def warmup():
    learn.warm()


def simplify(case):
    for j, op in enumerate(case['ops']):
        if op[1] is not None:
            c = copy.deepcopy(case)
            c['ops'][j][1] = None
            yield c
        for a, v in enumerate(op):
            if isinstance(v, str) and a >= 2 and v != 'plain' and v in HOSTILE + YHOST:
                c = copy.deepcopy(case)
                c['ops'][j][a] = 'plain'
                yield c
