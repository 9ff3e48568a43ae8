"""C04: transient numerical or disk faults never yield a silently wrong answer."""
import copy, random
import numpy as np
from sim import lopsys as L, seams, oracle as O, learn
from sim.core import Violation, Reject
from sim.ledger import Ledger, dominance

ID = 'C04'
RUNS = {'quick': 9000, 'thorough': 120000}
RULE = ('one run = a model driven through additions, fits, predictions and selections while factorisations, inversions and the diagnostic file fail '
        'at chosen calls (one call, a burst that outlives the retries, everything from a point on, one routine only, a random subset); a call that '
        'returns is compared with the fault-free answer of a freshly built model, and so is the first prediction once faults stop; a tenth of the '
        'runs use a kernel matrix that is singular by itself, compared with a reference posterior; non-trivial: at least one fault fired')
MEASURE = 'distinct (operation, fault pattern, routine hit, whether the call returned) tuples'
ASSUMPTIONS = ['preference and ordinal data (log-concave) or bounded ratings away from the bounds; points at least 0.05 apart unless singularity is wanted',
               'an answer within 0.02 of the fault-free one is the same answer (the mode search stops at steps below 0.0002)']
REQUIRED_PROBES = ['raised', 'returned_despite_fault', 'recovered', 'singular', 'select', 'save_failed', 'plin', 'gp']
TOL = 0.02
PATTERNS = ['one', 'one', 'burst', 'burst', 'from', 'name', 'random']
NAMES = ['cholesky', 'inv', 'pinv', 'solve', 'eigh', 'cho_solve', 'svd', 'det', 'slogdet']


class ENOSPC(OSError):
    pass


def generate(rng, i):
    mode = rng.choice(['pgp'] * 7 + ['gp', 'plin', 'singular'])
    d = rng.choice([1, 2, 2, 3])
    case = dict(mode=mode, d=d)
    used = []
    if mode == 'singular':
        case['d'] = d = rng.choice([1, 2])
        case['model'] = dict(type='pgp', sigma=rng.choice([None, 1.0]), pareto=False,
                             kern=rng.choice([dict(k='rbf', s=1.0, l=0.6, n=0.0), dict(k='lin', s=0.7, sb=0.5, off=0.1), dict(k='rbf', s=1.0, l=3.0, n=0.0)]))
        items = [L.gen_delivery(rng, d, used, ('pref', 'ord'), nmax=4) for _ in range(rng.randint(1, 3))]
        if rng.random() < 0.6:
            for it in items:                      # the same points delivered again
                for j in range(len(it[1])):
                    if rng.random() < 0.4:
                        it[1][j] = list(rng.choice(used))
        case['items'] = items
        case['ops'] = []
    else:
        m = L.gen_model(rng, (mode,), ('rbf', 'rbf', 'sum', 'prod'), pareto=mode == 'pgp' and d > 1 and rng.random() < 0.2)
        case['model'] = m
        if mode == 'plin':
            case['d'] = d = rng.choice([2, 3])
            m['pareto'] = False
        kinds = dict(pgp=rng.choice([('pref',), ('pref', 'ord'), ('ord',), ('pref', 'abs')]), gp=('gp',), plin=('pref',))[mode]
        def delivery():
            if mode != 'plin':
                op = L.gen_delivery(rng, d, used, kinds, nmax=3, mindist=0.05)
                if op[0] == 'abs':
                    op[2] = [round(rng.uniform(0.15, 0.85), 3) for _ in op[1]]
                return op
            while True:
                pts = L.gen_points(rng, 2, d, used=used)
                df = [a - b for a, b in zip(*pts)]
                if abs(sum(df)) > 0.35 * sum(c * c for c in df) ** 0.5 * d ** 0.5 and abs(sum(df)) > 0.2:
                    return ['pref', pts, [[-1 if sum(df) > 0 else 1, 0, 1]]]
        case['items'] = [delivery() for _ in range(rng.randint(1, 2))]
        ops = []
        for _ in range(rng.randint(2, 7)):
            k = rng.choice(['predict', 'predict', 'large', 'optimize', 'select', 'add', 'check'])
            if k == 'add':
                ops.append(['add', delivery()])
            elif k == 'check':
                ops.append(['check'])
            else:
                ops.append([k, gen_fault(rng) if rng.random() < 0.75 else None, rng.choice(['best', 'ucb']), rng.choice([1, 1, 2])])
        case['ops'] = ops
    case['q'] = L.gen_points(rng, rng.choice([3, 5, 17]), d, lo=-0.2, hi=1.2, used=list(used))
    return case


def gen_fault(rng):
    p = rng.choice(PATTERNS)
    f = dict(p=p, at=round(rng.random(), 4), n=rng.choice([2, 3, 5, 8, 12]), name=rng.choice(NAMES), seed=rng.getrandbits(20),
             prob=rng.choice([0.1, 0.3, 0.6]), exc=rng.choice(['la', 'la', 'la', 'mem']), save=rng.random() < 0.7,
             early=rng.random() < 0.4)
    return f


def plan(f, total):
    """-> decide function for a window of about `total` calls"""
    exc = np.linalg.LinAlgError if f['exc'] == 'la' else MemoryError
    start = int(f['at'] * max(1, min(total, 14) if f['early'] else total))
    rng = random.Random(f['seed'])
    seen = [0]

    def decide(i, name):
        if name == 'save':
            return ENOSPC if f['save'] else None
        if f['p'] == 'one':
            return exc if i == start else None
        if f['p'] == 'burst':
            return exc if start <= i < start + f['n'] else None
        if f['p'] == 'from':
            return exc if i >= start else None
        if f['p'] == 'name':
            if name == f['name']:
                seen[0] += 1
                return exc if seen[0] <= f['n'] * 2 else None
            return None
        return exc if rng.random() < f['prob'] else None
    return decide


class Fresh:
    """The fault-free answers for the data delivered so far."""

    def __init__(self, case):
        self.case, self.items, self.cache = case, [], None

    def add(self, op):
        self.items.append(op)
        self.cache = None

    def get(self, q):
        if self.cache is None:
            st = seams.rng_state()
            best = None
            m = L.build_model(self.case['model'])
            for op in self.items:
                L.deliver(m, op, self.case['d'])
            self.cache = L.predict(m, q), getattr(m, 'F', None)
            seams.set_rng_state(st)
        return self.cache[0]


def ledger(items, pareto):
    led = Ledger(pareto)
    for op in items:
        led.add(L.shape_points(op[1], max(1, len(op[1][0]) if op[1] else 1)), op[0], op[2])
    return led


def lik_of(led, m):
    prefs = list(led.prefs) + (dominance(led.points) if led.pareto else [])
    return O.Lik(len(led.points), prefs, led.ratings, led.labels, **L.lik_args(m))


def judged(ctx, case, fresh, got, q, model):
    """Deviation of an answer from the fault-free one (or, with bounded ratings,
    from the posterior of the nearest mode)."""
    want = fresh.get(q)
    e = L.dev(got, want)
    if e <= TOL or case['mode'] != 'pgp' or not any(o[0] == 'abs' for o in fresh.items):
        return e
    led = ledger(fresh.items, case['model'].get('pareto', False))
    lik = lik_of(led, case['model'])
    X = np.array(led.points)
    K = O.kern(case['model']['kern'], X, X, noise=True)
    f, ok = O.mode(K, lik, f0=np.array(model.F))
    if not ok:
        return 0.0
    Q = np.asarray(q).reshape(len(q), -1)
    mean, cov = O.predict(K, O.kern(case['model']['kern'], Q, X), O.kern(case['model']['kern'], Q, Q, noise=True), lik, f)
    return min(e, L.dev(got[:2], (mean, np.maximum(0, np.diagonal(cov)))))


def execute(case, ctx):
    m, d = case['model'], case['d']
    if not case['items']:
        raise Reject('no data')
    q = L.shape_points(case['q'], d)
    if case['mode'] == 'singular':
        return execute_singular(case, ctx, q)
    learners = {k: learn.build_learner(dict(l=k, alpha=1)) for k in ('best', 'ucb')}
    model = L.build_model(m)
    for l in learners.values():
        l.set_model(model)
    fresh = Fresh(case)
    for op in case['items']:
        L.deliver(model, op, d)
        fresh.add(op)
    ctx.probe(case['mode'])

    def verify(got, where):
        if case['mode'] == 'plin':
            return verify_plin(got, where)
        try:
            e = judged(ctx, case, fresh, got, q, model)
        except np.linalg.LinAlgError:
            raise Reject('the fault-free run fails as well')
        ctx.dev = max(getattr(ctx, 'dev', 0), e)
        ctx.log(where, got[0], e)
        ctx.check(e < TOL, '%s: the answer is %.3g away from the fault-free one' % (where, e), 'wrong-answer')

    def verify_plin(got, where):
        ctx.check(np.isfinite(got[0]).all(), '%s: undefined prediction' % where, 'wrong-answer')
        led = ledger(fresh.items, False)
        F = np.asarray(model.predict(np.array(led.points))[0])
        for a, b in led.prefs:
            ctx.check(F[a] > F[b], '%s: the linear model ranks a pair the wrong way round' % where, 'wrong-answer')

    for op in case['ops'] + [['check']]:
        k = op[0]
        if k == 'add':
            if op[1][1]:
                L.deliver(model, op[1], d)
                fresh.add(op[1])
            continue
        if k == 'check':
            data = L.snap_data(model)
            try:
                got = L.predict(model, q)
            except np.linalg.LinAlgError:
                try:
                    fresh.get(q)
                except np.linalg.LinAlgError:
                    raise Reject('the fault-free run fails as well')
                raise Violation('a prediction without faults is refused after faults', 'not-recovered')
            ctx.probe('recovered')
            verify(got, 'prediction once faults stopped')
            continue
        _, f, lname, nsel = op

        def act(mod, lrn):
            if k == 'predict':
                return L.predict(mod, q)
            if k == 'large':
                r = mod.predict_large(q)
                return (np.array(r[0]), None if r[1] is None else np.array(r[1]))
            if k == 'optimize':
                if case['mode'] == 'gp':
                    return None
                mod.optimize()
                return None
            return learn.unpack(lrn.select(q, nsel), False)[0]
        data = L.snap_data(model)
        fired = False
        try:
            if f is None:
                r = act(model, learners[lname])
            else:
                st = seams.rng_state()
                w = seams.Window(names=seams.LA_NAMES + ('save', 'eigh', 'eigvalsh', 'svd'))
                mm, ll = copy.deepcopy((model, learners[lname]))
                with seams.window(w):
                    try:
                        act(mm, ll)
                    except Exception:
                        pass
                total = w.n
                seams.set_rng_state(st)
                w = seams.Window(ctx, names=w.names, decide=plan(f, total))
                with seams.window(w):
                    try:
                        r = act(model, learners[lname])
                    finally:
                        fired = bool(w.fired)
                        if any(n == 'save' for _, n in w.fired):
                            ctx.probe('save_failed')
        except Exception as e:
            if not fired:
                try:
                    fresh.get(q)
                except np.linalg.LinAlgError:
                    raise Reject('the fault-free run fails as well')
                raise Violation('%s without a fault raised %r' % (k, e), 'refused')
            ctx.probe('raised')
            ctx.log(k, 'raised', type(e).__name__)
            ctx.state(k, f['p'], sorted({n for _, n in w.fired}), 'raised')
            ctx.check(L.same_data(data, L.snap_data(model)), 'a failed %s changed the training data' % k, 'data-changed')
            continue
        ctx.check(L.same_data(data, L.snap_data(model)), '%s changed the training data' % k, 'data-changed')
        if fired:
            ctx.probe('returned_despite_fault')
            ctx.state(k, f['p'], sorted({n for _, n in w.fired}), 'returned')
        if k in ('predict', 'large'):
            verify(r, k + (' with faults' if fired else ''))
        elif k == 'select':
            ctx.probe('select')
            ctx.log('select', r)
            if case['mode'] == 'plin' or (lname == 'ucb' and case['mode'] == 'plin'):
                continue
            if any(o[0] == 'abs' for o in fresh.items):
                continue
            try:
                want = fresh.get(q)
            except np.linalg.LinAlgError:
                raise Reject('the fault-free run fails as well')
            v = want[0] + (0 if lname == 'best' else np.sqrt(np.maximum(want[1], 0)))
            ctx.check(len(r) == nsel and len(set(r)) == nsel, 'selection of %d returned %s' % (nsel, r), 'wrong-selection')
            top = np.sort(v)[::-1][:nsel]
            mine = np.sort(v[r])[::-1]
            ctx.check((mine > top - 0.05).all(), '%s selection%s picked %s worth %s, the best are worth %s'
                      % (lname, ' with faults' if fired else '', r, mine, top), 'wrong-selection')


def execute_singular(case, ctx, q):
    m, d = case['model'], case['d']
    ctx.probe('singular')
    ctx.nontrivial = True
    model = L.build_model(m)
    for op in case['items']:
        L.deliver(model, op, d)
    led = ledger(case['items'], False)
    try:
        got = L.predict(model, q)
    except np.linalg.LinAlgError:
        ctx.log('refused')
        ctx.state('singular', m['kern']['k'], 'refused')
        return
    X = np.array(led.points)
    K = O.kern(m['kern'], X, X, noise=True)
    lik = lik_of(led, m)
    f, ok = O.mode(K, lik)
    if not ok:
        raise Reject('the reference search did not converge')
    Q = np.asarray(q).reshape(len(q), -1)
    mean, cov = O.predict(K, O.kern(m['kern'], Q, X), O.kern(m['kern'], Q, Q, noise=True), lik, f)
    e = L.dev(got, (mean, np.maximum(0, np.diagonal(cov)), cov))
    ctx.dev = e
    ctx.log('singular', got[0], mean, e)
    ctx.state('singular', m['kern']['k'], len(X))
    ctx.check(e < 0.05, 'a singular kernel matrix is answered %.3g away from the posterior' % e, 'singular')


def simplify(case):
    for j, op in enumerate(case['items']):
        for s in L.shrink_delivery(op):
            c = copy.deepcopy(case)
            c['items'][j] = s
            yield c
    if len(case['q']) > 3:
        c = copy.deepcopy(case)
        c['q'] = case['q'][:3]
        yield c
