"""C05: an interrupt always gets through and leaves a model that recovers."""
import copy, random
import numpy as np
from sim import lopsys as L, seams, oracle as O, learn
from sim.core import Violation, Reject
from sim.props import c04

ID = 'C05'
RUNS = {'quick': 3000, 'thorough': 60000}
RULE = ('one run = a model fitted, queried, used for selections (all learner kinds) and tuned, with a keyboard interrupt delivered before a chosen '
        'executed source line of the library or inside a chosen linear-algebra call; the interrupt must reach the caller, data must be unchanged and '
        'the next prediction must be that of a model never interrupted; non-trivial: at least one interrupt fired')
MEASURE = 'distinct source lines (file, function, line) at which an interrupt was delivered, per operation'
ASSUMPTIONS = ['interrupts are delivered at line boundaries of library code and at calls into linear algebra, where CPython delivers them',
               'selections with parallel quadrature run their workers in process']
REQUIRED_PROBES = ['predict', 'optimize', 'hyper', 'select', 'recovered', 'line', 'la', 'plin', 'gp']
TOL = c04.TOL
LA = seams.LA_NAMES + ('eigh', 'eigvalsh', 'svd')


def generate(rng, i):
    if rng.random() < 0.25:
        return generate_other(rng)
    d = rng.choice([1, 2, 2, 3])
    hyper = rng.random() < 0.12
    m = L.gen_model(rng, ('pgp',), ('rbf',) if hyper else ('rbf', 'rbf', 'sum'), pareto=d > 1 and rng.random() < 0.1)
    if hyper:
        m['only_probit'] = rng.random() < 0.5
        m['hyperopt'] = rng.random() < 0.5
        m['pareto'] = False
    used = []
    items = [L.gen_delivery(rng, d, used, ('pref',), nmax=4, mindist=0.05)]
    if not hyper and rng.random() < 0.6:
        items.append(L.gen_delivery(rng, d, used, ('abs', 'abs', 'ord'), nmax=3, mindist=0.05))
    elif rng.random() < 0.5:
        items.append(L.gen_delivery(rng, d, used, ('pref', 'abs') if hyper else ('pref', 'ord'), nmax=3, mindist=0.05))
    for op in items:
        if op[0] == 'abs':
            op[2] = [round(rng.uniform(0.2, 0.8), 3) for _ in op[1]]
    both = any(o[0] == 'abs' for o in items)
    ops = []
    for _ in range(rng.randint(1, 3)):
        k = rng.choice(['predict', 'large', 'optimize', 'select', 'select', 'select', 'add'])
        if hyper:
            k = 'hyper'
        if k == 'add':
            op = L.gen_delivery(rng, d, used, ('pref',), nmax=3, mindist=0.05)
            ops.append(['add', op])
            continue
        op = [k, dict(at=round(rng.random(), 5), via=rng.choice(['line', 'line', 'line', 'la']), log=rng.random() < 0.2, times=rng.choice([1, 1, 2]))]
        if k == 'select':
            kinds = learn.SIMPLE + learn.MIXED + ('absacq',)
            if rng.random() < 0.5:
                kinds = ('acq', 'bayes', 'ratechoose', 'equal', 'mixedcomp', 'align', 'decision', 'alternating')
            spec = learn.gen_learner(rng, [x for x in kinds if both or x != 'align'])
            spec['start'] = rng.choice([0, 0, 1, 2, 5])
            n = rng.randint(5, 8)
            op += [spec, L.gen_points(rng, n, d), learn.gen_query(rng, spec, n)]
            op[4]['k'] = min(op[4]['k'], 3)
        ops.append(op)
        if hyper:
            break
    return dict(mode='pgp', d=d, model=m, items=items, ops=ops, q=L.gen_points(rng, 4, d, used=list(used)), hyper=hyper)


def gen_interrupt(rng):
    return dict(at=round(rng.random(), 5), via=rng.choice(['line', 'line', 'line', 'la']), log=False, times=rng.choice([1, 1, 2]))


def generate_other(rng):
    """linear preference models and Gaussian processes"""
    t = rng.choice(['plin', 'plin', 'gp'])
    d = rng.choice([2, 2, 3]) if t == 'plin' else rng.choice([1, 2])
    m = L.gen_model(rng, (t,), ('rbf', 'rbf', 'sum'))
    m['pareto'] = t == 'plin' and rng.random() < 0.15
    used = []
    kind = ('pref',) if t == 'plin' else ('gp',)
    new = lambda n: L.gen_delivery(rng, d, used, kind, nmax=n, mindist=0.05)
    items = [new(4) for _ in range(rng.choice([1, 1, 2]))]
    ops = []
    for _ in range(rng.randint(1, 4)):
        k = rng.choice(['predict', 'predict', 'large', 'select', 'add'] + (['optimize', 'optimize'] if t == 'plin' else []))
        if k == 'add':
            ops.append(['add', new(3)])
            continue
        op = [k, gen_interrupt(rng)]
        if k == 'select':
            spec = learn.gen_learner(rng, ('best', 'worst', 'random', 'ucb', 'gvucb', 'mutual', 'acq', 'absacq', 'bayes', 'ratechoose', 'setfixed', 'alternating',
                                           'strategy') if t == 'plin' else ('best', 'worst', 'ucb', 'gvucb', 'random', 'mutual'))
            n = rng.randint(5, 8)
            op += [spec, L.gen_points(rng, n, d), learn.gen_query(rng, spec, n)]
            op[4]['k'] = min(op[4]['k'], 3)
        ops.append(op)
    return dict(mode=t, d=d, model=m, items=items, ops=ops, q=L.gen_points(rng, 4, d, used=list(used)), hyper=False)


def call(case, model, op, q, learner, cand):
    k = op[0]
    if k == 'predict':
        return L.predict(model, q)
    if k == 'large':
        return model.predict_large(q)
    if k == 'optimize':
        return model.optimize()
    if k == 'hyper':
        if case['model'].get('hyperopt'):
            return model.predict(q)
        return model.optimize(True)
    return learn.select(model, cand, op[4], learner)


def execute(case, ctx):
    m, d = case['model'], case['d']
    if not any(o[1] for o in case['items']):
        raise Reject('no data')
    q = L.shape_points(case['q'], d)
    model = L.build_model(m)
    fresh = c04.Fresh(dict(case, model=dict(m, hyperopt=False)))
    for op in case['items']:
        L.deliver(model, op, d)
        fresh.add(op)
    for op in case['ops']:
        if op[0] == 'add':
            L.deliver(model, op[1], d)
            fresh.add(op[1])
            continue
        learner = cand = None
        if op[0] == 'select':
            learner = learn.build_learner(op[2])
            model.active_learner = learner
            learner.set_model(model)
            if hasattr(learner, 'num_calls'):
                learner.num_calls = op[2].get('start', 0)
            cand = L.shape_points(op[3], d)
        f = op[1]
        untouched, done = copy.deepcopy(model), []
        with seams.pool(seams.Pool()):
            for _ in range(f['times']):
                done.append(interrupt(case, ctx, model, op, q, learner, cand, f))
        if case['mode'] == 'plin':
            # fits of a linear model depend on their random start: exactly the fit
            # the model had or makes now, or that of the call which was interrupted
            ctx.probe('plin')
            st = seams.rng_state()
            got = L.predict(model, q)[0]
            ok = []
            for t in [untouched] + [x for x in done if x is not None]:
                seams.set_rng_state(st)
                ok.append(L.predict(t, q)[0])
            ctx.probe('recovered')
            ctx.log('after', op[0], got)
            ctx.check(any(np.array_equal(got, w) for w in ok), 'after an interrupted %s a linear model predicts %s, without the interrupt %s'
                      % (op[0], got.tolist(), [w.tolist() for w in ok]), 'not-recovered')
            continue
        # the caller goes on working
        if op[0] == 'select':
            try:
                with seams.pool(seams.Pool()):
                    call(case, model, op, q, learner, cand)
            except Exception as e:
                ctx.log('select refused', type(e).__name__)
        try:
            got = L.predict(model, q)
        except np.linalg.LinAlgError:
            raise Reject('ill-conditioned')
        ctx.probe('recovered')
        if op[0] == 'hyper':
            h = model.get_hyper()
            ctx.log('hyper', h)
            if not np.isfinite(h).all() or (h <= 0).any() or not np.isfinite(np.concatenate([np.ravel(x) for x in got])).all():
                raise Reject('search stopped at unusable hyperparameters')
            twin = L.build_model(dict(m, hyperopt=False))
            for o in case['items']:
                L.deliver(twin, o, d)
            for a, b in zip(twin.probits, model.probits):
                for n in ('sigma', 'v'):
                    if hasattr(b, n):
                        getattr(a, 'set_' + n)(getattr(b, n))
            twin.cov_func.set_param(np.array(model.cov_func.get_param()))
            twin.optimized = False
            try:
                want = L.predict(twin, q)
            except np.linalg.LinAlgError:
                raise Reject('ill-conditioned')
            e = L.dev(got, want)
            if e > TOL and any(o[0] == 'abs' for o in case['items']):
                raise Reject('several modes')
        else:
            if case['mode'] == 'gp':
                ctx.probe('gp')
            e = c04.judged(ctx, case, fresh, got, q, model)
        ctx.dev = max(getattr(ctx, 'dev', 0), e)
        ctx.log('after', op[0], got[0], e)
        ctx.check(e < TOL, 'the first prediction after an interrupted %s is %.3g away from the uninterrupted one' % (op[0], e), 'not-recovered')


def interrupt(case, ctx, model, op, q, learner, cand, f):
    k = op[0]
    st = seams.rng_state()
    ctx.probe(k)
    mm = None
    # how long is the call?
    if k == 'hyper' and not f['log']:
        total = None
    else:
        mm, ll = copy.deepcopy((model, learner))
        t = seams.LineTrap(prefix=seams.SRC) if f['via'] == 'line' else seams.Window(names=LA)
        try:
            if f['via'] == 'line':
                with t:
                    call(case, mm, op, q, ll, cand)
            else:
                with seams.window(t):
                    call(case, mm, op, q, ll, cand)
        except Exception as e:
            ctx.log('refused', type(e).__name__)
        total = t.n
        seams.set_rng_state(st)
    if total is None:
        at = int(np.exp(f['at'] * np.log(6e4)))
    elif total == 0:
        return mm
    else:
        at = min(total - 1, int(f['at'] * total))
        if f['at'] > 0.7:
            # the last steps, where results are taken over, weigh as much as all others
            at = max(0, total - 1 - int(((f['at'] - 0.7) / 0.3) ** 2 * min(total, 14)))
    data, hy = L.snap_data(model), L.hyper_of(model)
    fired, out, where = False, None, None
    try:
        if f['via'] == 'line':
            t = seams.LineTrap(at, KeyboardInterrupt, ctx)
            with t:
                call(case, model, op, q, learner, cand)
        else:
            t = seams.Window(ctx, names=LA, fire={at: KeyboardInterrupt})
            with seams.window(t):
                call(case, model, op, q, learner, cand)
        out = 'returned'
    except KeyboardInterrupt:
        out = 'interrupted'
    except Exception as e:
        out = 'raised %s' % type(e).__name__
    where = t.where if f['via'] == 'line' else (t.fired[0][1] if t.fired else None)
    fired = where is not None
    if fired:
        ctx.probe(f['via'])
        ctx.state(k, where)
    ctx.log(k, out, where)
    if fired:
        ctx.check(out == 'interrupted', 'an interrupt during %s (at %s) was swallowed: the call %s' % (k, where, out), 'swallowed')
    ctx.check(L.same_data(data, L.snap_data(model)), 'an interrupted %s changed the training data' % k, 'data-changed')
    if k != 'hyper':
        ctx.check(np.array_equal(hy, L.hyper_of(model)), 'an interrupted %s changed the hyperparameters' % k, 'hyper-changed')
    return mm


def warmup():
    learn.warm()


def simplify(case):
    for j, op in enumerate(case['items']):
        for s in L.shrink_delivery(op):
            c = copy.deepcopy(case)
            c['items'][j] = s
            yield c
    for j, op in enumerate(case['ops']):
        if op[0] == 'select':
            for s in learn.simpler(op[4]):
                c = copy.deepcopy(case)
                c['ops'][j][4] = s
                yield c
        if op[0] != 'add' and op[1]['times'] > 1:
            c = copy.deepcopy(case)
            c['ops'][j][1]['times'] = 1
            yield c
