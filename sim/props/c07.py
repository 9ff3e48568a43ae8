"""C07: choosing a query never changes what the model has learned."""
import copy
import numpy as np
from sim import lopsys as L, seams, learn
from sim.core import Violation, Reject
from sim.props import c06

ID = 'C07'
RUNS = {'quick': 3000, 'thorough': 60000}
RULE = ('one run = a model of any type with a learner of any kind, and a history of selections and additions; selections complete, or fail by an '
        'injected error in a linear-algebra call, a sampling or integration worker, an allocation or interrupt at a chosen source line, or too few '
        'candidates; data, hyperparameters, settings, predictions, candidates and arguments are compared before and after each; '
        'non-trivial: at least one selection failed part-way')
MEASURE = 'distinct (learner, model, kind of failure, place of failure) combinations'
ASSUMPTIONS = ['predictions may move by 1e-4 (0.02 where the model had not been fitted to its latest data before the selection)', 'hyperparameter search is switched off']
REQUIRED_PROBES = ['completed', 'failed', 'align', 'line', 'la', 'too-few', 'stale']
TOL = 1e-4
LA = seams.LA_NAMES + ('eigh', 'eigvalsh', 'svd', 'quad_worker', 'save')
SETTINGS = ('use_hyper_optimization', 'hyperparam_only_probit', 'normalize_gp', 'normalize_positive', 'pareto_pairs')


def generate(rng, i):
    t = rng.choice(['pgp'] * 7 + ['plin'] * 2 + ['gp'])
    d = rng.choice([1, 1, 2, 3]) if t != 'gp' else rng.choice([0, 1, 2])
    m = L.gen_model(rng, (t,), ('rbf', 'rbf', 'sum') if t == 'pgp' else ('rbf',), pareto=d > 1 and rng.random() < 0.1)
    if t == 'pgp' and rng.random() < 0.15:
        m['norm'] = True
    if t != 'gp' and rng.random() < 0.3:
        L.gen_lik(rng, m, labels=False)
    kinds = dict(pgp=c06.PGP + ('align', 'align', 'decision', 'decision2'), plin=c06.PLIN, gp=c06.GP)[t]
    spec = learn.gen_learner(rng, kinds)
    if spec['l'] == 'align':
        spec['n'] = rng.choice([0, 0, 1])
    used, ops = [], []
    first = {'gp': ('gp',), 'plin': ('pref',), 'pgp': ('pref',)}[t]
    ops.append(['add', L.gen_delivery(rng, d, used, first, nmax=5, mindist=0.05)])
    if t == 'pgp' and (spec['l'] == 'align' or rng.random() < 0.5):
        op = L.gen_delivery(rng, d, used, ('abs',) if spec['l'] == 'align' else ('abs', 'ord'), nmax=3, mindist=0.05)
        if op[0] == 'abs':
            op[2] = [round(rng.uniform(0.2, 0.8), 3) for _ in op[1]]
        ops.append(['add', op])
    heavy = learn.uses(spec, 'absacq', 'bayes', 'mutual') or spec['l'] == 'align'
    for _ in range(rng.randint(1, 2 if heavy else 4)):
        n = rng.randint(2, 7)
        q = learn.gen_query(rng, spec, n)
        if d == 0 and q['pref'] == 'pareto':
            q['pref'] = None
        fail = rng.choice(['none', 'la', 'line', 'line', 'interrupt', 'few'])
        f = dict(kind=fail, at=round(rng.random(), 5), start=rng.choice([0, 0, 0, 5]), stale=rng.random() < 0.25,
                 exc=rng.choice(['LinAlgError', 'LinAlgError', 'MemoryError', 'KeyboardInterrupt', 'FloatingPointError']))
        if fail == 'few':
            q['prev'] = sorted(rng.sample(range(n), n - 1 if n > 1 else 0))
            q['k'] = max(2, q['k'])
        ops.append(['sel', L.gen_points(rng, n, d), q, f])
        if rng.random() < 0.4:
            ops.append(['add', L.gen_delivery(rng, d, used, first, nmax=3, mindist=0.05)])
    if d == 0:
        spec['par'] = False
    return dict(d=d, model=m, spec=spec, ops=ops, q=L.gen_points(rng, 4, d, used=list(used)))


EXC = dict(LinAlgError=np.linalg.LinAlgError, MemoryError=MemoryError, KeyboardInterrupt=KeyboardInterrupt, FloatingPointError=FloatingPointError)


def snap(model, m):
    s = {n: copy.deepcopy(getattr(model, n)) for n in SETTINGS if hasattr(model, n)}
    s['hyper'] = L.hyper_of(model)
    return s


def same(a, b):
    return all(np.array_equal(a[k], b[k]) for k in a)


def execute(case, ctx):
    m, d, spec = case['model'], case['d'], case['spec']
    q = L.shape_points(case['q'], d)
    model = L.build_model(m)
    learner = learn.build_learner(spec)
    model.active_learner = learner
    learner.set_model(model)
    fitted, logconcave = False, True
    for op in case['ops']:
        if op[0] == 'add':
            if not op[1][1]:
                continue
            L.deliver(model, op[1], d)
            fitted = False
            logconcave = logconcave and op[1][0] != 'abs'
            continue
        if model.X_train is None:
            continue
        pts, qr, f = op[1], op[2], op[3]
        stale = f['stale'] and not fitted and logconcave and m['type'] == 'pgp' and not m.get('norm')
        data = L.snap_data(model)
        try:
            if stale:
                # what the fit would have been
                ctx.probe('stale')
                before = L.predict(copy.deepcopy(model), q)
            else:
                before = L.predict(model, q)
        except np.linalg.LinAlgError:
            raise Reject('ill-conditioned')
        ctx.check(L.same_data(data, L.snap_data(model)), 'a prediction changed the training data', 'data')
        st = snap(model, m)
        if spec['l'] == 'align':
            ctx.probe('align')
        if f['start'] and hasattr(learner, 'num_calls'):
            learner.num_calls = f['start']
        out, where = attempt(ctx, model, learner, spec, pts, qr, f, d)
        fitted = fitted or not stale or out == 'completed'
        ctx.state(spec['l'], m['type'], f['kind'], out, where)
        ctx.log(spec['l'], f['kind'], out, where)
        how = '%s selection (%s%s)' % (spec['l'], out, ' at %s' % where if where else '')
        ctx.check(L.same_data(data, L.snap_data(model)), 'a %s changed the training data' % how, 'data')
        ctx.check(same(st, snap(model, m)), 'a %s changed the hyperparameters or settings of the model' % how, 'hyper')
        try:
            after = L.predict(model, q)
        except np.linalg.LinAlgError:
            if stale:
                raise Reject('ill-conditioned')
            raise
        e = L.dev(before, after)
        ctx.dev = max(getattr(ctx, 'dev', 0), e)
        ctx.check(e <= (0.02 if stale else TOL), 'after a %s predictions are off by %.3g' % (how, e), 'predictions')
        fitted = True


def attempt(ctx, model, learner, spec, pts, q, f, d):
    cand = L.shape_points(pts, d)
    keep = cand.copy()
    k = f['kind']
    prev, pref = learn.prev_arg(q), learn.prefer_arg(q['pref'])
    prev0, pref0 = copy.copy(prev), copy.deepcopy(pref)

    def go(mod, lrn):
        return learn.call(lrn, cand, q, prev, pref)

    trap = win = None
    fs = seams.rng_state()
    if k in ('line', 'interrupt', 'la'):
        mm, ll = copy.deepcopy((model, learner))
        t = seams.Window(names=LA) if k == 'la' else seams.LineTrap()
        with seams.pool(seams.Pool()):
            try:
                if k == 'la':
                    with seams.window(t):
                        go(mm, ll)
                else:
                    with t:
                        go(mm, ll)
            except Exception as e:
                ctx.log('refused', type(e).__name__)
        seams.set_rng_state(fs)
        at = min(t.n - 1, int(f['at'] * t.n))
        if t.n == 0:
            pass
        elif k == 'la':
            exc = f['exc'] if f['exc'] != 'FloatingPointError' else 'LinAlgError'
            win = seams.Window(ctx, names=LA, fire={at: EXC[exc]})
        else:
            exc = KeyboardInterrupt if k == 'interrupt' else EXC[f['exc']]
            trap = seams.LineTrap(at, exc, ctx)
    out = 'completed'
    with seams.pool(seams.Pool()):
        try:
            if win is not None:
                with seams.window(win):
                    go(model, learner)
            elif trap is not None:
                with trap:
                    go(model, learner)
            else:
                go(model, learner)
        except (Exception, KeyboardInterrupt) as e:
            out = 'failed'
            if k == 'none':
                ctx.log('refused', type(e).__name__)
    fired = (win is not None and win.fired) or (trap is not None and trap.where)
    ctx.probe(out)
    where = None
    if fired:
        ctx.probe('la' if win is not None else 'line')
        where = win.fired[0][1] if win is not None else trap.where
    if k == 'few' and out == 'failed':
        ctx.probe('too-few')
        ctx.fault('too-few')
    how = '%s selection (%s%s)' % (spec['l'], out, ' at %s' % where if where else '')
    ctx.check(np.array_equal(keep, cand), 'a %s changed the candidate array' % how, 'candidates')
    ctx.check(prev == prev0 and type(pref) is type(pref0) and pref == pref0, 'a %s changed the arguments: %r -> %r, %r -> %r' % (how, prev0, prev, pref0, pref), 'arguments')
    return out, where


def warmup():
    learn.warm()


def simplify(case):
    for j, op in enumerate(case['ops']):
        if op[0] == 'add':
            for s in L.shrink_delivery(op[1]):
                c = copy.deepcopy(case)
                c['ops'][j][1] = s
                yield c
        else:
            for s in learn.simpler(op[2]):
                c = copy.deepcopy(case)
                c['ops'][j][2] = s
                yield c
            if op[3]['kind'] != 'none':
                c = copy.deepcopy(case)
                c['ops'][j][3]['kind'] = 'none'
                yield c
