"""C02: a failing addition leaves no trace (untouched-twin comparison)."""
import copy
import numpy as np
from sim import lopsys as L, seams
from sim.core import Violation, Reject

ID = 'C02'
RUNS = {'quick': 2200, 'thorough': 30000}
RULE = ('one run = a random history in which additions fail at random places, by rejected input or by an allocation '
        'failing at a random array operation of the call; a twin model receives the successful calls only; after every '
        'step stored data must be equal, and predictions (same random state before each) must be equal; non-trivial: a call failed')
MEASURE = 'distinct (model, kind of failure, allocation point, data types held before) tuples'
ASSUMPTIONS = ['allocation failures are injected at numpy array-building calls made from library source during add']
REQUIRED_PROBES = ['rejected', 'alloc_raised', 'failed_on_empty', 'failed_with_data', 'predicted_after_failure', 'retry', 'prior']

BAD_PREF = ['cols', 'range', 'negative', 'ragged', 'type', 'xdim', 'nan']
BAD_ABS = ['high', 'low', 'nan', 'list', 'long', 'type', 'xdim', 'badidx']
BAD_ORD = ['zero', 'negative', 'long', 'type', 'xdim', 'badidx', 'text']
BAD_GP = ['short', 'long', 'xdim', 'sigma']


def generate(rng, i):
    t = rng.choice(['pgp', 'pgp', 'pgp', 'plin', 'gp'])
    m = L.gen_model(rng, (t,), ('rbf', 'lin', 'sum'))
    d = 2 if t == 'plin' else rng.choice([1, 2, 2, 3])
    if t != 'gp' and rng.random() < 0.15:
        m['pareto'] = True
    used, ops = [], []
    kinds = ('gp',) if t == 'gp' else ('pref', 'abs', 'ord', 'pref')
    seq = rng.choice([['f'], ['d', 'f'], ['d', 'd', 'f'], ['d', 'f', 'd', 'f'], ['f', 'd', 'r', 'f', 'd'], ['d', 'r', 'f', 'r', 'd', 'f', 'f']])
    for s in seq:
        if s == 'r':
            ops.append(['read'])
            continue
        op = L.gen_delivery(rng, d, used, kinds)
        if m.get('pareto') and rng.random() < 0.35:
            pts = L.gen_points(rng, rng.randint(1, 4), d, used=used)
            if d == 2 and rng.random() < 0.6:
                pts = [[x, round(1 - x, 4)] for x, _ in pts]       # (few points dominate another)
            op = rng.choice([['prior', pts, []], ['pref', pts, []]])
        if s == 'd':
            ops.append(['ok', op])
        elif rng.random() < 0.5:
            bad = rng.choice({'pref': BAD_PREF, 'abs': BAD_ABS, 'ord': BAD_ORD, 'gp': BAD_GP, 'prior': ['xdim']}[op[0]])
            ops.append(['bad', op, bad, rng.randint(0, 3), rng.random() < 0.6])
        else:
            ops.append(['alloc', op, round(rng.random(), 6), rng.random() < 0.6])
        if rng.random() < 0.3:
            ops.append(['read'])
    ops.append(['read'])
    return dict(model=m, d=d, ops=ops, fit=rng.getrandbits(30), q=L.gen_points(rng, 3, d))


def bad_call(op, d, bad, j):
    """-> (X, y, type) of a call which cannot be accepted."""
    k, pts, val = op[:3]
    X = L.shape_points(pts, d)
    n = len(pts)
    ty = L.TYPES.get(k)
    if bad == 'xdim':
        X = np.column_stack([X.reshape(n, -1), np.ones(n)])
    if k == 'prior':
        return X, None, 'prior'
    if k == 'gp':
        y = L.arr(val)
        if bad == 'short':
            y = y[:-1]
        elif bad == 'long':
            y = np.append(y, 0.3)
        elif bad == 'sigma':
            return X, y, [0.1] * (n + 1)
        return X, y, None
    if bad == 'type':
        return X, (L.arr(val) if k == 'abs' else val), ['ordnal', 'absolute', 'relative', ''][j]
    if k == 'pref':
        y = [list(p) for p in val]
        p = y[j % len(y)]
        if bad == 'cols':
            y = [q[:2] for q in y]
        elif bad == 'ragged':
            y.append([1, 0])
        elif bad == 'range':
            p[1 + j % 2] = n + j
        elif bad == 'negative':
            p[1 + j % 2] = -1000 - j
        elif bad == 'nan':
            p[1 + j % 2] = float('nan')
        return X, [tuple(q) for q in y], ty
    if k == 'abs':
        y = L.arr(val)
        if bad == 'high':
            y[j % n] = [1.0001, 2.0, 1e9, np.inf][j]
        elif bad == 'low':
            y[j % n] = [-0.0001, -1.0, -1e9, -np.inf][j]
        elif bad == 'nan':
            y[j % n] = np.nan
        elif bad == 'list':
            y = {0: list(val), 1: dict(v=1), 2: 'abc', 3: None}[j] if j != 3 else list(val)
        elif bad == 'long':
            y = np.append(y, 0.5)
        elif bad == 'badidx':
            y = (y, np.arange(n) + 1000)
        return X, y, ty
    y = list(val)
    if bad == 'zero':
        y[j % n] = 0
    elif bad == 'negative':
        y[j % n] = -1 - j
    elif bad == 'long':
        y = y + [1]
    elif bad == 'text':
        y[j % n] = 'good'
    elif bad == 'badidx':
        y = np.array([[v, 1000 + q] for q, v in enumerate(val)])
    return X, y, ty


def call_bad(model, c, gp):
    X, y, ty = c
    if gp:
        if ty is None:
            model.add(X, y)
        else:
            model.add(X, y, training_sigma=ty)
    elif ty == 'prior':
        model.add_prior(bounds=np.array([[0.0, 1.0]] * X.shape[1]), method='exact', pts=X)
    else:
        model.add(X, y, type=ty)


def execute(case, ctx):
    m, d = case['model'], case['d']
    gp = m['type'] == 'gp'
    model, twin = L.build_model(m), L.build_model(m)
    q = L.shape_points(case['q'], d)
    held = set()
    failed = 0

    def same(where):
        ctx.check(L.same_data(L.snap_data(model), L.snap_data(twin)),
                  '%s: stored data differ from those of a model the failing call was never made on' % where, 'data-changed')
        if not gp:
            ctx.check(L.same_y(model.get_prior_pts(), twin.get_prior_pts()), '%s: prior points differ' % where, 'data-changed')
        if gp:
            a, b = getattr(model, 'training_sigma', None), getattr(twin, 'training_sigma', None)
            if model.X_train is not None:
                ctx.check(np.array_equal(a, b), '%s: stored uncertainties differ' % where, 'data-changed')

    def read(where):
        if not held:
            if m['type'] == 'plin':
                return
        try:
            seams.seed_all(case['fit'])
            b = L.predict(twin, q)
        except Exception:
            raise Reject('the fault-free fit is refused')
        seams.seed_all(case['fit'])
        try:
            a = L.predict(model, q)
        except Exception as e:
            raise Violation('%s: predicting fails (%s: %s), which it does not on a model the failing call was never made on'
                            % (where, type(e).__name__, e), 'prediction-fails')
        ctx.log('read', a[0], b[0])
        ctx.check(L.dev(a, b) < 1e-8, '%s: predictions differ from those of a model the failing call was never made on, by %.3g'
                  % (where, L.dev(a, b)), 'prediction-changed')
        if failed:
            ctx.probe('predicted_after_failure')

    for op in case['ops']:
        k = op[0]
        if k == 'read':
            read('after %d failed calls' % failed)
            continue
        if k == 'ok':
            L.deliver(model, op[1], d)
            L.deliver(twin, op[1], d)
            held.add(op[1][0])
        elif k == 'bad':
            if op[2] == 'xdim' and twin.X_train is None:
                continue
            if not op[1][1] or (op[1][0] == 'pref' and not op[1][2]) or (op[1][0] == 'prior' and op[2] != 'xdim'):
                continue
            if op[2] == 'long' and op[1][0] != 'gp' and False:
                continue
            args = bad_call(op[1], d, op[2], op[3])
            raised = None
            try:
                call_bad(model, args, gp)
            except Exception as e:
                raised = type(e).__name__
            ctx.log('bad', op[2], raised)
            ctx.check(raised is not None, 'add accepted unusable input (%s/%s)' % (op[1][0], op[2]), 'accepted:%s-%s' % (op[1][0], op[2]))
            ctx.fault('rejected_input')
            ctx.probe('rejected')
            failed += 1
            ctx.probe('failed_with_data' if held else 'failed_on_empty')
            ctx.state(m['type'], m.get('pareto'), op[1][0], op[2], held)
            same('after a rejected add (%s/%s, %s)' % (op[1][0], op[2], raised))
        elif k == 'alloc':
            # dry run on a copy: how many allocation points has this call?
            dry = copy.deepcopy(model)
            w = seams.Window()
            with seams.alloc_window(w):
                L.deliver(dry, op[1], d)
            if w.n == 0:
                continue
            at = min(int(op[2] * w.n), w.n - 1)
            w = seams.Window(ctx=ctx, fire={at: MemoryError})
            raised = None
            try:
                with seams.alloc_window(w):
                    L.deliver(model, op[1], d)
            except MemoryError:
                raised = 'MemoryError'
            except Exception as e:
                raised = type(e).__name__
            ctx.log('alloc', at, w.fired, raised)
            if op[1][0] == 'prior' and raised:
                ctx.probe('prior')
            ctx.state(m['type'], op[1][0], w.fired[0][1] if w.fired else None, at, held)
            if raised is None:
                # the library coped: then the call must have happened in full
                L.deliver(twin, op[1], d)
                held.add(op[1][0])
                same('after an add which survived a failing allocation')
                continue
            failed += 1
            ctx.probe('alloc_raised')
            ctx.probe('failed_with_data' if held else 'failed_on_empty')
            same('after an add that failed in an allocation (%s)' % (w.fired,))
        if k in ('bad', 'alloc') and op[-1]:
            # (retry with valid input)
            L.deliver(model, op[1], d)
            L.deliver(twin, op[1], d)
            held.add(op[1][0])
            ctx.probe('retry')
        same('after %s' % k)


def simplify(case):
    for i, op in enumerate(case['ops']):
        if op[0] in ('ok', 'alloc', 'bad'):
            for s in L.shrink_delivery(op[1]):
                c = copy.deepcopy(case)
                c['ops'][i][1] = s
                yield c
