"""C01: the training data is exactly what was delivered (refinement of Ledger)."""
import copy
import numpy as np
from sim import lopsys as L
from sim.core import Violation
from sim.ledger import Ledger, compare, dominance

ID = 'C01'
RUNS = {'quick': 6000, 'thorough': 40000}
RULE = ('one run = a random model (GP, preference GP with/without dominance pairs, linear) and a random history of '
        'deliveries of all types, prior points, resets and reads; the caller reuses its buffers after every call; '
        'non-trivial: at least two deliveries')
MEASURE = 'distinct (model type, dominance on, op kind sequence of last 3 ops, sizes of each data type) tuples'
ASSUMPTIONS = ['ordinal labels and ratings are delivered one per point; index-carrying forms only as first delivery, where their meaning is unambiguous']
REQUIRED_PROBES = ['prior_pruned', 'mixed_types', 'reset', 'buffer_reuse', 'tuple', 'rows', 'prior_rated']


def generate(rng, i):
    t = rng.choice(['pgp', 'pgp', 'pgp', 'plin', 'gp'])
    m = L.gen_model(rng, (t,), ('rbf', 'lin', 'sum'))
    if t != 'gp' and rng.random() < 0.25:
        m['pareto'] = True
    d = rng.choice([1, 2, 2, 3]) if t != 'pgp' or m['pareto'] else rng.choice([0, 1, 2, 2, 3])
    if t == 'plin':
        d = max(d, 2)
    used = []
    corners = False
    ops = []
    grid = rng.random() < 0.25            # coarse coordinates: ties between coordinates
    anti = m.get('pareto') and d == 2 and rng.random() < 0.4       # few points dominate another
    for _ in range(rng.randint(2, 9)):
        r = rng.random()
        n = rng.randint(1, 4)
        def pts(k):
            if anti and rng.random() < 0.85:
                out = []
                while len(out) < k:
                    x = round(rng.random(), 4)
                    p = [x, round(1 - x, 4)]
                    if p not in used:
                        used.append(p)
                        out.append(p)
                return out
            if grid and d > 0:
                # coarse, but distinct as points are told apart by coordinates
                out = []
                while len(out) < k:
                    p = [rng.randint(1, 4) / 5 for _ in range(d)]      # (never a corner of the bounds)
                    p = [c + (len(used) * 1e-3 if j == 0 and rng.random() < 0.5 else 0) for j, c in enumerate(p)]
                    p = [round(c, 5) for c in p]
                    if p not in used:
                        used.append(p)
                        out.append(p)
                    elif rng.random() < 0.3:
                        p = [round(rng.random(), 5) for _ in range(d)]
                        used.append(p)
                        out.append(p)
                return out
            return L.gen_points(rng, k, d, used=used)
        if t == 'gp':
            if r < 0.6:
                ops.append(['add', pts(n), [round(rng.uniform(-2, 2), 3) for _ in range(n)]])
            elif r < 0.7:
                ops.append(['reset'])
            else:
                ops.append(['read'])
            continue
        if r < 0.28:
            n = rng.randint(2, 4)
            ops.append(['pref', pts(n), L.gen_pairs(rng, n, rng.randint(0, 3)), rng.choice(['list', 'array', 'list'])])
        elif r < 0.46:
            vals = [rng.choice([0.0, 1.0, 0.0005, 0.9999, round(rng.random(), 3)]) for _ in range(n)]
            ops.append(['abs', pts(n), vals, rng.choice(['array', 'array', 'tuple'])])
        elif r < 0.62:
            ops.append(['ord', pts(n), [rng.randint(1, 5) for _ in range(n)], rng.choice(['list', 'array', 'rows'])])
        elif r < 0.78 and m.get('pareto') and d >= 1:
            if rng.random() < 0.5:
                ops.append(['prior', 'exact', pts(rng.randint(1, 4))])
            elif not corners:
                # (random priors always contain the corners of the bounds: once, so points stay distinct)
                corners = True
                ops.append(['prior', 'random', rng.randint(1, 6)])
        elif r < 0.81:
            ops.append(['reset'])
            corners = False
        elif r < 0.9:
            ops.append(['read'])
        else:
            ops.append(['optimize'])
    return dict(model=m, d=d, ops=ops)


def execute(case, ctx):
    m, d = case['model'], case['d']
    model = L.build_model(m)
    if m['type'] == 'gp':
        return execute_gp(case, ctx, model)
    led = Ledger(m.get('pareto', False))
    hist = []
    deliveries = 0
    for op in case['ops']:
        k = op[0]
        hist.append(k)
        if k in ('pref', 'abs', 'ord'):
            if not op[1]:
                continue
            X = L.shape_points(op[1], d)
            X0 = X.copy()
            form, order = op[3], None
            if k == 'pref':
                y = [tuple(p) for p in op[2]]
                if form == 'array' and y:
                    y = np.array(y)
                ty = 'relative_discrete'
            elif k == 'abs':
                y = np.array(op[2], dtype=float)
                ty = 'abs'
                if form == 'tuple' and not led.points:
                    # references given with the values, in another order than the points
                    order = list(range(len(op[2])))[::-1]
                    y = (y, np.array(order))
                    ctx.probe('tuple')
            else:
                y = list(op[2])
                if form == 'array':
                    y = np.array(y)
                elif form == 'rows' and not led.points:
                    order = list(range(1, len(op[2]))) + [0]
                    y = np.array([[v, i] for i, v in zip(order, op[2])])
                    ctx.probe('rows')
                ty = 'ordinal'
            y0 = copy.deepcopy(y)
            model.add(X, y, type=ty)
            parts = zip(y, y0) if isinstance(y, tuple) else [(y, y0)]
            same = np.array_equal(X, X0) and all(np.array_equal(a, b) if isinstance(a, np.ndarray) else a == b for a, b in parts)
            ctx.check(same, 'add(%s) modified the arrays it was given' % ty, 'caller-buffer-modified')
            # the caller reuses its buffers
            X += 37.5
            for a in (y if isinstance(y, tuple) else (y,)):
                if isinstance(a, np.ndarray):
                    a[...] = 1 if a.dtype.kind != 'i' or a.ndim > 1 else 0
                else:
                    a.clear()
            ctx.probe('buffer_reuse')
            led.add(X0, k, op[2], order)
            deliveries += 1
        elif k == 'prior':
            before = len(led.points)
            if op[1] == 'exact':
                if not op[2]:
                    continue
                P = L.shape_points(op[2], d)
                P0 = P.copy()
                model.add_prior(bounds=np.array([[0.0, 1.0]] * d), method='exact', pts=P)
                ctx.check(np.array_equal(P, P0), 'add_prior modified the points it was given', 'caller-buffer-modified')
                P += 11.0
                new = [Ledger.key(r) for r in P0]
            else:
                model.add_prior(bounds=np.array([[0.0, 1.0]] * d), num_pts=op[2], method='random')
                # which points were drawn is only known from the model; they must be
                # new, inside the bounds, and no more than asked for
                got = [] if model.X_train is None else [Ledger.key(r) for r in model.X_train]
                old = set(led.points)
                new = [p for p in got if p not in old]
                ctx.check(len(new) <= op[2], 'add_prior(random) added %d points, %d asked for' % (len(new), op[2]), 'prior-count')
                ctx.check(all(0 <= c <= 1 for p in new for c in p), 'add_prior(random) left the bounds', 'prior-bounds')
            led.points += new
            led.priors |= set(range(before, before + len(new)))
            # dropping is allowed for points nothing refers to: take over which of them the model dropped
            got = [] if model.X_train is None else [Ledger.key(r) for r in model.X_train]
            free = set(range(len(led.points))) - led.referenced()
            gone = [i for i in free if led.points[i] not in got]
            if gone:
                ctx.probe('prior_pruned')
                if len(led.ratings) + len(led.labels) > 1:
                    ctx.probe('prior_rated')
            led.drop(gone)
            deliveries += 1
            pp = model.get_prior_pts()
            want = [led.points[i] for i in sorted(led.priors) if i >= before - len([g for g in gone if g < before])]
            have = [] if pp is None else [Ledger.key(r) for r in pp]
            ctx.check(have == want, 'get_prior_pts returns %s, the prior points held are %s' % (have[:3], want[:3]), 'prior-points')
        elif k == 'reset':
            model.reset()
            led.reset()
            ctx.probe('reset')
        elif k in ('read', 'optimize'):
            if not led.points or not (led.prefs or led.ratings or led.labels or dominance(led.points)):
                continue
            # the ledger only needs the call to happen; whether its answer is right is C03/C04/C12
            try:
                if k == 'read':
                    model.predict(L.shape_points(led.points, d)[:2])
                else:
                    model.optimize()
            except np.linalg.LinAlgError:
                ctx.probe('fit_refused')
        kinds = (bool(led.prefs), bool(led.ratings), bool(led.labels))
        if sum(kinds) > 1:
            ctx.probe('mixed_types')
        compare(model, led, 'after %s' % k)
        ctx.log(k, model.X_train if model.X_train is not None else 'none', len(led.prefs), led.ratings, led.labels)
        ctx.state(m['type'], m.get('pareto'), hist[-3:], len(led.points), len(led.prefs), len(led.ratings), len(led.labels))
    ctx.nontrivial = deliveries >= 2


def execute_gp(case, ctx, model):
    d = case['d']
    X_all, y_all = [], []
    a = case['model'].get('mean') or 0
    n = 0
    hist = []
    for op in case['ops']:
        hist.append(op[0])
        if op[0] == 'add':
            if not op[1]:
                continue
            X, y = L.shape_points(op[1], d), L.arr(op[2])
            X0, y0 = X.copy(), y.copy()
            model.add(X, y)
            ctx.check(np.array_equal(X, X0) and np.array_equal(y, y0), 'GP add modified the arrays it was given', 'caller-buffer-modified')
            X += 3.0
            y -= 5.0
            ctx.probe('buffer_reuse')
            X_all += [Ledger.key(r) for r in X0]
            y_all += list(y0 - a * (np.sum(X0, axis=1) if X0.ndim > 1 else X0))
            n += 1
        elif op[0] == 'reset':
            model.reset()
            X_all, y_all = [], []
            ctx.probe('reset')
        elif X_all:
            model.predict(L.shape_points(X_all, d)[:2])
        got = [] if model.X_train is None else [Ledger.key(r) for r in model.X_train]
        ctx.check(got == X_all, 'GP after %s: held points are not the delivered ones' % op[0], 'points')
        if X_all:
            ctx.check(np.shape(model.y_train) == (len(y_all),) and np.allclose(model.y_train, y_all, rtol=0, atol=1e-12),
                      'GP after %s: held outputs are not the delivered ones' % op[0], 'outputs')
        ctx.log(op[0], X_all, y_all)
        ctx.state('gp', hist[-3:], len(X_all))
    ctx.nontrivial = n >= 2


def simplify(case):
    # drop single points' worth of structure: shrink each delivery to its first point(s)
    for i, op in enumerate(case['ops']):
        if op[0] in ('abs', 'ord', 'add') and len(op[1]) > 1:
            c = copy.deepcopy(case)
            c['ops'][i][1] = op[1][:-1]
            c['ops'][i][2] = op[2][:-1]
            yield c
        if op[0] == 'pref' and len(op[2]) > 1:
            c = copy.deepcopy(case)
            c['ops'][i][2] = op[2][:-1]
            yield c
