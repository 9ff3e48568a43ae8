"""C03: predictions are a function of the data held (history vs. fresh model)."""
import copy, contextlib
import numpy as np
from sim import lopsys as L, seams
from sim.core import Violation, Reject

ID = 'C03'
RUNS = {'quick': 4000, 'thorough': 60000}
RULE = ('one run = a set of observations delivered to one model through a random schedule (order, batching, permutation inside '
        'batches, reads / optimisations / selections / failed calls / resets in between) and to a second model in one canonical '
        'pass; predictions are compared at the end and after random prefixes; non-trivial: at least one read between two deliveries')
MEASURE = 'distinct (schedule of op kinds) sequences'
ASSUMPTIONS = ['points are distinct and at least 0.08 apart, so the result is determined to the tolerance of the fit',
               'with bounded ratings the posterior may have several modes: there every uniform draw is frozen to one legal value, so that both models start at the same place, and either the order is kept or the ratings are mild',
               'settings without hyperparameter search and without normalisation of the fit']
REQUIRED_PROBES = ['read_between', 'reset_redeliver', 'rebatched', 'select_between', 'refit_between', 'mixed_types', 'points_only', 'other_data']
TOL = 0.01


def generate(rng, i):
    m = L.gen_model(rng, ('pgp',), ('rbf', 'rbf', 'sum'), pareto=rng.random() < 0.25)
    d = rng.choice([1, 2, 2, 3])
    if d == 1:
        m['pareto'] = False
    used = []
    kinds = rng.choice([('pref',), ('pref', 'ord'), ('ord',), ('pref', 'abs'), ('abs',), ('pref', 'abs', 'ord')])
    n = rng.randint(2, 6)
    if d == 1:
        n = min(n, 3)
    dels = [L.gen_delivery(rng, d, used, kinds, nmax=3, mindist=0.08) for _ in range(n)]
    if rng.random() < (0.6 if m['pareto'] else 0.1) and d > 1:
        # points without any stated preference (with dominance pairs they still say something)
        at = rng.randint(0, n)
        dels.insert(at, ['pref', L.gen_points(rng, rng.randint(1, 3), d, used=used, mindist=0.08), []])
        n += 1
    between = []
    for _ in range(n + 1):
        between.append([rng.choice(['none', 'none', 'read', 'read', 'large', 'optimize', 'select', 'best', 'bad', 'reset', 'other'])
                        for _ in range(rng.choice([0, 1, 1, 2]))])
    # canonical order of the second model: permutation of the deliveries, points permuted and batches merged/split
    perm = list(range(n))
    split = rng.choice(['whole', 'merge', 'split', 'shuffle'])
    if 'abs' in kinds and rng.random() < 0.5:
        split = rng.choice(['whole', 'merge'])
    else:
        rng.shuffle(perm)
        for op in dels:
            if op[0] == 'abs':
                # mild ratings: the fit is not sensitive to the rounding that reordering brings
                op[2] = [round(rng.uniform(0.4, 0.6), 3) for _ in op[2]]
    return dict(model=m, d=d, items=dels, between=between, perm=perm, split=split,
                start=rng.choice([0.0, 0.25, 0.5, 0.9999]) if 'abs' in kinds else (rng.choice([None, None, 0.5])),
                check_at=rng.randint(1, n), q=L.gen_points(rng, 4, d), learner=rng.choice(['ucb', 'best', 'none']))


def rebatch(dels, how, seed):
    """The same observations in other deliveries."""
    import random
    r = random.Random(seed)
    out = []
    for k, pts, val in dels:
        if how == 'shuffle' or how == 'split':
            o = list(range(len(pts)))
            r.shuffle(o)
            inv = {b: a for a, b in enumerate(o)}
            pts = [pts[j] for j in o]
            if k == 'pref':
                val = [[p[0], inv[p[1]], inv[p[2]]] for p in val]
                # (either notation of a preference, in any order)
                val = [[p[0], p[1], p[2]] if r.random() < 0.5 else [-p[0], p[2], p[1]] for p in val]
                r.shuffle(val)
            else:
                val = [val[j] for j in o]
        if how == 'split' and k != 'pref' and len(pts) > 1:
            out += [[k, [p], [v]] for p, v in zip(pts, val)]
        elif how == 'merge' and out and out[-1][0] == k:
            b = len(out[-1][1])
            out[-1][1] = out[-1][1] + pts
            out[-1][2] = out[-1][2] + ([[p[0], p[1] + b, p[2] + b] for p in val] if k == 'pref' else val)
        else:
            out.append([k, pts, val])
    if how == 'merge':
        pass
    return out


def opposite(op):
    k, pts, val = op[:3]
    if k == 'pref':
        return [k, pts, [[-p[0], p[1], p[2]] for p in val]]
    return [k, pts, [round(1 - v, 6) for v in val] if k == 'abs' else [6 - v for v in val]]


def execute(case, ctx):
    import lop
    d = case['d']
    frozen = (lambda: seams.frozen_draws(case['start'])) if case['start'] is not None else contextlib.nullcontext
    dels = case['items']
    if not dels:
        raise Reject('nothing delivered')
    q = L.shape_points(case['q'] + [p for o in dels for p in o[1]][:3], d)
    learner = {'ucb': lambda: lop.UCBLearner(1.0), 'best': lop.BestLearner, 'none': lambda: None}[case['learner']]()
    A = L.build_model(case['model'], learner)
    kinds, sched = set(), []
    check_at = min(case['check_at'], len(dels))

    def compare(done, where):
        B = L.build_model(case['model'])
        order = [j for j in case['perm'] if j < len(done)]
        todo = rebatch([done[j] for j in order], case['split'], case['rng'])
        if case['split'] != 'whole':
            ctx.probe('rebatched')
        for op in todo:
            L.deliver(B, op, d)
        with frozen():
            try:
                b = L.predict(B, q)
            except np.linalg.LinAlgError:
                raise Reject('the fit is refused')
            n0 = B.n_loops
            try:
                a = L.predict(A, q)
            except np.linalg.LinAlgError:
                raise Violation('%s: prediction refused, a fresh model with the same data predicts' % where, 'refused')
        if max(A.n_loops, n0) >= 100:
            raise Reject('the fit ran into its iteration limit')
        e = L.dev(a, b)
        ctx.log('cmp', where, a[0], b[0], e)
        ctx.dev = max(getattr(ctx, 'dev', 0), e)
        ctx.check(e < TOL, '%s: predictions differ by %.3g from those of a fresh model with the same observations (schedule %s)'
                  % (where, e, sched), 'history-dependent')

    done = []
    for j, op in enumerate(dels):
        L.deliver(A, op, d)
        done.append(op)
        kinds.add(op[0])
        if not op[2]:
            ctx.probe('points_only')
        sched.append(op[0])
        if j + 1 == check_at:
            compare(done, 'after delivery %d' % (j + 1))
        for b in case['between'][j]:
            sched.append(b)
            with frozen():
                if b in ('read', 'large', 'optimize', 'select', 'best') and j + 1 < len(dels):
                    ctx.nontrivial = True
                try:
                    if b == 'read':
                        A.predict(q[:2])
                        ctx.probe('read_between')
                    elif b == 'large':
                        A.predict_large(q)
                    elif b == 'best':
                        A.select_best(q)
                    elif b == 'optimize':
                        A.optimize()
                        ctx.probe('refit_between')
                    elif b == 'select' and learner is not None:
                        A.select(q, 2)
                        ctx.probe('select_between')
                except np.linalg.LinAlgError:
                    raise Reject('the fit is refused')
                if b == 'bad':
                    try:
                        A.add(q, np.full(len(q), 3.0), type='abs')
                    except ValueError:
                        pass
                elif b == 'reset':
                    A.reset()
                    for o in done:
                        L.deliver(A, o, d)
                    ctx.probe('reset_redeliver')
                elif b == 'other':
                    # in between the model serves other answers about as many points
                    A.reset()
                    for o in done:
                        L.deliver(A, opposite(o), d)
                    try:
                        with frozen():
                            A.predict(q[:2])
                    except np.linalg.LinAlgError:
                        pass
                    A.reset()
                    for o in done:
                        L.deliver(A, o, d)
                    ctx.probe('other_data')
    if len(kinds) > 1:
        ctx.probe('mixed_types')
    compare(done, 'at the end')
    ctx.state(sched)


def simplify(case):
    for j, op in enumerate(case['items']):
        for s in L.shrink_delivery(op):
            c = copy.deepcopy(case)
            c['items'][j] = s
            yield c
    for j, b in enumerate(case['between']):
        for k in range(len(b)):
            c = copy.deepcopy(case)
            del c['between'][j][k]
            yield c
    if case['split'] != 'whole':
        c = copy.deepcopy(case)
        c['split'] = 'whole'
        yield c
