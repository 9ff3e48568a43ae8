"""C18: reading a fitted model is repeatable and free of side effects."""
import copy
import numpy as np
from sim import lopsys as L, seams
from sim.core import Violation, Reject

ID = 'C18'
RUNS = {'quick': 8000, 'thorough': 120000}
RULE = ('one run = a fitted model read 4-14 times in random order (predict, predict_large, call, best candidate, piecewise, failing reads with a '
        'wrong shape or an injected numerical fault, reads of another model in between) over a few query sets, some of them views, read-only or '
        'overlapping the training data; repeated reads must be bit-identical; non-trivial: at least one read repeated after a different one')
MEASURE = 'distinct (model, kernel, sequence of read kinds) tuples'
ASSUMPTIONS = ['piecewise and whole predictions agree within 1e-7 (the kernel matrices have condition numbers below 1e6)']
REQUIRED_PROBES = ['repeat', 'piecewise', 'best', 'failed_read', 'overlap', 'gp', 'pgp', 'plin', 'prior']
KINDS = ['predict', 'predict', 'predict', 'large', 'call', 'best', 'piece', 'bad', 'fault', 'other', 'train', 'mutate']


def generate(rng, i):
    m = L.gen_model(rng, rng.choice([('pgp',), ('pgp',), ('gp',), ('plin',)]), ('rbf', 'rbf', 'sum', 'prod'))
    t = m['type']
    d = rng.choice([0, 1, 2, 2, 3])
    if t == 'plin':
        d = rng.choice([2, 3])
        m['pareto'] = False
    if d < 2:
        m['pareto'] = False
    if t != 'plin' and rng.random() < 0.1:
        m['kern'] = L.gen_kern(rng, ('rbf0',)) if d > 1 or rng.random() < 0.5 else L.gen_kern(rng, ('sper',))
    used = []
    kinds = ('gp',) if t == 'gp' else ('pref', 'pref', 'abs', 'ord') if t == 'pgp' else ('pref',)
    n = 0 if rng.random() < 0.06 and t != 'plin' else rng.randint(1, 4)
    items = [L.gen_delivery(rng, d, used, kinds, nmax=4, mindist=0.05) for _ in range(n)]
    if t == 'plin':
        items = items[:2]
    qs = []
    for _ in range(rng.randint(1, 3)):
        k = rng.choice([1, 2, 3, 5, 14, 15, 16, 30, 31, 47, len(used) or 1])
        q = L.gen_points(rng, k, d, lo=-0.3, hi=1.3)
        for j in range(k):
            if used and rng.random() < 0.25:
                q[j] = list(rng.choice(used))
        if used and rng.random() < 0.3:
            q[0] = list(used[0])
        qs.append(dict(p=q, how=rng.choice(['plain', 'plain', 'readonly', 'view', 'fortran'])))
    ops = [[rng.choice(KINDS), rng.randrange(len(qs)), rng.randrange(1 << 20)] for _ in range(rng.randint(4, 14))]
    return dict(model=m, d=d, items=items, qs=qs, ops=ops)


def make_q(q, d):
    a = L.shape_points(q['p'], d)
    if q['how'] == 'view':
        b = np.full((2 * len(a),) + a.shape[1:], 7.5)
        b[::2] = a
        return b[::2]
    if q['how'] == 'fortran':
        return np.asfortranarray(a)
    if q['how'] == 'readonly':
        a.flags.writeable = False
    return a


def execute(case, ctx):
    m, d = case['model'], case['d']
    t = m['type']
    model = L.build_model(m)
    for op in case['items']:
        L.deliver(model, op, d)
    ctx.probe(t)
    if not any(op[1] for op in case['items']):
        if t == 'plin':
            raise Reject('no data')
        ctx.probe('prior')
    Q = [make_q(q, d) for q in case['qs']]
    Q0 = [q.copy() for q in Q]
    try:
        model.predict(Q[0].copy())   # fits
    except np.linalg.LinAlgError:
        raise Reject('ill-conditioned')
    data, hyper = L.snap_data(model), L.hyper_of(model)
    F0 = None if getattr(model, 'F', None) is None else np.array(model.F)
    if t == 'plin' and not np.isfinite(model.w).all():
        raise Reject('inconsistent preferences')
    other = L.build_model(m)
    if t != 'plin':
        for op in case['items'][:1]:
            L.deliver(other, op, d)
    seen, handed = {}, []
    kinds = []

    def result(kind, qi, val):
        """val: tuple of arrays handed out"""
        key = (kind, qi)
        cp = tuple(None if v is None else np.array(v, copy=True) for v in val)
        ctx.log(kind, qi, cp)
        if key in seen:
            ctx.probe('repeat')
            ctx.nontrivial = True
            ctx.check(L.dev(cp, seen[key]) == 0.0, '%s of the same candidates differs by %.3g from its first result' % (kind, L.dev(cp, seen[key])), 'not-repeatable')
        else:
            seen[key] = cp
        for v in val:
            if isinstance(v, np.ndarray):
                handed.append((kind, v, v.copy()))
        return cp

    for kind, qi, seed in case['ops']:
        qi %= len(Q)
        X = Q[qi]
        kinds.append(kind)
        st = seams.rng_fingerprint()
        draws = True
        if kind == 'predict':
            mu, sig = model.predict(X)
            result(kind, qi, (mu, sig, model.cov if t != 'plin' else None))
        elif kind == 'large':
            mu, sig = model.predict_large(X)
            r = result(kind, qi, (mu, sig))
            p = L.predict(model, X)
            e = L.dev(r, p[:2])
            ctx.check(e < 1e-7, 'predict_large differs from predict by %.3g' % e, 'large')
        elif kind == 'call':
            r = result(kind, qi, (model(X),))
            e = L.dev(r, (L.predict(model, X)[0],))
            ctx.check(e == 0.0, 'calling the model differs from its predicted mean by %.3g' % e, 'call')
        elif kind == 'best':
            ctx.probe('best')
            b = int(model.select_best(X))
            mu = L.predict(model, X)[0]
            ctx.check(0 <= b < len(X) and mu[b] == mu.max(), 'best candidate %d has prediction %r, the largest is %r'
                      % (b, mu[b] if 0 <= b < len(X) else None, mu.max()), 'best')
        elif kind == 'piece':
            ctx.probe('piecewise')
            whole = L.predict(model, X)
            k = 1 + seed % 4
            mu, var = [], []
            for j in range(0, len(X), k):
                p = L.predict(model, X[j:j + k])
                mu.append(p[0])
                var.append(p[1])
                if p[2] is not None and whole[2] is not None:
                    e = L.dev((p[2],), (whole[2][j:j + k, j:j + k],))
                    ctx.check(e < 1e-7, 'covariance predicted piecewise differs by %.3g' % e, 'piecewise')
            e = L.dev((np.concatenate(mu), None if var[0] is None else np.concatenate(var)), whole[:2])
            if case['items'] and case['items'][0][1] and case['qs'][qi]['p'][0] in case['items'][0][1]:
                ctx.probe('overlap')
            ctx.check(e < 1e-7, 'predicting %d at a time differs by %.3g from predicting at once' % (k, e), 'piecewise')
        elif kind == 'bad':
            bad = np.zeros((2, max(d, 1) + 2, 3))
            try:
                model.predict(bad)
            except Exception as e:
                ctx.fault('wrong_shape')
                ctx.probe('failed_read')
        elif kind == 'fault':
            w = seams.Window(ctx, names=seams.LA_NAMES, fire={seed % 3: np.linalg.LinAlgError})
            want = L.predict(model, X)
            try:
                with seams.window(w):
                    p = L.predict(model, X)
                ctx.check(L.dev(p, want) < 1e-5, 'prediction with a failing factorisation is off by %.3g' % L.dev(p, want), 'fault')
            except np.linalg.LinAlgError:
                ctx.probe('failed_read')
        elif kind == 'other':
            try:
                other.predict(X.copy())
            except np.linalg.LinAlgError:
                pass
            draws = False
        elif kind == 'train':
            if model.X_train is None:
                continue
            mu = result('train', 0, model.predict(model.X_train) + ((model.cov,) if t != 'plin' else ()))[0]
            one = np.array([model.predict(model.X_train[j:j + 1])[0][0] for j in range(len(model.X_train))])
            e = L.dev((mu,), (one,))
            ctx.check(e < 1e-7, 'predicting the training points one by one differs by %.3g' % e, 'piecewise')
        elif kind == 'mutate':
            # the caller reuses one buffer for different candidates
            B = np.array(Q0[qi])
            first = L.predict(model, B)
            B[...] = B + 0.05 * (1 + seed % 7)
            again = L.predict(model, B)
            e = L.dev(again, L.predict(model, B.copy()))
            ctx.check(e == 0.0, 'candidates in a reused buffer are predicted %.3g differently' % e, 'reused-buffer')
            B[...] = Q0[qi]
            e = L.dev(L.predict(model, B), first)
            ctx.check(e == 0.0, 'the same candidates in a reused buffer are predicted %.3g differently' % e, 'reused-buffer')
        if draws:
            ctx.check(seams.rng_fingerprint() == st, '%s drew random numbers' % kind, 'draws')
        for j in range(len(Q)):
            ctx.check(np.array_equal(Q[j], Q0[j]), '%s changed the query array' % kind, 'query-changed')
        ctx.check(L.same_data(L.snap_data(model), data), '%s changed the training data' % kind, 'data-changed')
        ctx.check(np.array_equal(L.hyper_of(model), hyper), '%s changed the hyperparameters' % kind, 'hyper-changed')
        for k0, v, c in handed:
            ctx.check(L.dev((v,), (c,)) == 0.0, 'an array handed out by %s was changed by a later %s' % (k0, kind), 'handed-out')
    ctx.state(t, m.get('kern', {}).get('k'), kinds)


def simplify(case):
    for j, q in enumerate(case['qs']):
        if len(q['p']) > 1:
            c = copy.deepcopy(case)
            c['qs'][j]['p'] = q['p'][:max(1, len(q['p']) // 2)]
            yield c
        if q['how'] != 'plain':
            c = copy.deepcopy(case)
            c['qs'][j]['how'] = 'plain'
            yield c
    for j, op in enumerate(case['items']):
        for s in L.shrink_delivery(op):
            c = copy.deepcopy(case)
            c['items'][j] = s
            yield c
