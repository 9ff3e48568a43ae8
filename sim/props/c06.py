"""C06: a selection is always a valid, honestly reported query."""
import copy
import numpy as np
from sim import lopsys as L, seams, learn
from sim.core import Violation, Reject
from sim.props import c04

ID = 'C06'
RUNS = {'quick': 4000, 'thorough': 80000}
RULE = ('one run = a history of queries and answers on one model (preference GP, linear preference model, GP) with one learner of any kind; every '
        'selection is checked for number, range, distinctness, previous selections, preference order, best-first, the not-selected report and, for '
        'best/worst/UCB learners, the metric; non-trivial: at least two selections were made')
MEASURE = 'distinct (learner, model, form of preference, previous selections, size, reported) combinations selected from'
ASSUMPTIONS = ['candidate points are distinct', 'learners are given at least the data they need']
REQUIRED_PROBES = ['valid', 'metric', 'best-first', 'pareto', 'not-selected', 'too-few', 'uniform', 'rating', 'pair']
TOL = 1e-6
PGP = learn.SIMPLE + ('absacq',) + learn.MIXED
PLIN = ('best', 'worst', 'random', 'ucb', 'gvucb', 'mutual', 'acq', 'absacq', 'bayes', 'ratechoose', 'setfixed', 'alternating', 'strategy', 'peak3')
GP = ('best', 'worst', 'ucb', 'gvucb', 'random', 'mutual')


def generate(rng, i):
    if rng.random() < 0.02:
        n = rng.randint(3, 7)
        k = rng.choice([1, 1, 2])
        prev = sorted(rng.sample(range(n), rng.choice([0, 1])))
        pref = rng.choice([None, 0, ['list', sorted(rng.sample(range(n), rng.randint(1, n)))]])
        return dict(mode='uniform', n=n, k=k, prev=prev, pref=pref, best=False, reps=400)
    t = rng.choice(['pgp'] * 6 + ['plin'] * 2 + ['gp'])
    d = rng.choice([1, 1, 2, 2, 3, 3]) if t != 'gp' else rng.choice([0, 1, 2])
    m = L.gen_model(rng, (t,), ('rbf', 'rbf', 'sum') if t == 'pgp' else ('rbf',), pareto=d > 1 and rng.random() < 0.1)
    spec = learn.gen_learner(rng, dict(pgp=PGP, plin=PLIN, gp=GP)[t])
    if t == 'plin':
        spec = learn_for_linear(rng, spec)
    used = []
    ops = []
    first = {'gp': ('gp',), 'plin': ('pref',), 'pgp': ('pref',)}[t]
    ops.append(['add', L.gen_delivery(rng, d, used, first, nmax=5, mindist=0.05)])
    both = t == 'pgp' and (spec['l'] == 'align' or rng.random() < 0.5)
    if both:
        op = L.gen_delivery(rng, d, used, ('abs',), nmax=3, mindist=0.05)
        op[2] = [round(rng.uniform(0.2, 0.8), 3) for _ in op[1]]
        ops.append(['add', op])
    elif spec['l'] not in ('align', 'decision', 'decision2') and rng.random() < 0.1:
        ops = []                                 # selections before any data
    heavy = learn.uses(spec, 'absacq', 'bayes', 'mutual') or spec['l'] == 'align'
    for _ in range(rng.randint(1, 3 if heavy else 5)):
        n = rng.randint(2, rng.choice([4, 7, 7 if heavy else 11]))
        pts = L.gen_points(rng, n, d)
        q = learn.gen_query(rng, spec, n)
        if d == 0 and q['pref'] == 'pareto':
            q['pref'] = None
        q['via'] = rng.choice(['model', 'learner'])
        q['pre'] = rng.random() < 0.5
        ops.append(['sel', pts, q])
        if rng.random() < 0.6:
            op = L.gen_delivery(rng, d, used, first, nmax=3, mindist=0.05)
            ops.append(['add', op])
    if d == 0:
        spec['par'] = False
    return dict(mode='sel', d=d, model=m, spec=spec, ops=ops)


def learn_for_linear(rng, s):
    return s


# ------------------------------------------------------------------- reference
def nondominated(pts):
    P = np.asarray(pts, dtype=float)
    return {i for i in range(len(P)) if not any(j != i and np.all(P[j] >= P[i]) for j in range(len(P)))}


def preferred(spec, q, pts):
    p, n = q['pref'], q['n']
    if p is None:
        p = 'pareto' if spec.get('par') else 0
    if p == 'pareto':
        return nondominated(pts)
    if isinstance(p, list):
        return set(p[1])
    return set(range(n)) if p == 0 else set(range(p))


def deciding(spec):
    """The simple learner whose rules apply to the returned query, if any."""
    return spec if spec['l'] not in learn.MIXED else None


def execute(case, ctx):
    if case['mode'] == 'uniform':
        return uniform(case, ctx)
    m, d, spec = case['model'], case['d'], case['spec']
    model = L.build_model(m)
    learner = learn.build_learner(spec)
    model.active_learner = learner
    learner.set_model(model)
    data, sels = 0, 0
    for op in case['ops']:
        if op[0] == 'add':
            if op[1][1]:
                L.deliver(model, op[1], d)
                data += 1
            continue
        pts, q = op[1], op[2]
        cand = L.shape_points(pts, d)
        if q['pre']:
            try:
                model.predict(cand)
            except np.linalg.LinAlgError:
                raise Reject('ill-conditioned')
        single = spec['l'] == 'absacq'
        k = min(q['k'], 1) if single else q['k']
        eligible = set(range(q['n'])) - set(q['prev'])
        pref = preferred(spec, q, pts)
        need = k
        with seams.pool(seams.Pool()):
            try:
                if q['via'] == 'model' and q['pair']:
                    r = model.select(cand, q['k'], learn.prev_arg(q), learn.prefer_arg(q['pref']), q['ns'])
                    sel, ns = learn.unpack(r, q['ns'])
                else:
                    sel, ns = learn.select(model, cand, q, learner)
                raised = None
            except np.linalg.LinAlgError:
                raise Reject('ill-conditioned')
            except Exception as e:
                raised = e
                if len(eligible) >= need:
                    raise
        if len(eligible) < need:
            # mixed learners may still be able to ask for a rating of what is left
            if raised is not None:
                ctx.probe('too-few')
                ctx.log('refused', type(raised).__name__)
                continue
            ok = spec['l'] in learn.MIXED and len(sel) == 1 and len(eligible) >= 1
            ctx.check(ok, '%s returned %s although only %d of %d candidates are eligible for a query of %d' % (spec['l'], sel, len(eligible), q['n'], need), 'too-few')
        sels += 1
        if sels > 1:
            ctx.nontrivial = True
        ctx.state(spec['l'], m['type'], str(q['pref'])[:4], bool(q['prev']), q['k'], q['ns'], data > 0)
        ctx.log(spec['l'], sel, ns)
        valid(ctx, spec, q, pref, eligible, sel, ns, k)
        if spec['l'] in learn.MIXED:
            continue
        order(ctx, spec, q, pref, eligible, sel)
        judge(ctx, model, m, spec, q, pref, cand, sel, ns, data)


def valid(ctx, spec, q, pref, eligible, sel, ns, k):
    n, name = q['n'], spec['l']
    what = '%s(k=%d, n=%d, prev=%s, prefer=%s) returned %s' % (name, q['k'], n, q['prev'], q['pref'], sel)
    if spec['l'] in learn.MIXED:
        sizes = {1, q['k']}
        ctx.probe('rating' if len(sel) == 1 else 'pair')
    else:
        sizes = {k}
    ctx.check(len(sel) in sizes, '%s: %d indices' % (what, len(sel)), 'count')
    ctx.check(all(0 <= s < n for s in sel), '%s: out of range' % what, 'range')
    ctx.check(len(set(sel)) == len(sel), '%s: the same candidate twice' % what, 'distinct')
    ctx.check(not set(sel) & set(q['prev']), '%s: previously selected' % what, 'previous')
    ctx.probe('valid')
    if ns is not None:
        ctx.probe('not-selected')
        ctx.check(len(set(ns)) == len(ns) and all(0 <= s < n for s in ns), 'not selected %s: not distinct candidates' % ns, 'ns')
        ctx.check(not set(ns) & set(sel), 'not selected %s overlaps the selection %s' % (ns, sel), 'ns')
        ctx.check(not set(ns) & set(q['prev']), 'not selected %s were selected before (%s)' % (ns, q['prev']), 'ns')
        ctx.check(not set(ns) & pref, 'not selected %s are preferred points (%s)' % (ns, sorted(pref)), 'ns')


def order(ctx, spec, q, pref, eligible, sel):
    """Preferred points are used up before any other point."""
    avail = pref & eligible
    if q['pref'] == 'pareto' or (q['pref'] is None and spec.get('par')):
        ctx.probe('pareto')
    others = [s for s in sel if s not in avail]
    ctx.check(not others or avail <= set(sel), '%s chose %s although preferred candidates %s were left (selection %s)'
              % (spec['l'], others, sorted(avail - set(sel)), sel), 'preferred')


def judge(ctx, model, m, spec, q, pref, cand, sel, ns, data):
    best_first = spec.get('best') and not q['prev']
    name = spec['l']
    if m['type'] == 'plin' and not data:
        return
    if not best_first and name not in ('best', 'worst', 'ucb', 'gvucb'):
        return
    if name in ('ucb', 'gvucb') and m['type'] == 'plin' and not best_first:
        return                                   # sampled weights
    mu, var = model.predict(cand)
    mu = np.array(mu)
    cov = getattr(model, 'cov', None)
    eligible = set(range(q['n'])) - set(q['prev'])
    tol = TOL * max(1.0, np.abs(mu).max())
    left = [s for s in eligible]
    chosen = []
    if best_first:
        ctx.probe('best-first')
        el = (pref & eligible) or eligible
        top = max(mu[list(el)])
        ctx.check(mu[sel[0]] >= top - tol and sel[0] in el, '%s: the first of %s is not the best eligible candidate (%.6g < %.6g)' % (name, sel, mu[sel[0]], top), 'best-first')
        if name not in ('best', 'worst', 'ucb', 'gvucb') or (name in ('ucb', 'gvucb') and m['type'] == 'plin'):
            return
        chosen = [sel[0]]

    def metric(idxs, chosen):
        if name == 'best':
            return mu[idxs]
        if name == 'worst':
            return -mu[idxs]
        if name == 'ucb':
            return mu[idxs] + spec['alpha'] * np.sqrt(var[idxs])
        P = sorted(set(q['prev']) | set(chosen))
        out = []
        for i in idxs:
            S = P + [i]
            det = np.linalg.det(cov[np.ix_(S, S)])
            if not det > 1e-10:
                raise Reject('degenerate determinant')
            out.append(mu[i] + spec['alpha'] * det ** (1.0 / len(S)))
        return np.array(out)

    ctx.probe('metric')
    if ns is None:
        for s in sel[len(chosen):]:
            el = sorted((pref & eligible) - set(chosen)) or sorted(eligible - set(chosen))
            v = metric(el, chosen)
            mine = metric([s], chosen)[0]
            ctx.check(mine >= v.max() - tol, '%s chose candidate %d (metric %.6g) although %d has %.6g (selection %s, eligible %s)'
                      % (name, s, mine, el[int(np.argmax(v))], v.max(), sel, el), 'metric')
            chosen.append(s)
    elif name != 'gvucb':
        rest = sel[len(chosen):]
        if not rest:
            return
        allv = metric(list(range(q['n'])), [])
        avail = (pref & eligible) - set(chosen)
        p_sel = [s for s in rest if s in avail]
        o_sel = [s for s in rest if s not in avail]
        if avail - set(p_sel):
            hi = max(allv[list(avail - set(p_sel))])
            ctx.check(not p_sel or min(allv[p_sel]) >= hi - tol, '%s chose %s although a preferred candidate has a larger metric' % (name, sel), 'metric')
        if o_sel:
            other = eligible - set(sel)
            if other:
                ctx.check(min(allv[o_sel]) >= max(allv[list(other)]) - tol, '%s chose %s although another candidate has a larger metric' % (name, sel), 'metric')
        low = min(allv[rest])
        for s in ns:
            ctx.check(allv[s] >= low - tol, '%s reported %d as not selected, but its metric %.6g is below that of every selected one (%.6g)' % (name, s, allv[s], low), 'ns-rank')
        # nothing ranked ahead of a selected preferred point goes unreported
        if p_sel and not best_first:
            pm = min(allv[p_sel])
            miss = [s for s in eligible - set(sel) - pref if allv[s] > pm + tol and s not in ns]
            ctx.check(not miss, '%s did not report %s, ranked ahead of a selected preferred point (selection %s, reported %s)' % (name, miss, sel, ns), 'ns-complete')


def uniform(case, ctx):
    import lop
    from lop import active_learning as A
    n, k = case['n'], case['k']
    rs = np.random.RandomState(5)
    model = L.build_model(dict(type='gp', kern=dict(k='rbf', s=1.0, l=0.5, n=0.05), mean=0))
    l = A.RandomLearner()
    model.active_learner = l
    l.set_model(model)
    model.add(rs.rand(2, 2), np.array([0.5, 1.0]))
    cand = rs.rand(n, 2)
    q = dict(n=n, k=k, prev=case['prev'], pref=case['pref'], ns=False)
    pref = preferred(dict(l='random'), q, cand)
    el = set(range(n)) - set(case['prev'])
    if len(el) < k:
        raise Reject('too few')
    cnt = np.zeros(n)
    for _ in range(case['reps']):
        sel, _ns = learn.select(model, cand, q, l)
        valid(ctx, dict(l='random'), q, pref, el, sel, None, k)
        order(ctx, dict(l='random'), q, pref, el, sel)
        cnt[sel] += 1
    ctx.log('counts', cnt)
    av = pref & el
    N = case['reps']
    for grp, m in ((av, min(k, len(av))), (el - av, max(0, k - len(av)))):
        if not grp:
            continue
        p = m / len(grp)
        s = np.sqrt(N * p * (1 - p)) + 1e-9
        for i in grp:
            ctx.check(abs(cnt[i] - N * p) <= 6.5 * s + 1e-6, 'the random learner chose candidate %d in %d of %d selections, expected %.0f' % (i, cnt[i], N, N * p), 'uniform')
    ctx.probe('uniform')
    ctx.nontrivial = True


def warmup():
    learn.warm()


def simplify(case):
    if case['mode'] != 'sel':
        return
    for j, op in enumerate(case['ops']):
        if op[0] == 'add':
            for s in L.shrink_delivery(op[1]):
                c = copy.deepcopy(case)
                c['ops'][j][1] = s
                yield c
        else:
            for s in learn.simpler(op[2]):
                c = copy.deepcopy(case)
                c['ops'][j][2] = s
                yield c
