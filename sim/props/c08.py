"""C08: a learner carries no stale samples from one query to the next."""
import copy
import numpy as np
from sim import lopsys as L, seams, learn
from sim.core import Violation, Reject
from sim.props import c06, c07

ID = 'C08'
RUNS = {'quick': 3000, 'thorough': 60000}
RULE = ('one run = a learner with a history (selections over changing candidate sets and models, some failing part-way by injected errors, '
        'additions, models exchanged), then one selection by it and by a fresh learner with the same query counters, on the same model '
        'from the same random state; the choices must be equal; non-trivial: at least one earlier selection')
MEASURE = 'distinct (learner, model, sequence of outcomes, way of the final comparison) combinations'
ASSUMPTIONS = ['a fresh learner gets the same counters by as many selections as the learner under test completed since its model was attached, or both have their model attached just before']
REQUIRED_PROBES = ['compared', 'after_failure', 'reattached', 'counted', 'direct', 'other_model', 'line', 'la']
COUNTED = {'setfixed': 99, 'alternating': 99, 'strategy': 99, 'peak': 99, 'peak2': 99, 'peak3': 99, 'revpeak': 99, 'align': 99,
           'decision': 5, 'decision2': 5}
SAMPLED = ('acq', 'absacq')


def generate(rng, i):
    t = rng.choice(['pgp'] * 8 + ['plin'] * 2 + ['gp'])
    d = rng.choice([1, 1, 2, 3]) if t != 'gp' else rng.choice([1, 2])
    kinds = dict(pgp=c06.PGP + ('align', 'ratechoose', 'mixedcomp', 'equal', 'decision', 'decision', 'decision2', 'decision2', 'acq', 'absacq'), plin=c06.PLIN, gp=c06.GP)[t]
    spec = learn.gen_learner(rng, kinds)
    if spec['l'] == 'align':
        spec['n'] = rng.choice([0, 1, 2, 3])
    m = L.gen_model(rng, (t,), ('rbf', 'rbf', 'sum') if t == 'pgp' else ('rbf',), pareto=d > 1 and rng.random() < 0.1)
    first = {'gp': ('gp',), 'plin': ('pref',), 'pgp': ('pref',)}[t]
    models = []
    for _ in range(2):
        used, o = [], []
        o.append(L.gen_delivery(rng, d, used, first, nmax=5, mindist=0.05))
        if t == 'pgp' and (spec['l'] == 'align' or rng.random() < 0.4):
            op = L.gen_delivery(rng, d, used, ('abs',) if spec['l'] == 'align' else ('abs', 'ord'), nmax=3, mindist=0.05)
            if op[0] == 'abs':
                op[2] = [round(rng.uniform(0.2, 0.8), 3) for _ in op[1]]
            o.append(op)
        models.append(o)
    heavy = learn.uses(spec, 'absacq', 'bayes', 'mutual') or spec['l'] == 'align'
    ops = []
    long = spec['l'] in ('decision', 'decision2') and rng.random() < 0.7
    for _ in range(rng.randint(5, 6) if long else rng.randint(1, 3 if heavy else 5)):
        n = rng.randint(2, 7)
        fail = rng.choice(['none', 'none', 'none', 'none', 'la', 'line'] if long else ['none', 'none', 'none', 'la', 'line', 'interrupt', 'few'])
        f = dict(kind=fail, at=round(rng.random(), 5), start=0, exc=rng.choice(['LinAlgError', 'MemoryError', 'KeyboardInterrupt', 'FloatingPointError']))
        q = learn.gen_query(rng, spec, n)
        if fail == 'few':
            q['prev'] = sorted(rng.sample(range(n), n - 1))
            q['k'] = max(2, q['k'])
        ops.append(['sel', L.gen_points(rng, n, d), q, f])
        r = rng.random()
        if r < 0.2:
            used = []
            ops.append(['add', L.gen_delivery(rng, d, used, first, nmax=3, mindist=0.05)])
        elif r < 0.35 and not long:
            ops.append(['model', rng.randint(0, 1)])
    n = rng.randint(2, 7)
    if rng.random() < 0.5 and ops:
        # as many candidates as in an earlier selection: what is left over fits
        s = [o for o in ops if o[0] == 'sel'][-1]
        n = len(s[1])
    q = learn.gen_query(rng, spec, n)
    q['prev'] = q['prev'] if len(q['prev']) + q['k'] <= n else []
    q['k'] = min(q['k'], n)
    return dict(d=d, model=m, spec=spec, models=models, ops=ops, final=[L.gen_points(rng, n, d), q],
                mode=rng.choice(['count', 'count', 'attach', 'direct']), order=rng.randint(0, 1))


def answer(ctx, learner, pts, q, d):
    cand = L.shape_points(pts, d)
    with seams.pool(seams.Pool()):
        try:
            s = learn.call(learner, cand, q)
        except Exception as e:
            return ('raised', type(e).__name__, str(e)[:80])
    return learn.unpack(s, q['ns'])


def execute(case, ctx):
    d, spec = case['d'], case['spec']
    models = []
    for o in case['models']:
        m = L.build_model(case['model'])
        for op in o:
            L.deliver(m, op, d)
        models.append(m)
    mine = {}

    def keep(s):
        # the sub-learners of the learner under test, to be used on their own later
        if s is spec:
            return None
        l = learn.build_learner(s)
        mine[id(s)] = (s, l)
        return l

    A = learn.build_learner(spec, keep)

    def attach(learner, k):
        models[k].active_learner = learner
        learner.set_model(models[k])

    cur, done, failed, trail, vague, ever = 0, 0, 0, [], False, False
    attach(A, 0)
    for op in case['ops']:
        if op[0] == 'add':
            if op[1][1]:
                L.deliver(models[cur], op[1], d)
        elif op[0] == 'model':
            cur = op[1]
            attach(A, cur)
            done, vague = 0, False
            ctx.probe('other_model')
        else:
            out, where = c07.attempt(ctx, models[cur], A, spec, op[1], op[2], op[3], d)
            trail.append(out)
            ctx.nontrivial = True
            if out == 'completed':
                done += 1
            else:
                failed += 1
                # interrupted at a source line: perhaps after the selection was complete but for its return
                vague = vague or op[3]['kind'] in ('line', 'interrupt')
                ever = ever or vague
    mode = case['mode']
    who, whose = A, spec
    if mode == 'direct':
        # a learner that served as a part of another one, now used on its own
        ls = [v for v in mine.values() if v[0]['l'] in SAMPLED]
        if not ls or ever:
            # (an interrupt may also have come between the end of the query and the release of its samples)
            mode = 'count'
        else:
            whose, who = ls[case['order'] % len(ls)]
            ctx.probe('direct')
    count = done if mode == 'count' and spec['l'] in COUNTED else 0
    if mode == 'count' and (count > COUNTED.get(spec['l'], 99) or spec['l'] in COUNTED and vague):
        mode, count = 'attach', 0
    model = models[cur]
    pts, q = case['final']
    q = dict(q)
    if whose['l'] == 'absacq' and whose is not spec:
        q['k'] = 1
    try:
        model.predict(L.shape_points(pts, d))
    except np.linalg.LinAlgError:
        raise Reject('ill-conditioned')
    state = seams.rng_state()
    B = learn.build_learner(whose)
    B.set_model(model)
    n = 0
    for _ in range(count + 3):
        if n == count:
            break
        if answer(ctx, B, pts, dict(q, ns=False), d)[0] != 'raised':
            n += 1
    if n < count:
        raise Reject('the same number of selections could not be made')
    if count:
        ctx.probe('counted')
    if mode == 'attach':
        A.set_model(model)
        ctx.probe('reattached')
    # whatever the selections before did, both start from the same random state and fit
    got = {}
    for name, l in ((('old', who), ('fresh', B)) if case['order'] else (('fresh', B), ('old', who))):
        seams.set_rng_state(state)
        got[name] = answer(ctx, l, pts, q, d)
    ctx.probe('compared')
    if failed:
        ctx.probe('after_failure')
    ctx.state(spec['l'], whose['l'], case['model']['type'], trail, mode, count)
    ctx.log(spec['l'], whose['l'], mode, count, trail, got['old'], got['fresh'])
    if got['old'][0] == 'raised' and got['fresh'][0] == 'raised':
        raise Reject('the final selection is not possible')
    ctx.check(got['old'] == got['fresh'], '%s%s after the history %s chooses %s, a fresh one with the same counters %s, from the same random state'
              % (whose['l'], '' if whose is spec else ' (part of %s)' % spec['l'], trail, got['old'], got['fresh']), 'stale')


def warmup():
    learn.warm()


def simplify(case):
    for j, op in enumerate(case['ops']):
        if op[0] == 'add':
            for s in L.shrink_delivery(op[1]):
                c = copy.deepcopy(case)
                c['ops'][j][1] = s
                yield c
        elif op[0] == 'sel':
            if op[3]['kind'] != 'none':
                c = copy.deepcopy(case)
                c['ops'][j][3]['kind'] = 'none'
                yield c
            for s in learn.simpler(op[2]):
                c = copy.deepcopy(case)
                c['ops'][j][2] = s
                yield c
    for k in (0, 1):
        for j, op in enumerate(case['models'][k]):
            for s in L.shrink_delivery(op):
                c = copy.deepcopy(case)
                c['models'][k][j] = s
                yield c
    for s in learn.simpler(case['final'][1]):
        c = copy.deepcopy(case)
        c['final'][1] = s
        yield c
