"""C09: mixed query types follow their protocol."""
import copy
import numpy as np
import scipy.stats as st
from sim import lopsys as L, seams, learn
from sim.core import Violation, Reject
from sim.props import c07

ID = 'C09'
RUNS = {'quick': 6000, 'thorough': 120000}
RULE = ('one run = a mixed learner (or two interleaved) through a history of selections, failing selections and model attachments, the query types compared '
        'step by step with an executable model of its protocol; sub-learners are scripted (metrics, failures) or real (with injected numerical failures); '
        'for random protocols the whole history is repeated up to some hundred times and type frequencies, singly and for consecutive queries, are '
        'compared with the stated probabilities; non-trivial: at least one failed selection or attachment, or repeated')
MEASURE = 'distinct (learner, mode, sequence of outcomes) combinations'
ASSUMPTIONS = ['frequencies are rejected at a tail probability below 1e-10',
               'the alignment decision is judged where the alignments, estimated independently from the same public model interface, differ by more than 0.12']
REQUIRED_PROBES = ['scripted', 'real', 'stat', 'failed', 'attach', 'two', 'tie', 'align', 'aligned_pair', 'aligned_rating', 'shared-coordinate', 'ratio', 'attention']
COUNTS = ('setfixed', 'alternating')
METRIC = ('ratechoose', 'mixedcomp', 'equal')
RANDOM = ('strategy', 'peak', 'peak2', 'peak3', 'revpeak', 'decision', 'decision2')


# ----------------------------------------------------------------- protocol models
def rate_probability(spec, n):
    """Probability that the n-th (from 0) query is a rating query."""
    k, p = spec['l'], spec.get('p', 0)
    if k == 'strategy':
        return p
    if k in ('peak', 'peak2', 'peak3', 'decision'):
        if n < 3:
            return (0.1, 0.5, 0.9)[n]
        if k == 'peak':
            return 0.8 * np.exp((2 - n) * 0.2) + 0.1
        if k == 'peak2':
            return 0.9 * np.exp((2 - n) * 0.2)
        return 0.9 * np.exp((2 - n) * p)
    return (0.9, 0.1)[n] if n < 2 else p


class Protocol:
    """-> probability of a rating query at each step"""

    def __init__(self, spec):
        self.spec = spec
        self.attach()

    def attach(self):
        self.n = 0
        self.att = 0

    def expect(self, a, b, alike=None):
        """a: metric of the comparison, b: of the rating."""
        k, n = self.spec['l'], self.n
        if k == 'setfixed':
            return 1.0 if n < 8 else 0.0
        if k == 'alternating':
            return float(n % 2)
        if k == 'align':
            return float(n % 2) if n < self.spec['n'] else None
        if k in METRIC:
            if k == 'mixedcomp':
                a, b = (1 - self.spec['alpha']) * a, self.spec['alpha'] * b
            if k == 'equal' and alike:
                return 1.0
            return 0.5 if a == b else float(b > a)
        if k in ('decision', 'decision2'):
            if n in (5, 10, 15):
                if max(a / b, b / a) > 2.0:
                    return float(b > a)
                return rate_probability(self.spec, n)
            if self.att:
                return (None, 0.95, 0.05)[self.att]
        return rate_probability(self.spec, n)

    def done(self, a, b):
        if self.spec['l'] in ('decision', 'decision2') and self.n in (5, 10, 15):
            self.att = 0 if max(a / b, b / a) <= 2.0 else (1 if b > a else 2)
        self.n += 1


# ----------------------------------------------------------------- scripted parts
EXC = dict(LinAlgError=np.linalg.LinAlgError, ValueError=ValueError, KeyboardInterrupt=KeyboardInterrupt, MemoryError=MemoryError)


class Ctl:
    def __init__(self):
        self.a = self.b = 1.0
        self.apart = None            # how far apart the sampled outcomes of a pair lie
        self.fail, self.exc = (), ValueError
        self.m = 0

    def enter(self, role):
        if role in self.fail:
            raise self.exc('scripted')


class FakeModel:
    X_train = np.array([[0.1, 0.2], [0.6, 0.4], [0.3, 0.9], [0.8, 0.8]])
    active_learner = None

    def predict(self, X):
        self.cov = np.eye(len(X))
        return np.zeros(len(X)), np.ones(len(X))


def scripted(ctl):
    from lop.active_learning import ActiveLearner

    class Scripted(ActiveLearner):
        M = 10
        alignment_f = 'epic'

        def __init__(self, role):
            super().__init__()
            self.role = role
            self.sel_metric = 0

        def metric(self):
            ctl.enter(self.role)
            self.sel_metric = ctl.a if self.role == 'pair' else ctl.b

        def select(self, candidate_pts, num_alts, prev_selection=[], prefer_pts=None, return_not_selected=False, select_pair_first=True):
            self.metric()
            k = num_alts if self.role == 'pair' else 1
            return np.array([j for j in range(len(candidate_pts)) if j not in prev_selection][:k])

        def select_greedy(self, candidate_pts, mu, data, indicies, prev_selection):
            self.metric()
            return list(indicies)[0]

        def get_representative_Q(self, candidate_pts=None):
            return candidate_pts[:2], np.array([[0, 1]])

        def get_samples_from_model(self, candidate_pts, x_rep, indicies=None):
            r = np.random.RandomState(5)
            q = r.standard_normal((40, len(candidate_pts)))
            if ctl.apart is not None:
                q[:, 1] = q[:, 0] + ctl.apart + 0.01 * q[:, 1]
            return r.standard_normal((40, len(x_rep))), q

        def set_samples(self, all_rep, all_Q):
            pass

        def unset_samples(self):
            pass
    return Scripted


# ------------------------------------------------------------------------- cases
def gen_steps(rng, spec, n, fails=True):
    out = []
    ratio = spec['l'] in ('decision', 'decision2')
    for _ in range(n):
        a = rng.choice([0.4, 1.0, 3.0]) if ratio else rng.choice([-2.0, -0.5, 0.5, 1.0, 1.0, 1.25, 1.5, 3.0])
        b = rng.choice([0.4, 1.0, 3.0]) if ratio else rng.choice([-2.0, -0.5, 0.5, 1.0, 1.0, 1.25, 1.5, 3.0])
        f = None
        if fails and rng.random() < 0.25:
            # both kinds at once: whether the selection fails does not depend on the type drawn
            f = [['pair', 'abs', 'comp'] if spec['l'] in RANDOM else rng.choice([['pair'], ['abs'], ['comp'], ['pair', 'abs', 'comp']]),
                 rng.choice(sorted(EXC))]
        out.append(['sel', a, b, f, rng.random() < 0.3, rng.choice([0.0, 5.0])])
        if fails and rng.random() < 0.04:
            out.append(['attach'])
    return out


def generate(rng, i):
    mode = rng.choice(['scripted'] * 12 + ['stat'] * 2 + ['real'] * 4 + ['align'])
    if mode == 'align':
        d = rng.choice([1, 2])
        used, ops = [], []
        for k in ('pref', 'abs'):
            for _ in range(rng.randint(1, 2)):
                op = L.gen_delivery(rng, d, used, (k,), nmax=4, mindist=0.08)
                if k == 'abs':
                    op[2] = [round(rng.uniform(0.1, 0.9), 3) for _ in op[1]]
                ops.append(op)
        ops.append(L.gen_delivery(rng, d, used, ('pref',), nmax=3, mindist=0.08))
        return dict(mode=mode, d=d, model=L.gen_model(rng, ('pgp',), ('rbf',), pareto=False), items=ops, f=rng.choice(['epic', 'spearman']), n=rng.choice([0, 0, 0, 1, 2]),
                    pts=L.gen_points(rng, rng.randint(2, 4), d, used=used, mindist=0.08))
    specs = []
    for _ in range(2 if rng.random() < 0.3 else 1):
        if mode == 'real':
            s = learn.gen_learner(rng, COUNTS * 2 + METRIC + ('align', 'strategy'))
            if s['l'] == 'align':
                s['n'] = rng.choice([1, 2, 3, 4])
            if s['l'] == 'strategy':
                s['p'] = rng.choice([0.0, 1.0])
        elif mode == 'stat':
            s = learn.gen_learner(rng, RANDOM + ('decision', 'decision2') + METRIC[:2])
        else:
            s = learn.gen_learner(rng, COUNTS * 2 + METRIC + RANDOM + ('align',))
            if s['l'] == 'align':
                s['n'] = rng.choice([2, 3, 4, 5, 8])
        specs.append(s)
    ops = []
    for j, s in enumerate(specs):
        n = {'real': 4, 'stat': 6 if s['l'] in METRIC else 18}.get(mode, 20)
        n = rng.randint(2 if mode != 'scripted' else 4, n)
        if mode == 'real':
            if s['l'] in COUNTS and rng.random() < 0.3:
                n = 11
            st_ = []
            for _ in range(n):
                m = rng.randint(3, 6)
                q = dict(learn.gen_query(rng, s, m), ns=False, pref=None, prev=[], k=2)
                st_.append(['sel', None, q, dict(kind=rng.choice(['none', 'none', 'la', 'few']), at=round(rng.random(), 5), start=0,
                                                 exc=rng.choice(['LinAlgError', 'MemoryError', 'KeyboardInterrupt']))])
                if st_[-1][3]['kind'] == 'few':
                    q['prev'] = list(range(m))
                if rng.random() < 0.1:
                    st_.append(['attach'])
        else:
            st_ = gen_steps(rng, s, n)
        ops += [[j] + x for x in st_]
    if len(specs) == 2:
        # interleave the two histories
        per = [[o for o in ops if o[0] == j] for j in (0, 1)]
        ops = []
        while per[0] or per[1]:
            w = rng.choice([j for j in (0, 1) if per[j]])
            ops.append(per[w].pop(0))
    d = rng.choice([1, 2])
    c = dict(mode=mode, specs=specs, ops=ops, reps=rng.choice([200, 400, 400, 1500]) if mode == 'stat' else 1, n=rng.randint(2, 5), k=2)
    if mode != 'real':
        if rng.random() < 0.2 and all(s['l'] != 'equal' for s in specs):
            c['k'] = 3
            c['n'] = max(3, c['n'])
    else:
        used = []
        c['d'] = d
        c['model'] = L.gen_model(rng, ('pgp',), ('rbf',))
        data = [L.gen_delivery(rng, d, used, ('pref',), nmax=4, mindist=0.05)]
        if any(s['l'] == 'align' for s in specs):
            data.append(['abs', L.gen_points(rng, 2, d, used=used, mindist=0.05), [0.3, 0.6]])
        c['data'] = data
        for o in ops:
            if o[1] == 'sel':
                o[2] = L.gen_points(rng, o[3]['n'], d)
    return c


def kind_of(sel, k, what):
    if len(sel) == 1:
        return 1
    if len(sel) == k:
        return 0
    raise Violation('%s is neither a rating nor a comparison of %d: %s' % (what, k, list(sel)), 'shape')


def execute(case, ctx):
    return {'scripted': run_scripted, 'stat': run_scripted, 'real': run_real, 'align': run_align}[case['mode']](case, ctx)


def run_scripted(case, ctx):
    specs, k = case['specs'], case['k']
    ctx.probe('scripted')
    if len(specs) > 1:
        ctx.probe('two')
    reps = case['reps']
    ctls = [Ctl() for _ in specs]
    learners = []
    for s, c in zip(specs, ctls):
        cls = scripted(c)
        def stub(x, s=s, cls=cls):
            for r in ('pair', 'abs', 'comp'):
                if s.get(r) is x:
                    return cls(r)
            return None
        if s.get('abs') is s.get('comp') and 'comp' in s:
            s = dict(s, comp=dict(s['comp']))
        learners.append(learn.build_learner(s, stub))
    models = [FakeModel() for _ in specs]
    cand = np.random.RandomState(3).random_sample((case['n'], 2))
    shared = cand.copy()
    shared[:, 1] = 0.5
    count = {}
    trail = []
    for rep in range(reps):
        protos = [Protocol(s) for s in specs]
        for l, m in zip(learners, models):
            l.set_model(m)
        last = [None] * len(specs)
        for j, op in enumerate(case['ops']):
            w = op[0]
            if w >= len(specs):
                continue
            p, l, c, s = protos[w], learners[w], ctls[w], specs[w]
            if op[1] == 'attach':
                l.set_model(models[w])
                p.attach()
                last[w] = None
                ctx.nontrivial = True
                if rep == 0:
                    ctx.probe('attach')
                    trail.append('attach')
                continue
            a, b, f, sh, apart = op[2:7]
            if s['l'] == 'align' and p.n >= s['n']:
                continue                        # (the decision itself: mode align)
            if s['l'] in ('decision', 'decision2'):
                a, b = abs(a), abs(b)
            c.a, c.b = a, b
            c.apart = apart if sh else 5.0
            c.fail = tuple(f[0]) if f else ()
            c.exc = EXC[f[1]] if f else None
            e = p.expect(a, b, alike=(sh and apart == 0.0 and s.get('eta', 0) > 0.01) or None)
            if s['l'] == 'equal' and sh and apart == 0.0 and s.get('eta', 0) <= 0.01:
                e = None
            try:
                sel = l.select(shared if sh else cand, k)
            except (Exception, KeyboardInterrupt) as x:
                if not f:
                    raise
                ctx.nontrivial = True
                if rep == 0:
                    ctx.probe('failed')
                    ctx.fault('%s@%s' % (f[1], '+'.join(f[0])))
                    trail.append('failed')
                continue
            t = kind_of(sel, k, '%s query %d' % (s['l'], p.n))
            if rep == 0:
                trail.append(t)
                ctx.log(w, p.n, t)
                if s['l'] in ('decision', 'decision2') and p.n in (5, 10, 15):
                    ctx.probe('ratio')
                elif p.att:
                    ctx.probe('attention')
                if s['l'] == 'equal' and sh:
                    ctx.probe('shared-coordinate')
            if e is not None:
                if e in (0.0, 1.0):
                    ctx.check(t == e, '%s: query %d since the model was attached is a %s (metrics: comparison %s, rating %s), expected a %s'
                              % (s['l'], p.n, ('comparison', 'rating')[t], a, b, ('comparison', 'rating')[int(e)]), 'type')
                else:
                    if s['l'] in METRIC and rep == 0:
                        ctx.probe('tie')
                    key = (w, j, p.n, round(float(e), 9))
                    z = count.setdefault(key, [0, 0])
                    z[0] += 1
                    z[1] += t
                    if last[w] is not None:
                        key2 = (w, j, 'both', round(float(e) * last[w][1], 9))
                        z = count.setdefault(key2, [0, 0])
                        z[0] += 1
                        z[1] += t * last[w][0]
            last[w] = (t, float(e)) if e not in (None, 0.0, 1.0) else None
            p.done(a, b)
    if reps > 1:
        ctx.probe('stat')
        ctx.nontrivial = True
    for key in sorted(count, key=str):
        n, hits = count[key]
        pr = key[3]
        tail = min(st.binom.cdf(hits, n, pr), st.binom.sf(hits - 1, n, pr))
        ctx.log(key[0], key[1], str(key[2]), n, hits)
        ctx.check(tail > 1e-10, '%s: %s at probability %.4f happened %d of %d times'
                  % (specs[key[0]]['l'], 'a rating query (number %s)' % key[2] if key[2] != 'both' else 'two rating queries in a row', pr, hits, n), 'frequency')
    ctx.state([s['l'] for s in specs], case['mode'], trail)


def run_real(case, ctx):
    specs, d = case['specs'], case['d']
    ctx.probe('real')
    models, learners, protos = [], [], []
    for s in specs:
        m = L.build_model(case['model'])
        for op in case['data']:
            L.deliver(m, op, d)
        l = learn.build_learner(s)
        m.active_learner = l
        l.set_model(m)
        models.append(m)
        learners.append(l)
        protos.append(Protocol(s))
    trail = []
    for op in case['ops']:
        w = op[0]
        if w >= len(specs):
            continue
        l, p, s = learners[w], protos[w], specs[w]
        if op[1] == 'attach':
            l.set_model(models[w])
            p.attach()
            ctx.probe('attach')
            trail.append('attach')
            continue
        got = []
        orig = l.select
        # what was selected is read off the real call
        l.select = lambda *a, **k: got.append(orig(*a, **k)) or got[-1]
        try:
            c07_attempt(ctx, models[w], l, s, op[2], op[3], op[4], d, got)
        finally:
            del l.select
        if not got:
            trail.append('failed')
            ctx.nontrivial = True
            continue
        sel = got[-1]
        t = kind_of(sel, 2, '%s query %d' % (s['l'], p.n))
        trail.append(t)
        a = b = 0
        if s['l'] in METRIC:
            parts = (getattr(l, 'pairwise_l', None), getattr(l, 'abs_comp', None) or getattr(l, 'abs_l', None))
            if s['l'] == 'equal' or any(not hasattr(x, 'sel_metric') for x in parts):
                continue
            a, b = (float(x.sel_metric) for x in parts)
            ctx.log('metrics', a, b)
            if abs(a - b) < 1e-9 or not np.isfinite(a + b):
                continue
        e = p.expect(a, b)
        ctx.log(w, p.n, t)
        if e is not None:
            ctx.check(t == e, '%s: query %d since the model was attached (history %s) is a %s%s, expected a %s' % (
                s['l'], p.n, trail[:-1], ('comparison', 'rating')[t], ' with metrics comparison %.4g, rating %.4g' % (a, b) if s['l'] in METRIC else '',
                ('comparison', 'rating')[int(e)]), 'type')
        p.done(1, 1)
    if len(specs) > 1:
        ctx.probe('two')
    ctx.state([s['l'] for s in specs], 'real', trail)


def c07_attempt(ctx, model, learner, spec, pts, q, f, d, got):
    """One selection with the failure that f asks for; what a rehearsal selected does not count."""
    cand = L.shape_points(pts, d)
    go = lambda l: l.select(cand, q['k'], learn.prev_arg(q), None, False, q.get('pair', True))
    win = None
    if f['kind'] == 'la':
        keep = seams.rng_state()
        sel = learner.__dict__.pop('select')
        mm, ll = copy.deepcopy((model, learner))
        learner.select = sel
        t = seams.Window(names=c07.LA)
        with seams.pool(seams.Pool()), seams.window(t):
            try:
                go(ll)
            except Exception:
                pass
        seams.set_rng_state(keep)
        if t.n:
            win = seams.Window(ctx, names=c07.LA, fire={min(t.n - 1, int(f['at'] * t.n)): c07.EXC[f['exc']]})
    del got[:]
    with seams.pool(seams.Pool()):
        try:
            if win is not None:
                with seams.window(win):
                    go(learner)
            else:
                go(learner)
        except (Exception, KeyboardInterrupt) as e:
            if f['kind'] == 'few':
                ctx.fault('too-few')
            ctx.log('refused', type(e).__name__)
            ctx.probe('failed')


def alignment(f, A, B):
    if f == 'spearman':
        A, B = st.rankdata(A, axis=1), st.rankdata(B, axis=1)
    c = np.corrcoef(A, B)[:len(A), len(A):]
    return np.nanmean(c if f == 'spearman' else -np.sqrt(np.maximum(1 - c, 0)) / np.sqrt(2))


def run_align(case, ctx):
    d = case['d']
    ctx.probe('align')
    kinds = [o[0] for o in case['items'] if o[1]]
    if 'pref' not in kinds or 'abs' not in kinds:
        raise Reject('needs both kinds')
    m = L.build_model(case['model'])
    for op in case['items']:
        L.deliver(m, op, d)
    if len(m.X_train) < 4:
        raise Reject('too few points')
    rep = dict(num_pts=60, num_Q=5)
    spec = dict(l='align', n=case['n'], pair=dict(l='acq', M=10, f=case['f'], rep=rep), abs=dict(l='best'))
    l = learn.build_learner(spec)
    m.active_learner = l
    l.set_model(m)
    cand = L.shape_points(case['pts'], d)
    cap = learn.CappedM.CAP
    learn.CappedM.CAP = 400
    try:
        for j in range(case['n'] + 2):
            t = kind_of(m.select(cand, 2), 2, 'query %d' % j)
            if j < case['n']:
                ctx.check(t == j % 2, 'query %d of %d before the decision is a %s' % (j, case['n'], ('comparison', 'rating')[t]), 'type')
                continue
            if j == case['n']:
                S = {}
                for name in ('full', 'pref', 'abs'):
                    x = L.build_model(case['model'])
                    for k, pts, val in case['items']:
                        L.deliver(x, [k, pts, val] if name in ('full', k) else ['pref', pts, []], d)
                    X = L.shape_points([p for o in case['items'] for p in o[1]], d)
                    mu, _ = x.predict(X)
                    S[name] = np.random.multivariate_normal(mu, x.cov, size=400)
                gap = alignment(case['f'], S['pref'], S['full']) - alignment(case['f'], S['abs'], S['full'])
                ctx.log('gap', gap)
                if abs(gap) < 0.12:
                    break
                ctx.probe('aligned_pair' if gap > 0 else 'aligned_rating')
            ctx.log(j, t)
            ctx.nontrivial = True
            ctx.check(t == int(gap < 0), 'query %d after %d alternating ones is a %s, though the %s are better aligned with the whole model by %.3f'
                      % (j, case['n'], ('comparison', 'rating')[t], 'comparisons' if gap > 0 else 'ratings', abs(gap)), 'alignment')
            ctx.state('align', case['n'], case['f'], t)
    except np.linalg.LinAlgError:
        raise Reject('ill-conditioned')
    finally:
        learn.CappedM.CAP = cap


def warmup():
    learn.warm()


def simplify(case):
    if case['mode'] in ('scripted', 'stat') and len(case['specs']) > 1:
        for w in (0, 1):
            c = copy.deepcopy(case)
            c['specs'] = [c['specs'][w]]
            c['ops'] = [[0] + o[1:] for o in c['ops'] if o[0] == w]
            yield c
    for j, o in enumerate(case.get('ops', [])):
        if o[1] == 'sel' and case['mode'] != 'real' and o[4]:
            c = copy.deepcopy(case)
            c['ops'][j][4] = None
            yield c
        if o[1] == 'sel' and case['mode'] == 'real' and o[4]['kind'] != 'none':
            c = copy.deepcopy(case)
            c['ops'][j][4]['kind'] = 'none'
            yield c
