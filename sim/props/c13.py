"""C13: the Metropolis-Hastings sampler obeys its acceptance rule."""
import contextlib, math, random
import numpy as np
from sim import lopsys as L, seams, learn
from sim.core import Violation, Reject

ID = 'C13'
RUNS = {'quick': 1500, 'thorough': 100000}
RULE = ('one run = one to three chains (nested chains included) over a seeded density (peaked, bounded support, undefined regions, plateaus, a trained '
        'linear model), with seeded or adversarial uniform draws and callbacks that fail at a seeded call; every step is judged against the acceptance '
        'rule from the recorded proposals; non-trivial: at least one proposal less likely than the current state or one failing callback')
MEASURE = 'distinct (density, proposal, dimension, draws, failure, outcome of the first eight steps) combinations'
ASSUMPTIONS = ['densities are functions of the state alone; custom proposals do not modify the state they are given',
               'acceptance frequencies are judged by a martingale tail bound of 1e-12 per test']
REQUIRED_PROBES = ['zero', 'nan', 'uphill', 'downhill', 'default-proposal', 'custom-proposal', 'raises', 'nested', 'extreme-draws', 'plin', 'start-zero']
DENS = ['gauss', 'gauss', 'box', 'nan', 'flat', 'steps', 'steep', 'inf', 'plin', 'bimodal']


def gen_chain(rng, depth=0):
    d = rng.choice([1, 1, 2, 3])
    c = dict(dens=rng.choice(DENS), d=d, c=[round(rng.uniform(-1.5, 1.5), 3) for _ in range(d)], w=rng.choice([0.3, 1.0, 3.0]),
             n=rng.choice([0, 1, 2, 7, 40, 300, 800]), burn=rng.choice([0, 0, 1, 5, 60, 500]), dim_given=True,
             prop=rng.choice(['default', 'default', 'walk', 'grid', 'jump', 'stay']), sd=rng.choice([0.1, 1.0, 4.0]), noisy=rng.random() < 0.2)
    if rng.random() < 0.1:
        c['burn'] = None
    if depth == 0 and rng.random() < 0.012:
        # long enough to see small asymmetries of the default proposal
        c.update(dens='flat', d=3, c=[0.0, 0.0, 0.0], n=12000, burn=0, prop='default', noisy=False)
        return c
    if c['dens'] == 'plin':
        c['pts'] = [[round(rng.uniform(0, 1), 2) for _ in range(d)] for _ in range(4)]
        c['prefs'] = [[rng.choice([-1, 1]), 0, 1], [rng.choice([-1, 1]), 2, 3]]
    if rng.random() < 0.2:
        c['fail'] = dict(where=rng.choice(['dens', 'prop']), at=rng.choice([0, 1, 2, 3, 10, 50, 400]), exc=rng.choice(['ValueError', 'KeyboardInterrupt', 'FloatingPointError', 'StopIteration', 'LinAlgError', 'MemoryError']))
    if depth == 0 and rng.random() < 0.12:
        c['inner'] = gen_chain(rng, 1)
        c['inner'].update(n=rng.choice([1, 3]), burn=2)
        c['inner_at'] = rng.choice([0, 1, 5, 30])
    return c


def generate(rng, i):
    return dict(items=[gen_chain(rng) for _ in range(rng.choice([1, 1, 2, 3]))],
                draws=rng.choice(['real', 'real', 'real', 'zero', 'one', 'mix']), ds=rng.getrandbits(30))


class Density:
    def __init__(self, c):
        self.c = c
        self.x0 = np.array(c['c'])
        self.model = None
        if c['dens'] == 'plin':
            from lop.models import PreferenceLinear
            self.model = PreferenceLinear()
            self.model.add(np.array(c['pts']), [tuple(p) for p in c['prefs']])

    def __call__(self, x):
        """log density, the plain rule the checker uses"""
        c = self.c
        z = (np.asarray(x, dtype=float) - self.x0) / c['w']
        k = c['dens']
        r = float(np.sum(z * z))
        if k == 'gauss':
            return -0.5 * r
        if k == 'bimodal':
            return float(np.logaddexp(-0.5 * r, -0.5 * float(np.sum((z - 3) ** 2))))
        if k == 'box':
            return -math.inf if np.max(np.abs(z)) > 1 else -0.1 * r
        if k == 'nan':
            return math.nan if z[0] > 0.5 else (-math.inf if z[0] < -2 else -0.5 * r)
        if k == 'flat':
            return 3.25
        if k == 'steps':
            return -0.7 * float(np.floor(2 * abs(z[0])))
        if k == 'steep':
            return -400.0 * r
        if k == 'inf':
            return -1000.0 * float(abs(z[0])) if z[0] < 0 else (-math.inf if int(np.floor(4 * z[0])) % 2 else -0.2 * r)
        if k == 'plin':
            return float(self.model.loss_func(np.asarray(x, dtype=float)))


EXC = dict(ValueError=ValueError, KeyboardInterrupt=KeyboardInterrupt, FloatingPointError=FloatingPointError, StopIteration=StopIteration,
           LinAlgError=np.linalg.LinAlgError, MemoryError=MemoryError)


class Chain:
    """One call of the sampler with recording callbacks."""

    def __init__(self, c, ctx):
        self.c, self.ctx = c, ctx
        self.f = Density(c)
        self.asked, self.props = [], []        # density arguments; (current, proposal)
        self.raised = None
        self.inner = None
        self.r = random.Random(str(c['c']))

    def fail(self, where, k):
        f = self.c.get('fail')
        if f and f['where'] == where and f['at'] == k:
            self.raised = EXC[f['exc']]('from the callback')
            self.ctx.fault(f['exc'] + '@' + where)
            raise self.raised

    def density(self, x):
        k = len(self.asked)
        self.asked.append(np.array(x, copy=True))
        self.fail('dens', k)
        if self.c['noisy']:
            np.random.random(2)
        if self.c.get('inner') and self.inner is None and k == self.c['inner_at']:
            self.inner = Chain(self.c['inner'], self.ctx)
            self.ctx.probe('nested')
            self.inner.run()
            if self.inner.raised is not None:
                raise self.inner.raised
        return self.f(x)

    def proposal(self, x):
        k = len(self.props)
        cur = np.array(x, copy=True)
        self.props.append([cur, None])
        self.fail('prop', k)
        c = self.c
        if c['prop'] == 'walk':
            p = cur + np.random.normal(size=c['d']) * c['sd']
        elif c['prop'] == 'grid':
            p = np.round(cur + np.random.choice([-c['sd'], c['sd']], c['d']), 6)
        elif c['prop'] == 'jump':
            p = np.random.uniform(-4, 4, c['d'])
        else:
            p = cur.copy() if np.random.random() < 0.5 else cur + 0.01 * c['sd'] * (self.r.random() - 0.5)
        self.props[-1][1] = np.array(p, copy=True)
        return p

    def run(self):
        from lop.utilities import metropolis_hastings
        c = self.c
        kw = {}
        if c['burn'] is not None:
            kw['num_to_burn'] = c['burn']
        if c['prop'] != 'default':
            kw['prop_distribution'] = self.proposal
        if c['d'] > 1 or c['noisy']:
            kw['dim'] = c['d']
        self.error = self.out = None
        try:
            self.out = metropolis_hastings(self.density, c['n'], **kw)
        except BaseException as e:
            if self.raised is None and not (self.inner is not None and self.inner.raised is not None):
                raise
            self.error = e


@contextlib.contextmanager
def scripted(kind, seed):
    """Uniform draws from the ends of [0,1)."""
    if kind == 'real':
        yield
        return
    r = random.Random(seed)
    def one():
        return {'zero': 0.0, 'one': 1 - 2.0 ** -53}.get(kind) if kind != 'mix' else r.choice([0.0, 1 - 2.0 ** -53, r.random()])
    def flat(size=None):
        if size is None or size == ():
            return one()
        n = int(np.prod(size))
        return np.array([one() for _ in range(n)]).reshape(size)
    repl = dict(random=flat, random_sample=flat, ranf=flat, sample=flat, rand=lambda *s: flat(s if s else None),
                uniform=lambda low=0.0, high=1.0, size=None: low + (high - low) * flat(size))
    saved = {n: getattr(np.random, n) for n in repl}
    for n, f in repl.items():
        setattr(np.random, n, f)
    try:
        yield
    finally:
        for n, f in saved.items():
            setattr(np.random, n, f)


def tail(acc, prob):
    """Bound on the probability of the accepted numbers being this far from
    their expectation (Freedman's inequality)."""
    a, p = np.asarray(acc, dtype=float), np.asarray(prob, dtype=float)
    t = abs(float(np.sum(a - p)))
    v = float(np.sum(p * (1 - p)))
    return 2 * math.exp(-t * t / (2 * v + 2 * t / 3 + 1e-300))


def judge(ch, ctx, real):
    c = ch.c
    name = '%s density, %s proposal, %d states after %s' % (c['dens'], c['prop'], c['n'], c['burn'])
    if ch.raised is not None:
        ctx.probe('raises')
        ctx.check(ch.error is ch.raised, '%s: a %s raised by the %s was %s' % (name, type(ch.raised).__name__, c['fail']['where'],
                  'swallowed' if ch.error is None else 'replaced by %r' % ch.error), 'callback-error')
        return 'raised'
    if ch.inner is not None and ch.inner.raised is not None:
        ctx.check(ch.error is ch.inner.raised, '%s: an error raised in the density was swallowed' % name, 'callback-error')
        return 'raised'
    burn = 500 if c['burn'] is None else c['burn']
    steps = c['n'] + burn
    out = np.asarray(ch.out)
    ctx.check(len(out) == c['n'] and (c['n'] == 0 or out.shape == (c['n'], c['d'])), '%s in %d dimensions: result of shape %s' % (name, c['d'], out.shape), 'number-of-states')
    ctx.check(c['n'] == 0 or np.all(np.isfinite(out)), '%s: undefined states returned' % name, 'number-of-states')
    f = ch.f
    if c['prop'] == 'default':
        ctx.probe('default-proposal')
        # densities are asked at the start and at every proposal
        return judge_default(ch, ctx, name, out, burn, real)
    ctx.probe('custom-proposal')
    ctx.check(len(ch.props) == steps, '%s: %d proposals asked for in %d steps' % (name, len(ch.props), steps), 'number-of-steps')
    cur = [p[0] for p in ch.props]
    # the state after step i is what step i + 1 starts from, and what is returned
    nxt = cur[1:] + ([out[-1]] if c['n'] else [])
    for i in range(c['n']):
        s = nxt[burn + i]
        ctx.check(np.array_equal(out[i], s), '%s: state %d returned is %s, the chain was at %s' % (name, i, out[i], s), 'wrong-state')
    return rule(ctx, name, c, f, cur, [p[1] for p in ch.props], nxt, burn, real)


def judge_default(ch, ctx, name, out, burn, real):
    c, f = ch.c, ch.f
    uniq = ch.asked
    ctx.check(len(uniq) >= 1, '%s: the density was never asked' % name, 'number-of-steps')
    steps = c['n'] + burn
    if len(uniq) != steps + 1:
        # evaluated more often than once per proposal: only the membership of the states can be judged
        S = {a.tobytes() for a in uniq}
        for i in range(c['n']):
            ctx.check(out[i].tobytes() in S, '%s: state %d was never proposed' % (name, i), 'wrong-state')
        return 'loose'
    # replay: the state after step i, known once kept
    cur, prev = [], uniq[0]
    props = uniq[1:]
    if burn == 0:
        nxt = [out[i] for i in range(c['n'])]
        cur = [uniq[0]] + nxt[:-1] if nxt else []
        inc = np.array([p - q for p, q in zip(props, cur)]).reshape(len(cur), c['d'])
        if len(inc) >= 200:
            s = np.abs(inc.sum(0)) / np.sqrt((inc ** 2).sum(0) + 1e-300)
            ctx.check(np.all(s < 8), '%s: the default proposal is not centred on the current state (mean step %s)' % (name, inc.mean(0)), 'proposal-bias')
            pos = np.abs((inc > 0).sum(0) - len(inc) / 2) / math.sqrt(len(inc) / 4)
            ctx.check(np.all(pos < 8), '%s: the default proposal is not symmetric' % name, 'proposal-bias')
            z = np.array(cur)
            # towards or away from the origin, over all coordinates (a martingale)
            o = abs(float((inc * np.sign(z)).sum())) / math.sqrt(float((inc ** 2).sum()) + 1e-300)
            ctx.check(o < 8, '%s: the default proposal drifts with respect to the origin' % name, 'proposal-bias')
            z = z - z.mean(0)
            k = np.abs((inc * np.sign(z)).sum(0)) / np.sqrt((inc ** 2).sum(0) + 1e-300)
            ctx.check(np.all(k < 8), '%s: the default proposal is not made from the current state' % name, 'proposal-bias')
        return rule(ctx, name, c, f, cur, props, nxt, burn, real)
    # with burning: the kept part from its first state on
    nxt = [out[i] for i in range(c['n'])]
    if len(nxt) < 1:
        return 'burnt'
    S = {a.tobytes() for a in uniq[:burn + 2]}
    ctx.check(nxt[0].tobytes() in S, '%s: the first state returned was never proposed' % name, 'wrong-state')
    return rule(ctx, name, c, f, nxt[:-1], props[burn + 1:], nxt[1:], 0, real)


def rule(ctx, name, c, f, cur, props, nxt, burn, real):
    acc, rat, idx = [], [], []
    sig = []
    for i in range(len(nxt)):
        a, p, n = cur[i], props[i], nxt[i]
        same, moved = np.array_equal(n, a), np.array_equal(n, p)
        ctx.check(same or moved, '%s: step %d goes from %s to %s, neither staying nor taking the proposal %s' % (name, i, a, n, p), 'wrong-state')
        fa, fp = f(a), f(p)
        if len(sig) < 8:
            sig.append(int(moved and not same))
        if same and moved:
            continue
        if math.isnan(fp) or fp == -math.inf:
            ctx.probe('nan' if math.isnan(fp) else 'zero')
            ctx.check(not moved, '%s: step %d takes a proposal of %s density' % (name, i, 'undefined' if math.isnan(fp) else 'zero'), 'impossible-accepted')
            continue
        if math.isnan(fa):
            continue
        if i == 0 and fa == -math.inf:
            ctx.probe('start-zero')
        if fp >= fa:
            ctx.probe('uphill')
            ctx.check(moved, '%s: step %d rejects a proposal that is at least as likely (log density %.4g, now %.4g)' % (name, i, fp, fa), 'better-rejected')
            continue
        ctx.probe('downhill')
        ctx.nontrivial = True
        acc.append(moved)
        rat.append(math.exp(fp - fa))
        idx.append(i)
        # (a ratio that underflows is never accepted)
        ctx.check(not (moved and rat[-1] == 0.0), '%s: step %d takes a proposal whose density ratio is zero' % (name, i), 'impossible-accepted')
    if real and acc:
        acc, rat, idx = np.array(acc, dtype=float), np.array(rat), np.array(idx)
        sel = [('all steps', np.ones(len(acc), bool)), ('the burn-in', idx < burn), ('kept steps', idx >= burn)]
        sel += [('ratios %.2f to %.2f' % (lo, lo + 0.25), (rat >= lo) & (rat < lo + 0.25)) for lo in (0, 0.25, 0.5, 0.75)]
        for what, m in sel:
            if m.any():
                q = tail(acc[m], rat[m])
                ctx.check(q > 1e-12, '%s: over %s %d of %d less likely proposals were accepted, %.1f expected (probability below %.1g)'
                          % (name, what, acc[m].sum(), m.sum(), rat[m].sum(), q), 'acceptance-frequency')
    return sig


def execute(case, ctx):
    for c in case['items']:
        if c['dens'] == 'plin' and c['d'] > 1:
            ctx.probe('plin')
        ch = Chain(c, ctx)
        with scripted(case['draws'], case['ds']):
            ch.run()
        if case['draws'] != 'real':
            ctx.probe('extreme-draws')
            ctx.fault('extreme-draws')
        real = case['draws'] == 'real'
        todo = [ch] + ([ch.inner] if ch.inner is not None else [])
        for x in todo:
            s = judge(x, ctx, real)
            ctx.state(x.c['dens'], x.c['prop'], x.c['d'], case['draws'], x.c.get('fail'), s)
            ctx.log(x.c['dens'], x.c['prop'], s, np.asarray(x.out) if x.out is not None else None)


def warmup():
    pass
