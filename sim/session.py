"""A whole active-learning session (model, learner, user, data) as a sequence of steps with a transcript."""
import numpy as np
from sim import lopsys as L, learn

FAKES = ('FakeLinear', 'FakeSquared', 'FakeLogistic', 'FakeSinExp')
PGP = ('best', 'ucb', 'ucb', 'random', 'random', 'gvucb', 'acq', 'acq', 'absacq', 'bayes', 'mutual', 'ratechoose', 'mixedcomp', 'setfixed', 'alternating',
       'equal', 'strategy', 'peak', 'peak2', 'peak3', 'revpeak', 'decision', 'decision2')
PLIN = ('best', 'ucb', 'random', 'random', 'acq', 'acq', 'bayes', 'mutual', 'absacq')
GPL = ('best', 'worst', 'ucb', 'random', 'gvucb')

def gen_session(rng, steps=None, light=False, hyper=0.08, types=('pgp', 'pgp', 'pgp', 'pgp', 'plin', 'gp')):
    t = rng.choice(list(types))
    d = rng.choice([1, 2, 2, 3])
    spec = learn.gen_learner(rng, dict(pgp=PGP, plin=PLIN, gp=GPL)[t])
    if light:
        while learn.uses(spec, 'absacq', 'bayes', 'mutual', 'acq') or spec['l'] in ('ratechoose', 'mixedcomp', 'equal', 'decision', 'decision2'):
            spec = learn.gen_learner(rng, dict(pgp=PGP, plin=PLIN, gp=GPL)[t])
    if d == 1:
        for s in learn.subs(spec):
            s['par'] = False
    m = L.gen_model(rng, (t,), ('rbf', 'rbf', 'sum') if t == 'pgp' else ('rbf',), pareto=d > 1 and rng.random() < 0.2)
    user = dict(kind=rng.choice(['perfect', 'human', 'human', 'human2']), fake=rng.choice(FAKES), beta=rng.choice([1.0, 3.0, 10.0]), sigma=rng.choice([0.3, 1.0]))
    used, ops = [], []
    first = {'gp': 'gp', 'plin': 'pref', 'pgp': 'pref'}[t]
    if rng.random() < 0.8:
        ops.append(['add', L.gen_delivery(rng, d, used, (first,), nmax=4, mindist=0.05)])
    hyp = t == 'pgp' and rng.random() < hyper
    for _ in range(steps or rng.randint(2, 5)):
        r = rng.random()
        if r < 0.6:
            n = rng.randint(3, 8)
            q = learn.gen_query(rng, spec, n)
            q['prev'], q['ns'], q['k'] = [], False, min(q['k'], 3)
            if d == 1 and q['pref'] == 'pareto':
                q['pref'] = None
            ops.append(['query', L.gen_points(rng, n, d), q])
        elif r < 0.7:
            ops.append(['add', L.gen_delivery(rng, d, used, (first,) if t != 'pgp' or hyp else ('pref', 'abs', 'ord'), nmax=3, mindist=0.05)])
        elif r < 0.8:
            ops.append(['predict', L.gen_points(rng, 4, d)])
        elif r < 0.86:
            ops.append(['sets', rng.randint(4, 9), rng.randint(2, 6), rng.choice([2, 3])])
        elif r < 0.9:
            ops.append(['mcmc', rng.randint(2, 6), rng.choice([1, 2])])
        elif r < 0.94:
            ops.append(['fold', rng.choice([2, 3])])
        elif r < 0.97:
            ops.append(['answers', L.gen_points(rng, 5, d), rng.randint(2, 8)])
        elif d > 1:
            ops.append(['calibrate', rng.randint(6, 10), rng.choice([0.7, 0.8])])
    if hyp:
        ops.append(['hyper'])
    ops.append(['predict', L.gen_points(rng, 4, d)])
    return dict(d=d, model=m, spec=spec, user=user, ops=ops)


def build_user(u, d):
    import lop
    from lop import utilities as U
    f = getattr(U, u['fake'])(d)
    if u['kind'] == 'perfect':
        return U.PerfectUser(f)
    c = dict(human=U.HumanChoiceUser, human2=U.HumanChoiceUser2)[u['kind']]
    return c(f, beta=u['beta'], sigma=u['sigma'])


def asked(X):
    # (functions of one variable take plain arrays)
    return X.ravel() if X.shape[1] == 1 else X


class Session:
    """Iterating performs one step at a time; the random state is the caller's business."""

    def __init__(self, s, yields=None):
        self.s = s
        self.out = []

    def log(self, *v):
        self.out.append(v)

    def build(self):
        s = self.s
        self.model = L.build_model(s['model'])
        self.learner = learn.build_learner(s['spec'])
        self.model.active_learner = self.learner
        self.learner.set_model(self.model)
        self.user = build_user(s['user'], s['d'])
        self.log('user', self.user.fake_f(np.full((1, s['d']), 0.3)))
        return self

    def steps(self):
        for op in self.s['ops']:
            try:
                getattr(self, 'do_' + op[0])(*op[1:])
            except Exception as e:
                self.log('raised', op[0], type(e).__name__)
            yield op[0]

    def run(self):
        self.build()
        for _ in self.steps():
            pass
        return self.out

    def do_add(self, op):
        if op[1]:
            L.deliver(self.model, op, self.s['d'])
            self.log('added', len(op[1]))

    def do_query(self, pts, q):
        d = self.s['d']
        cand = L.shape_points(pts, d)
        sel = learn.call(self.model, cand, dict(q, pair=True))
        sel = [int(j) for j in sel]
        self.log('query', sel)
        if self.s['model']['type'] == 'gp':
            y = np.array([float(np.squeeze(self.user.fake_f(cand[j:j + 1]))) for j in sel])
            self.model.add(cand[sel], y)
        elif len(sel) == 1:
            y = np.atleast_1d(np.squeeze(self.user.rate(asked(cand[sel]))))
            self.log('rating', y)
            self.model.add(cand[sel], np.clip(y, 0.01, 0.99), type='abs') if self.s['model']['type'] == 'pgp' else None
        else:
            p = self.user.choose_pairs(asked(cand[sel]))
            self.log('choice', [[int(v) for v in r] for r in p])
            self.model.add(cand[sel], p, type='relative_discrete')

    def do_predict(self, pts):
        X = L.shape_points(pts, self.s['d'])
        p = L.predict(self.model, X)
        self.log('predict', p[0], p[1] if p[1] is not None else 0, [int(v) for v in np.atleast_1d(self.model.select_best(X))] if hasattr(self.model, 'select_best') else 0)

    def do_sets(self, N, num, k):
        from lop import utilities as U
        self.log('sets', np.array(U.sample_unique_sets(N, num, k)), np.array(U.sample_nonunique_sets(N, num, k)))

    def do_mcmc(self, n, dim):
        from lop import utilities as U
        self.log('mcmc', U.metropolis_hastings(lambda w: -float(np.sum(np.square(w))), n, dim=dim, num_to_burn=20))

    def do_fold(self, k):
        from lop import utilities as U
        m = self.model
        if m.X_train is None or self.s['model']['type'] == 'gp' or len(m.X_train) < 2 * k:
            return
        r = U.k_fold_x_y(m.X_train, m.y_train, k)
        self.log('fold', str(r))

    def do_answers(self, pts, n):
        X = L.shape_points(pts, self.s['d'])
        self.log('answers', [int(self.user.choose(asked(X))) for _ in range(n)], [np.array(self.user.rate(asked(X))) for _ in range(n)])

    def do_calibrate(self, n, p):
        u = self.user
        X = np.random.random((n, self.s['d']))
        if self.s['user']['kind'] == 'human':
            u.learn_beta(X, p)
        elif self.s['user']['kind'] == 'human2':
            u.learn_beta([[X, X[::-1]], [X * 0.5, X]], p)
        else:
            return
        self.log('calibrated', u.beta, u.sigma)

    def do_hyper(self):
        m = self.model
        if m.X_train is None:
            return
        m.use_hyper_optimization = True
        m.optimized = False
        try:
            m.optimize(optimize_hyperparameter=True)
        finally:
            m.use_hyper_optimization = False
        self.log('hyper', L.hyper_of(m))


def shrink(s):
    """Smaller sessions (for the minimiser)."""
    for j in range(len(s['ops'])):
        yield dict(s, ops=s['ops'][:j] + s['ops'][j + 1:])
    for k in ('perfect',):
        if s['user']['kind'] != k:
            yield dict(s, user=dict(s['user'], kind=k))
