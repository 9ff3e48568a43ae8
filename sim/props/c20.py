"""C20: the results of an experiment describe the session that was run."""
import contextlib, copy, glob, importlib.util, json, math, os, pickle, random, shutil, sys, tempfile, types
import numpy as np
import scipy.spatial, scipy.special, scipy.stats
from sim import boot, lopsys as L, seams, core
from sim.core import Violation, Reject
from sim.ledger import dominance

ID = 'C20'
RUNS = {'quick': 700, 'thorough': 40000}
RULE = ('one run = a whole experiment session (train_and_eval with a seeded environment, learner, query type, model, user and utility) run for one to five '
        'training queries; everything put to the model and to the user is recorded, and each returned row and state file is recomputed from the model as it '
        'was then; some runs are repeated from the same seeds, some meet a failing factorisation, a failing write or an interrupt at a source line and are then run '
        'again; non-trivial: at least two training queries were answered')
MEASURE = 'distinct (selector, query type, model, user, utility, fault) combinations'
ASSUMPTIONS = ['Pareto paths come first in the recorded environments (the convention the experiments rely on)',
               'ratings and choices of the simulated user are what they are (C15)']
REAL = 'experiments/experiment_helper.py, recording of model states, lop models, learners, users and utilities'
STUB = 'plotting; KMedoids (package absent: a stand-in picks some of the points); worker pool of quad_vec; approxcdf (absent offline)'
REQUIRED_PROBES = ['choose1', 'ranking', 'rating', 'switch', 'gp', 'linear', 'perfect', 'human_choice', 'again', 'interrupt', 'disk', 'factor', 'ties', 'prior', 'abs-point', 'hyper', 'uni', 'stable', 'call', 'sizes', 'pareto', 'not-shown', 'parts', 'calibrated', 'medrand', 'downhull']
HELPER = None
PAIR, ABS = 0, 1

# selector -> (class, alignment of its parts or None, slow)
FAST = {
    'UCB': ('UCBLearner', None), 'SGV_UCB': ('GV_UCBLearner', None), 'MUTUAL_INFO': ('MutualInfoLearner', None), 'RANDOM': ('RandomLearner', None),
    'ACQ_RHO': ('AcquisitionSelection', 'rho'), 'ACQ_LL': ('AcquisitionSelection', 'loglikelihood'), 'ACQ_EPIC': ('AcquisitionSelection', 'epic'), 'ACQ_SPEAR': ('AcquisitionSelection', 'spearman'),
}
MIXED = {}
SLOW = {}
for suf, f in (('RHO', 'rho'), ('LL', 'loglikelihood'), ('EPIC', 'epic'), ('SPEAR', 'spearman')):
    MIXED['SW_FIXED_' + suf] = ('MixedComparisionSetFixed', f)
    MIXED['SW_ALT_' + suf] = ('MixedAlternating', f)
    MIXED['SW_MIX_' + suf] = ('MixedStrategy', f)
    MIXED['SW_MIX_PEAK_' + suf] = ('MixedStrategyPeak', f)
    SLOW['SW_ACQ_' + suf] = ('RateChooseLearner', f)
    SLOW['SW_UCB_' + suf] = ('MixedComparision', f)
    SLOW['SW_CHECK_' + suf] = ('MixedComparisionEqualChecking', f)
    if suf in ('EPIC', 'SPEAR'):
        SLOW['SW_DEC_' + suf] = ('AlignmentDecision', f)   # (the others are not implemented)
    SLOW['ABS_ACQ_' + suf] = ('AbsAcquisition', f)
MIXED['SW_MIX_PEAK2_SPEAR'] = ('MixedStrategyPeak2', 'spearman')
MIXED['SW_MIX_PEAK3_SPEAR'] = ('MixedStrategyPeak3', 'spearman')
MIXED['SW_MIX_REV_PEAK_SPEAR'] = ('MixedStrategyRevPeak', 'spearman')
SLOW['SW_MIX_DEC_SPEAR'] = ('MixedDecision', 'spearman')
SLOW['SW_MIX_DEC2_SPEAR'] = ('MixedDecision2', 'spearman')
SLOW['BAYES_INFO_GAIN_PROBIT'] = ('BayesInfoGain', None)
ALL = dict(FAST, **MIXED, **SLOW)
UTILITIES = dict(linear='FakeLinear', squared='FakeSquared', logistic='FakeLogistic', sin_exp='FakeSinExp', min='FakeWeightedMin', max='FakeWeightedMax',
                 squared_min_max='FakeSquaredMinMax', min_log='FakeMinLog')


def generate(rng, i):
    r = rng.random()
    if r < 0.52:
        sel = rng.choice(sorted(FAST))
        types_ = ['choose1'] * 3 + (['rating'] * 4 if sel in ('UCB', 'SGV_UCB', 'RANDOM', 'MUTUAL_INFO') else []) + ['ranking']
        qt = rng.choice(types_)
    elif r < 0.97:
        sel, qt = rng.choice(sorted(MIXED)), 'switch'
    else:
        sel = rng.choice(sorted(SLOW))
        qt = 'rating' if sel.startswith('ABS') else 'choose1' if sel.startswith('BAYES') else 'switch'
    slow = sel in SLOW
    kind = rng.choice(['clean', 'clean', 'clean', 'again', 'interrupt', 'interrupt', 'call', 'call', 'disk', 'factor', 'factor']) if not slow else 'clean'
    d = rng.choice([2, 2, 3, 3, 4, 5])
    nt = rng.choice([1, 2, 3, 3, 4, 5]) if not slow else 2
    hyper = not slow and sel not in ('ACQ_LL',) and rng.random() < 0.04
    c = dict(sel=sel, qt=qt, kind=kind, d=d, nt=nt, ne=rng.choice([1, 2, 3, 4]), envs=rng.choice([1, 1, 2, 3]), spare=rng.choice([0, 0, 1, 3]),
             model='gp' if (slow or hyper or rng.random() < 0.72) else 'linear', user='perfect' if qt == 'ranking' else rng.choice(['human_choice', 'human_choice', 'perfect']),
             util=rng.choice(sorted(UTILITIES)), n=rng.choice([6, 8, 12]) if not slow else 5, grid=rng.choice([0, 0, 0, 4, 8]),
             alts=rng.choice([2, 2, 3, 4]) if not slow else 2, rep=rng.choice(['sampled', 'sampled', 'stable']), kmed=rng.choice(['no', 'false', 'uni', 'uni', 'medrand', 'downhull', 'true']),
             defpar=rng.random() < 0.2, best=rng.random() < 0.2 and qt != 'switch', shuffle=rng.random() < 0.3,
             sp=rng.choice([0.3, 1.0, 2.0]), sa=rng.choice([0.1, 0.4]), v=rng.choice([5.0, 20.0, 80.0]), ucb=rng.choice([None, 0.5, 2.0]), rs=rng.choice([None, 0.7, 1.3]), rl=rng.choice([None, 0.3, 0.9]),
             alpha=rng.choice([0.2, 0.5, 0.8]), af=rng.choice([0.0, 0.4, 1.0]), pp=rng.choice([0.8, 0.95]), pa=rng.choice([0.8, 0.95]),
             prior=rng.random() < 0.12, absp=rng.random() < 0.15, hyper=hyper, ds=rng.getrandbits(30), s=rng.getrandbits(31), env=0, at=rng.random(), exc=rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError', 'ValueError', 'LinAlgError']), own=rng.random() < 0.5, extra=rng.choice([0, 0, 2]))
    if c['hyper']:
        c.update(nt=min(nt, 2), d=2)
    c['file'] = rng.random() < 0.15           # the environments are read from the configured file
    c['pareto'] = rng.random() < 0.15 and not slow and not hyper
    c['norm'] = rng.choice([[True, False], [True, True]]) if c['model'] == 'gp' and qt in ('choose1', 'ranking') and rng.random() < 0.12 else [False, False]
    if c['norm'][0]:
        c['absp'] = False                     # (a single point has no range to normalise)
    if c['pareto']:
        # (the number of Pareto paths is that of the scenario as recorded)
        c['kmed'], c['prior'] = 'no', False
    if c['kmed'] == 'downhull':
        c.update(d=rng.choice([2, 3]), grid=0)
    c['parts'] = [[rng.choice(sorted(ALL)), rng.choice(['sampled', 'stable']), rng.random() < 0.5, rng.random() < 0.5, round(rng.uniform(0.1, 3.0), 2), round(rng.uniform(0.1, 0.9), 2)] for _ in range(2)]
    if c['model'] == 'linear':
        c['prior'] = False
        if sel in ('SGV_UCB',) and d > 3:
            c['d'] = 3
    c['env'] = rng.randrange(c['envs'])
    return c


# ---------------------------------------------------------------- the code under test
def helper():
    global HELPER
    if HELPER is not None:
        return HELPER
    if 'sklearn_extra' not in sys.modules:
        p = types.ModuleType('sklearn_extra')
        p.cluster = types.ModuleType('sklearn_extra.cluster')

        class KMedoids:
            """Some of the points themselves, far from each other (the real one picks others)."""
            def __init__(self, n_clusters=8, *a, **k):
                self.n_clusters = n_clusters

            def fit(self, X, y=None):
                X = np.asarray(X, dtype=float)
                if not len(X) or self.n_clusters < 1:
                    raise ValueError('%d medoids of %d points' % (self.n_clusters, len(X)))
                pick = [0]
                D = np.abs(X - X[0]).sum(1)
                while len(pick) < min(self.n_clusters, len(X)):
                    D[pick] = -1
                    pick.append(int(np.argmax(D)))
                    D = np.minimum(D, np.abs(X - X[pick[-1]]).sum(1))
                self.medoid_indices_ = np.array(pick)
                self.cluster_centers_ = X[pick].copy()
                return self
        p.cluster.KMedoids = KMedoids
        sys.modules['sklearn_extra'], sys.modules['sklearn_extra.cluster'] = p, p.cluster
    exp = os.path.join(boot.REPO, 'experiments')
    sys.path.insert(0, exp)
    try:
        spec = importlib.util.spec_from_file_location('experiment_helper', os.path.join(exp, 'experiment_helper.py'))
        m = importlib.util.module_from_spec(spec)
        sys.modules['experiment_helper'] = m
        spec.loader.exec_module(m)
    finally:
        sys.path.remove(exp)
    import matplotlib.pyplot as plt
    noplot()
    HELPER = m
    return m


def noplot():
    """Pictures are not drawn (they are slow and nothing is claimed about them)."""
    def nothing(*a, **k):
        pass
    for n in ('GP_visualization', 'experiment_helper'):
        m = sys.modules.get(n)
        for f in ('visualize_data', 'visualize_single_run_regret'):
            if m is not None and hasattr(m, f):
                setattr(m, f, nothing)


# ---------------------------------------------------------------- environments
def rewards(rs, n, d, grid):
    import lop
    while True:
        R = rs.random_sample((n, d))
        if grid:
            R = np.round(R * grid) / grid
        # Pareto paths first, found here without the library
        dom = [any(np.all(R[j] >= R[i]) and np.any(R[j] > R[i]) for j in range(n)) for i in range(n)]
        order = [i for i in range(n) if not dom[i]] + [i for i in range(n) if dom[i]]
        P = n - sum(dom)
        if len(np.unique(R, axis=0)) == n:
            return R[order], P


def world(case):
    rs = np.random.RandomState(case['ds'])
    out = {}
    for part, m in (('train', case['nt'] + case['spare']), ('eval', case['ne'] + case['extra'])):
        out[part] = []
        for e in range(case['envs']):
            env = []
            # (the other environments need not be of the same size)
            for _ in range(m if e == case['env'] else 1 + int(rs.randint(m + 2))):
                R, P = rewards(rs, case['n'] + int(rs.randint(4)), case['d'], case['grid'])
                idx = list(range(P))
                if case['shuffle']:
                    rs.shuffle(idx)
                env.append({'rewards': R, 'indicies': {'pareto': [int(v) for v in idx]}})
            out[part].append(env)
    return out


def config(case, root):
    stable = os.path.join(root, 'stable.npy')
    np.save(stable, np.random.RandomState(case['ds'] + 1).random_sample((40, case['d'])))
    c = dict(always_select_best=bool(case['best']), UCB_scalar=1.0, pareto_pairs=bool(case['pareto']), add_abs_point=bool(case['absp']), abs_point_loc=[0.0] * case['d'], abs_point_value=0.5,
             downselect_num=case['n'] - 1, p_correct=0.95, rbf_sigma=1.0, rbf_lengthscale=0.4, sigma_noise=0.001, sigma_pair=1.0, sigma_abs=0.1, v=60.0,
             normalize_gp=case['norm'][0], normalize_postive=case['norm'][1], simple_rewards_file=os.path.join(root, 'rewards.pickle'), stable_comp_file=stable, add_model_prior=bool(case['prior']), prior_pts=6,
             prior_bounds=[[0.0, 1.5]] * case['d'])
    p = os.path.join(root, 'config.yaml')
    with open(p, 'w') as f:
        json.dump(c, f)          # JSON is YAML
    return p, c


# ---------------------------------------------------------------- observation
class Spy:
    """What reaches the model and the user, and the model as it was when the next
    query was chosen. Calls made inside others are not recorded."""

    def __init__(self):
        self.depth = 0
        self.models, self.users, self.events = [], [], []
        self.calls = 0
        self.fail = None            # (number of the call, exception): that call into the library fails
        self.failed = None

    def enter(self, name):
        self.depth += 1
        if self.depth == 1 and name is not None:
            k = self.calls
            self.calls += 1
            if self.fail is not None and k == self.fail[0]:
                self.failed = name
                self.depth -= 1
                raise self.fail[1]('injected')
        return self.depth == 1

    @contextlib.contextmanager
    def installed(self):
        import lop
        from lop import utilities as U
        spy = self
        saved = []

        def wrap(cls, name, before=None, after=None):
            if name not in cls.__dict__:
                return
            orig = cls.__dict__[name]
            saved.append((cls, name, orig))

            def f(me, *a, **k):
                top = spy.enter(name)
                try:
                    tok = before(me, a, k) if top and before else None
                    r = orig(me, *a, **k)
                    if top and after:
                        after(me, a, k, r, tok)
                    return r
                finally:
                    spy.depth -= 1
            setattr(cls, name, f)

        def note(m):
            if not any(m is x for x in spy.models):
                spy.models.append(m)

        def sel_before(me, a, k):
            note(me)
            X = np.array(a[0] if a else k['candidate_pts'], dtype=float, copy=True)
            return X, spy.snapshot(me)

        def sel_after(me, a, k, r, tok):
            n = a[1] if len(a) > 1 else k.get('num_alts')
            rest = []
            if isinstance(r, tuple):
                r, rest = r
            spy.events.append(('select', tok[0], n, [int(v) for v in np.ravel(r)], tok[1], [int(v) for v in rest]))

        def add_before(me, a, k):
            note(me)
            return np.array(a[0] if a else k['X'], dtype=float, copy=True), copy.deepcopy(a[1] if len(a) > 1 else k.get('y'))

        def add_after(me, a, k, r, tok):
            spy.events.append(('add', tok[0], tok[1], k.get('type', a[2] if len(a) > 2 else 'relative_discrete')))

        def ask(kind):
            def after(me, a, k, r, tok):
                if not any(me is x for x in spy.users):
                    spy.users.append(me)
                x = a[0] if a else list(k.values())[0]
                spy.events.append((kind, np.array(x, dtype=float, copy=True), copy.deepcopy(r)))
            return after
        seen = set()
        for root in (lop.PreferenceGP, lop.PreferenceLinear):
            for cls in root.__mro__[:-1]:
                if cls not in seen:
                    seen.add(cls)
                    wrap(cls, 'select', sel_before, sel_after)
                    wrap(cls, 'add', add_before, add_after)
                    for b in ('optimize', 'predict', 'predict_large'):
                        wrap(cls, b)
        seen = set()
        for root in (lop.PerfectUser, lop.HumanChoiceUser2, lop.HumanChoiceUser):
            for cls in root.__mro__[:-1]:
                if cls not in seen:
                    seen.add(cls)
                    for n in ('choose', 'choose_pairs', 'rate'):
                        wrap(cls, n, None, ask(n))
                    wrap(cls, 'learn_beta', lambda me, a, k: spy.users.append(me) if not any(me is x for x in spy.users) else None)
        try:
            yield self
        finally:
            for cls, name, orig in reversed(saved):
                setattr(cls, name, orig)

    def snapshot(self, m):
        self.depth += 1
        try:
            al, m.active_learner = m.active_learner, None
            try:
                return copy.deepcopy(m)
            finally:
                m.active_learner = al
        finally:
            self.depth -= 1


def call(case, root, data, spy):
    """One experiment session from the case's seeds. -> the result tuple"""
    h = helper()
    noplot()
    conf, _ = config(case, root)
    folder = os.path.join(root, 'run') + os.sep
    os.makedirs(folder, exist_ok=True)
    seams.seed_all(case['s'])
    if case['file']:
        with open(os.path.join(root, 'rewards.pickle'), 'wb') as f:
            pickle.dump(data, f)
        data = None
    with spy.installed():
        return h.train_and_eval(conf, case['env'], folder, selector=case['sel'], selection_type=case['qt'], rep_pt_type=case['rep'], model_desc=case['model'],
                                fake_function_desc=case['util'], num_alts=case['alts'], UCB_scaler=case['ucb'], rbf_sigma=case['rs'], synth_user=case['user'],
                                hyper='hyper' if case['hyper'] else 'no', default_pareto=case['defpar'], num_train=case['nt'] + case['spare'] if not case['own'] else case['nt'], num_eval=case['ne'],
                                sigma_abs=case['sa'], sigma_pair=case['sp'], v=case['v'], use_kmedoid=case['kmed'], alpha=case['alpha'], alpha_fake=case['af'],
                                p_synth_pair=case['pp'], p_synth_abs=case['pa'], rbf_l=case['rl'], path_data=data)


# ---------------------------------------------------------------- judging
def flat(y):
    return [float(v) for v in np.ravel(np.array(y, dtype=float))]


def facts(m):
    """The observations a model holds, by point."""
    X = np.asarray(m.X_train, dtype=float)
    pt = lambda i: tuple(np.ravel(X[int(i)]).tolist())
    pairs, rates = [], []
    y = m.y_train
    if y[0] is not None:
        for d, u, v in np.asarray(y[0]):
            a, b = (pt(u), pt(v)) if d < 0 else (pt(v), pt(u))
            pairs.append((a, b))
    if y[2] is not None:
        for val, idx in zip(np.ravel(y[2][0]), np.ravel(y[2][1])):
            rates.append((pt(idx), float(val)))
    return X, sorted(pairs), sorted(rates)


def near(a, b, tol=1e-6):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    both = np.isnan(a) & np.isnan(b)
    with np.errstate(all='ignore'):
        return bool(np.all(both | (a == b) | (np.abs(a - b) <= tol * (1 + np.abs(b)))))


def corr(a, b):
    with np.errstate(all='ignore'):
        if np.ptp(a) == 0 or np.ptp(b) == 0:
            return np.nan
        return np.corrcoef(a, b)[0, 1]


def gapless(x):
    """Whether two values are so close that rounding may order or tie them."""
    s = np.sort(x)
    g = np.diff(s)
    sc = max(1e-12, float(np.max(np.abs(x))))
    return bool(np.any((g <= 1e-9 * sc) & (g > 0)))


NAMES = ('accuracy', 'average rank', 'rank', 'estimated score', 'real score', 'regret', 'query type', 'query correctness', 'Spearman correlation', 'Pearson correlation', 'rho')


def judge_row(case, ctx, k, m, fake, ev, row, what):
    """Row k of the results against the model as it was then."""
    acc, avg, ranks, est, real, diff, sp, pe, rho = row
    exact_rank = True
    expect = []
    for j, p in enumerate(ev):
        R = p['rewards'][p['indicies']['pareto']]
        u = np.ravel(np.asarray(fake(R.copy()), dtype=float))
        if m is None:
            # (before any data, predictions of a linear model are drawn at random)
            scores = None
        else:
            mm = copy.deepcopy(m)
            s = seams.rng_state()
            try:
                pred = mm.predict(R.copy())
            finally:
                seams.set_rng_state(s)
            scores = np.ravel(np.asarray(pred[0] if isinstance(pred, tuple) else pred, dtype=float))
            if not np.all(np.isfinite(scores)):
                raise Reject('the model predicts no finite scores')
        w = '%s, after %d queries, evaluation %d' % (what, k, j)
        su = max(1e-12, float(np.max(np.abs(u))))
        if scores is not None:
            ss = max(1e-300, float(np.max(np.abs(scores))))
            # the path chosen: any of the best ones by estimated score
            # (indices are those of the Pareto paths)
            best = [b for b in range(len(u)) if scores[b] >= scores.max() - 1e-9 * ss]
            if len(best) > 1:
                ctx.probe('ties')
        else:
            best = list(range(len(u)))
        ok = False
        for b in best:
            lo = int(np.sum(u > u[b] + 1e-12 * su))
            hi = int(np.sum(u >= u[b] - 1e-12 * su)) - 1
            if lo <= ranks[j] <= hi and near(real[j], u[b]) and near(diff[j], u.max() - u[b]) and (scores is None or near(est[j], scores[b])):
                ok = True
        ctx.check(ok, '%s: recorded rank %g, real score %.6g, regret %.6g, estimated score %.6g; the best estimate has rank %s, real score %s, regret %s, estimate %s' % (
            w, ranks[j], real[j], diff[j], est[j], [int(np.sum(u > u[b])) for b in best][:4], ['%.6g' % u[b] for b in best][:4],
            ['%.6g' % (u.max() - u[b]) for b in best][:4], '?' if scores is None else '%.6g' % scores.max()), 'wrong-score')
        if scores is not None:
            ctx.check(near(pe[j], corr(u, scores), 1e-5) or np.ptp(u) < 1e-9 * su or np.ptp(scores) < 1e-9 * ss, '%s: recorded Pearson correlation %.6g, is %.6g' % (w, pe[j], corr(u, scores)), 'wrong-correlation')
            if not gapless(u) and not gapless(scores) and len(u) > 1:
                want = corr(scipy.stats.rankdata(u), scipy.stats.rankdata(scores))
                ctx.check(near(sp[j], want, 1e-6) or np.isnan(want), '%s: recorded Spearman correlation %.6g, is %.6g' % (w, sp[j], want), 'wrong-correlation')
            with np.errstate(all='ignore'):
                a, b = scipy.special.softmax(u), scipy.special.softmax(scores)
            want = -float(np.linalg.norm(a - b))
            ctx.check(near(rho[j], want, 1e-6) or np.max(np.abs(scores)) > 500, '%s: recorded rho distance %.6g, is %.6g' % (w, rho[j], want), 'wrong-correlation')
    ctx.check(near(acc, np.mean(np.asarray(ranks) == 0)), '%s, after %d queries: recorded accuracy %.6g, ranks %s' % (what, k, acc, list(ranks)), 'wrong-score')
    ctx.check(near(avg, np.mean(ranks)), '%s, after %d queries: recorded average rank %.6g, ranks %s' % (what, k, avg, list(ranks)), 'wrong-score')


def member(row, R):
    return next((i for i in range(len(R)) if np.array_equal(R[i], row)), None)


def matched(options):
    """Whether every query can be of a scenario of its own."""
    owner = {}

    def place(q, seen):
        for i in options[q]:
            if i not in seen:
                seen.add(i)
                if i not in owner or place(owner[i], seen):
                    owner[i] = q
                    return True
        return False
    return all(place(q, set()) for q in range(len(options)))


def judge(case, ctx, root, data, spy, res):
    import lop
    what = '%s %s with %s user on %s utility, %s model' % (case['sel'], case['qt'], case['user'], case['util'], case['model'])
    ctx.check(len(spy.models) == 1 and len(spy.users) == 1, '%s: %d models were taught and %d users asked' % (what, len(spy.models), len(spy.users)), 'wrong-session')
    m, user = spy.models[0], spy.users[0]
    nt = case['nt'] + case['spare'] if not case['own'] else case['nt']
    ne = case['ne']
    env = data['train'][case['env']][:nt]
    ev = data['eval'][case['env']][:ne]
    arrays = [np.asarray(a, dtype=float) for a in res[:11]]
    for name, a, two in zip(NAMES, arrays, (0, 0, 1, 1, 1, 1, 0, 0, 1, 1, 1)):
        ctx.check(a.shape == ((nt + 1, ne) if two else (nt + 1,)), '%s: %s has shape %s for %d queries and %d evaluations' % (what, name, a.shape, nt, ne), 'wrong-shape')
    acc, avg, ranks, est, real, diff, qtype, qcorr, sp, pe, rho = arrays
    settings(case, ctx, m, user, data, what)
    fake = user.fake_f
    # ---- the session, query by query
    evs = list(spy.events)
    X, pairs, rates = [], [], []
    j = 0
    if case['absp'] and case['model'] != 'linear':
        ctx.probe('abs-point')
        ctx.check(evs and evs[0][0] == 'add', '%s: the configured rated point was not added' % what, 'wrong-data')
        rates.append((tuple([0.0] * case['d']), 0.5))
        j = 1
    used = []
    snaps = []
    for k in range(nt):
        w = '%s, query %d of %d' % (what, k + 1, nt)
        ctx.check(j < len(evs) and evs[j][0] == 'select', '%s: no query was chosen (%s)' % (w, evs[j][0] if j < len(evs) else 'end'), 'wrong-session')
        _, C, n, sel, snap, rest = evs[j]
        snaps.append(snap)
        j += 1
        fits = [i for i in range(nt) if all(member(c, env[i]['rewards']) is not None for c in C)]
        ctx.check(len(fits) >= 1, '%s: its candidates are not of a training scenario of the environment' % w, 'wrong-candidates')
        ctx.check(len(np.unique(C, axis=0)) == len(C), '%s: a candidate is doubled' % w, 'wrong-candidates')
        want = {}
        for i in fits:
            want[i] = len(env[i]['rewards'])
            if case['kmed'] in ('uni', 'medrand', 'downhull') and want[i] > case['n'] - 1:
                want[i] = case['n'] - 1
                ctx.probe(case['kmed'])
        ctx.check(any(want[i] == len(C) for i in fits), '%s: %d candidates, %s wanted' % (w, len(C), sorted(want.values())), 'wrong-candidates')
        used.append([i for i in fits if want[i] == len(C)])
        ctx.check(matched(used), '%s: a training scenario is used a second time' % w, 'wrong-candidates')
        ctx.check(n == (1 if case['qt'] == 'rating' else case['alts']), '%s: %s alternatives asked for' % (w, n), 'wrong-query')
        shown = C[sel]
        rate = case['qt'] == 'rating' or (case['qt'] == 'switch' and len(sel) == 1)
        # (a switching learner may show one path to rate; every other query shows what was asked for)
        ctx.check(len(sel) == n or rate, '%s: %d paths selected' % (w, len(sel)), 'wrong-query')
        u = np.ravel(np.asarray(fake(shown.copy()), dtype=float))
        ctx.check(int(qtype[k + 1]) == (ABS if rate else PAIR), '%s: query type %d recorded, the user was asked for a %s' % (w, qtype[k + 1], 'rating' if rate else 'choice'), 'wrong-type')
        correct = -1
        if case['qt'] == 'ranking':
            for a in range(len(u)):
                for b in range(len(u)):
                    if u[a] > u[b]:
                        pairs.append((tuple(shown[a]), tuple(shown[b])))
        else:
            ctx.check(j < len(evs) and evs[j][0] in (('rate',) if rate else ('choose', 'choose_pairs')), '%s: the user was not asked for a %s' % (w, 'rating' if rate else 'choice'), 'wrong-session')
            _, Q, ans = evs[j]
            j += 1
            ctx.check(np.array_equal(np.atleast_2d(Q), shown), '%s: the user was not shown the paths selected' % w, 'wrong-query')
            if rate:
                rates.append((tuple(shown[0]), float(np.ravel(ans)[0])))
            else:
                if evs[j - 1][0] == 'choose':
                    c = int(ans)
                else:
                    wins = {int(p[1]) if p[0] < 0 else int(p[2]) for p in ans}
                    ctx.check(len(wins) == 1 and len(ans) == len(sel) - 1, '%s: the answer %s is no choice' % (w, ans), 'wrong-session')
                    c = wins.pop()
                for b in range(len(sel)):
                    if b != c:
                        pairs.append((tuple(shown[c]), tuple(shown[b])))
                if case['qt'] == 'switch':
                    correct = int(u[c] >= u.max() - 1e-12 * abs(u.max()))
                    if case['user'] == 'perfect':
                        ctx.check(correct == 1, '%s: a perfect user chose a worse path' % w, 'wrong-session')
        ctx.check(int(qcorr[k + 1]) == correct or (correct == 1 and len(set(u)) < len(u)), '%s: query correctness %d recorded, is %d' % (w, qcorr[k + 1], correct), 'wrong-type')
        ctx.check(j < len(evs) and evs[j][0] == 'add', '%s: the answer was not given to the model (%s)' % (w, evs[j][0] if j < len(evs) else 'end'), 'wrong-data')
        j += 1
        X.append(shown)
        if case['pareto'] and case['qt'] in ('choose1', 'ranking') and rest:
            # the Pareto paths considered and not shown become points without answers
            ctx.probe('not-shown')
            ctx.check(j < len(evs) and evs[j][0] == 'add' and np.array_equal(evs[j][1], C[rest]), '%s: the Pareto paths not shown were not given to the model' % w, 'wrong-data')
            j += 1
            X.append(C[rest])
        held = snap_after(spy, k, m, nt)
        HX, hp, hr = facts(held)
        ties = case['qt'] == 'ranking' and len(set(u)) < len(u)
        if ties:
            raise Reject('equal utilities in a ranking')
        expect = sorted(pairs)
        if case['pareto']:
            P = [tuple(np.ravel(x).tolist()) for x in HX]
            expect = sorted(pairs + [(P[a], P[b]) for a, b in dominance(P)])
            ctx.probe('pareto')
        ctx.check(hp == expect, '%s: the model holds %d choices, %d were made%s' % (w, len(hp), len(expect), '' if len(hp) != len(expect) else ' and they differ'), 'wrong-data')
        ctx.check(len(hr) == len(rates) and all(a[0] == b[0] and abs(a[1] - min(max(b[1], 0.001), 0.999)) < 1e-9 for a, b in zip(hr, sorted(rates))) or
                  near(sorted(v for _, v in hr), sorted(min(max(v, 0.001), 0.999) for _, v in rates), 1e-9) and sorted(p for p, _ in hr) == sorted(p for p, _ in rates),
                  '%s: the model holds ratings %s, given were %s' % (w, hr[-3:], rates[-3:]), 'wrong-data')
        new = np.concatenate(X, axis=0)
        ctx.check(len(HX) >= len(new) and np.array_equal(HX[len(HX) - len(new):], new), '%s: the model does not hold the paths shown' % w, 'wrong-data')
        extra = len(HX) - len(new)
        ctx.check(extra == (len(rates_before(case))) + (prior_count(m) if case['prior'] else 0), '%s: the model holds %d points that were never shown' % (w, extra), 'wrong-data')
        ctx.log(k, sel, rate, correct)
    ctx.check(j == len(evs), '%s: after the last query there was another %s' % (what, evs[j][0] if j < len(evs) else ''), 'wrong-session')
    ctx.check(qtype[0] == -1 and qcorr[0] == -1, '%s: the row before any query records a query' % what, 'wrong-type')
    # ---- the rows
    final = spy.snapshot(m)
    for k in range(nt + 1):
        mk = snaps[k] if k < nt else final
        if case['model'] == 'linear' and k == 0:
            mk = None
        judge_row(case, ctx, k, mk, fake, ev, [a[k] for a in (acc, avg, ranks, est, real, diff, sp, pe, rho)], what)
    states(case, ctx, root, snaps + [final], what)
    if nt >= 2:
        ctx.nontrivial = True
    ctx.log(*[a for a in arrays])


def snap_after(spy, k, m, nt):
    s = [e for e in spy.events if e[0] == 'select']
    return s[k + 1][4] if k + 1 < nt else m


def rates_before(case):
    return [0] if case['absp'] and case['model'] != 'linear' else []


def prior_count(m):
    i = m.prior_idx
    return 0 if i is None else int(i[1] - i[0])


def states(case, ctx, root, models, what):
    """The recorded state files."""
    for k, m in enumerate(models):
        p = os.path.join(root, 'run', 'trainitr_%d_viz.npz' % k)
        ctx.check(os.path.exists(p), '%s: no state recorded after %d queries' % (what, k), 'wrong-state')
        with np.load(p, allow_pickle=True) as z:
            z = {n: z[n] for n in z.files}
        X = z['GP_pts']
        same = (X.shape == () and X.item() is None and m.X_train is None) or (m.X_train is not None and X.shape == np.shape(m.X_train) and np.array_equal(X, m.X_train))
        ctx.check(same, '%s: the state recorded after %d queries does not hold the points of the model then' % (what, k), 'wrong-state')
        for t in (0, 1, 2):
            got, want = z['GP_pref_%d' % t], m.y_train[t]
            try:
                a = [flat(v) for v in got] if got.shape != () else None
                b = [flat(v) for v in want] if want is not None else None
            except (TypeError, ValueError):
                continue
            ctx.check(a == b, '%s: the state recorded after %d queries does not hold the observations of the model then' % (what, k), 'wrong-state')


def calibrated(case, ctx, user, data, what):
    """The accuracy the user was calibrated to."""
    import scipy.special as spec
    dd = []
    for e in data['eval']:
        for p in e[:case['ne']]:
            z = user.k * np.ravel(np.asarray(user.fake_f(p['rewards'].copy()), dtype=float)) + user.b
            i, j = np.triu_indices(len(z), 1)
            dd.append(np.abs(z[i] - z[j]))
    dd = np.concatenate(dd)
    dd = dd[dd > 0]
    if len(dd) < 15:
        return
    acc = lambda b, s: (float(np.mean(spec.expit(b * dd))), float(np.mean(spec.ndtr(dd / (math.sqrt(2) * s)))))
    hi, got = acc(150.0, 0.01), acc(user.beta, user.sigma)
    for k, (p, kind) in enumerate(((case['pp'], 'choices'), (case['pa'], 'ratings'))):
        if p < hi[k] - 0.03:
            ctx.probe('calibrated')
            ctx.dev = max(getattr(ctx, 'dev', 0), abs(got[k] - p))
            ctx.check(abs(got[k] - p) <= 0.1, '%s: asked for a user with accuracy %.2f of %s, got one with %.3f' % (what, p, kind, got[k]), 'wrong-setting')


def parts(case, ctx, root):
    """Every learner by name, with the settings asked for."""
    h = helper()
    _, conf = config(case, root)
    for sel, rep, dp, best, ucb, alpha in case['parts']:
        cls, f = ALL[sel]
        what = 'learner %s' % sel
        l = h.get_active_learner(sel, 'switch', rep, ucb, dp, dict(conf, alpha=alpha, always_select_best=best))
        ctx.check(type(l).__name__ == cls, '%s is a %s' % (what, type(l).__name__), 'wrong-setting')
        subs = [l] + [getattr(l, n) for n in ('pairwise_l', 'abs_l', 'abs_comp') if hasattr(l, n)]
        for p in subs:
            if hasattr(p, 'alignment_f'):
                ctx.check(p.alignment_f == f, '%s aligns by %s' % (what, p.alignment_f), 'wrong-setting')
            if hasattr(p, 'rep_Q_method'):
                ctx.check(p.rep_Q_method == rep, '%s has %s representative points, not %s' % (what, p.rep_Q_method, rep), 'wrong-setting')
            if type(p).__name__ in ('UCBLearner', 'GV_UCBLearner') and hasattr(p, 'alpha'):
                ctx.check(p.alpha == ucb, '%s weighs the upper confidence bound by %s, not %s' % (what, p.alpha, ucb), 'wrong-setting')
        if hasattr(l, 'p_abs_param'):
            ctx.check(l.p_abs_param == alpha, '%s: share of absolute queries %s, not %s' % (what, l.p_abs_param, alpha), 'wrong-setting')
        if cls == 'MixedComparision':
            ctx.check(l.alpha == alpha, '%s: ratings weigh %s, not %s' % (what, l.alpha, alpha), 'wrong-setting')
        ctx.check(bool(l.default_to_pareto) == dp and bool(l.always_select_best) == best, '%s: default to Pareto paths is %s, always select the best %s' % (what, l.default_to_pareto, l.always_select_best), 'wrong-setting')
        ctx.log(sel, rep)
    ctx.probe('parts')


def settings(case, ctx, m, user, data, what):
    """The parts the experiment was asked to use."""
    import lop
    ctx.check(type(m).__name__ == dict(gp='PreferenceGP', linear='PreferenceLinear')[case['model']], '%s: a %s was taught' % (what, type(m).__name__), 'wrong-setting')
    ctx.check(type(user).__name__ == dict(perfect='PerfectUser', human_choice='HumanChoiceUser2')[case['user']], '%s: a %s was asked' % (what, type(user).__name__), 'wrong-setting')
    ctx.check(type(user.fake_f).__name__ == UTILITIES[case['util']], '%s: the utility is a %s' % (what, type(user.fake_f).__name__), 'wrong-setting')
    l = m.active_learner
    cls, f = ALL[case['sel']]
    ctx.check(type(l).__name__ == cls, '%s: the learner is a %s' % (what, type(l).__name__), 'wrong-setting')
    parts = [l] + [getattr(l, n) for n in ('pairwise_l', 'abs_l', 'abs_comp') if hasattr(l, n)]
    for p in parts:
        if hasattr(p, 'alignment_f'):
            ctx.check(p.alignment_f == f, '%s: the learner aligns by %s' % (what, p.alignment_f), 'wrong-setting')
        if hasattr(p, 'rep_Q_method'):
            ctx.check(p.rep_Q_method == case['rep'], '%s: representative points are %s, not %s' % (what, p.rep_Q_method, case['rep']), 'wrong-setting')
            if case['rep'] == 'stable':
                ctx.probe('stable')
        if type(p).__name__ in ('UCBLearner', 'GV_UCBLearner') and hasattr(p, 'alpha'):
            ctx.check(p.alpha == (1.0 if case['ucb'] is None else case['ucb']), '%s: the upper confidence bound weighs %s, not %s' % (what, p.alpha, case['ucb']), 'wrong-setting')
    ctx.check(bool(l.default_to_pareto) == case['defpar'], '%s: default to Pareto paths is %s' % (what, l.default_to_pareto), 'wrong-setting')
    ctx.check(bool(l.always_select_best) == (case['best'] and case['qt'] != 'rating'), '%s: always select the best is %s' % (what, l.always_select_best), 'wrong-setting')
    if cls == 'MixedComparision':
        ctx.check(l.alpha == case['alpha'], '%s: ratings weigh %s, not %s' % (what, l.alpha, case['alpha']), 'wrong-setting')
    if case['util'] == 'min_log':
        ctx.check(user.fake_f.alpha == case['af'], '%s: the utility mixes by %s, not %s' % (what, user.fake_f.alpha, case['af']), 'wrong-setting')
    ctx.check(bool(m.pareto_pairs) == case['pareto'], '%s: dominance pairs are %s' % (what, m.pareto_pairs), 'wrong-setting')
    if case['user'] == 'human_choice':
        calibrated(case, ctx, user, data, what)
    if hasattr(l, 'p_abs_param'):
        ctx.check(l.p_abs_param == case['alpha'], '%s: share of absolute queries %s, not %s' % (what, l.p_abs_param, case['alpha']), 'wrong-setting')
    if case['model'] == 'gp':
        ctx.check(bool(m.normalize_gp) == case['norm'][0] and bool(m.normalize_positive) == case['norm'][1], '%s: normalisation is %s, %s' % (what, m.normalize_gp, m.normalize_positive), 'wrong-setting')
        ctx.check(bool(m.use_hyper_optimization) == case['hyper'], '%s: hyperparameter optimisation is %s' % (what, m.use_hyper_optimization), 'wrong-setting')
    if not case['hyper']:
        got = [float(m.probits[0].sigma), float(m.probits[2].sigma), float(m.probits[2].v)]
        ctx.check(near(got, [case['sp'], case['sa'], case['v']]), '%s: likelihood parameters %s, asked for %s' % (what, got, [case['sp'], case['sa'], case['v']]), 'wrong-setting')
        if case['model'] == 'gp':
            want = [1.0 if case['rs'] is None else case['rs'], 0.4 if case['rl'] is None else case['rl']]
            got = [float(m.cov_func.sigma), float(m.cov_func.l)]
            ctx.check(near(got, want), '%s: kernel parameters %s, asked for %s' % (what, got, want), 'wrong-setting')


# ---------------------------------------------------------------- runs
def digest(res):
    import hashlib
    h = hashlib.sha256()
    core.dig([np.asarray(a, dtype=float) for a in res[:11]], h)
    return h.hexdigest()


def execute(case, ctx):
    root = os.path.realpath(tempfile.mkdtemp(prefix='lopsim_'))
    try:
        with seams.pool(seams.Pool()):
            run(case, ctx, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def same_world(a, b):
    for part in ('train', 'eval'):
        if len(a[part]) != len(b[part]):
            return False
        for ea, eb in zip(a[part], b[part]):
            if len(ea) != len(eb):
                return False
            for x, y in zip(ea, eb):
                if not np.array_equal(x['rewards'], y['rewards']) or list(x['indicies']['pareto']) != list(y['indicies']['pareto']):
                    return False
    return True


LINES = {}


def run(case, ctx, root):
    kind = case['kind']
    data = world(case)
    ctx.probe(case['qt'])
    if len({len(e) for e in data['eval']}) > 1:
        ctx.probe('sizes')
    ctx.probe(case['model'])
    ctx.probe(case['user'])
    if case['hyper']:
        ctx.probe('hyper')
    if case['prior']:
        ctx.probe('prior')
    ctx.state(case['sel'], case['qt'], case['model'], case['user'], case['util'], kind)
    what = '%s %s, %s model' % (case['sel'], case['qt'], case['model'])
    parts(case, ctx, root)
    spy = Spy()
    if kind in ('clean', 'again'):
        res = attempt(case, root, data, spy)
        judge(case, ctx, root, world(case), spy, res)
        ctx.check(same_world(data, world(case)), '%s: the experiment changed the recorded environments' % what, 'changed-data')
        if kind == 'again':
            ctx.probe('again')
            seams.seed_all(case['s'] + 1)
            np.random.random(7)
            spy2 = Spy()
            res2 = attempt(case, root, data, spy2)
            ctx.check(digest(res) == digest(res2), '%s: a second experiment from the same seeds, on the same recorded environments, records other results' % what, 'not-repeatable')
        return
    if kind == 'factor':
        rng = random.Random(case['s'])
        hits = {}

        def decide(i, name):
            if rng.random() < 0.05:
                return np.linalg.LinAlgError
            return None
        w = seams.Window(ctx, names=None, decide=decide)
        try:
            with seams.window(w):
                res = call(case, root, data, spy)
        except np.linalg.LinAlgError:
            res = None
        except Exception as e:
            ctx.log('failed', type(e).__name__)
            res = None
        if w.fired:
            ctx.probe('factor')
        if res is not None:
            judge(case, ctx, root, world(case), spy, res)
            return
    elif kind == 'disk':
        ctx.probe('disk')
        gv = sys.modules['GP_visualization'] if 'GP_visualization' in sys.modules else (helper() and sys.modules['GP_visualization'])
        n = [int(case['at'] * (case['nt'] + 1))]
        orig = np.savez

        def savez(*a, **k):
            n[0] -= 1
            if n[0] < 0:
                ctx.fault('enospc@savez')
                raise OSError(28, 'No space left on device')
            return orig(*a, **k)
        np.savez = savez
        try:
            res = call(case, root, data, spy)
        except OSError:
            res = None
        finally:
            np.savez = orig
        ctx.check(res is None or n[0] >= 0, '%s: the experiment returned results although the disk was full when it recorded the state of the model' % what, 'fault-hidden')
    elif kind == 'call':
        # a call into the library, by the experiment itself, fails
        ctx.probe('call')
        probe = Spy()
        attempt(case, root, world(case), probe)
        exc = dict(KeyboardInterrupt=KeyboardInterrupt, MemoryError=MemoryError, ValueError=ValueError, LinAlgError=np.linalg.LinAlgError)[case['exc']]
        spy.fail = (int(case['at'] * probe.calls), exc)
        try:
            res = call(case, root, data, spy)
        except KeyboardInterrupt:
            res = None
        except Exception as e:
            ctx.check(exc is not KeyboardInterrupt, '%s: an interrupt during %s became %s' % (what, spy.failed, type(e).__name__), 'interrupt-lost')
            res = None
        if spy.failed:
            ctx.fault('%s@%s' % (case['exc'], spy.failed))
        ctx.check(res is None or spy.failed is None, '%s: %s failed (%s) and the experiment returned results' % (what, spy.failed, case['exc']), 'fault-hidden')
    else:
        # an interrupt before a seeded source line of the experiment, or of the library too
        prefix = os.path.join(boot.REPO, 'experiments') + os.sep
        if case['shuffle'] or case['grid']:
            prefix = (prefix, seams.SRC)
        t = seams.LineTrap(None, prefix=prefix)
        with t:
            attempt(dict(case), root, world(case), Spy())
        k = int(case['at'] * t.n)
        t = seams.LineTrap(k, KeyboardInterrupt, ctx, prefix=prefix)
        ctx.probe('interrupt')
        res = None
        try:
            with t:
                res = call(case, root, data, spy)
        except KeyboardInterrupt:
            pass
        except Exception as e:
            raise Violation('%s: an interrupt at %s became %s' % (what, t.where, type(e).__name__), 'interrupt-lost')
        ctx.check(res is None, '%s: an interrupt at %s was swallowed' % (what, t.where), 'interrupt-lost')
    # after the failure: the same experiment, on what the failed one left
    ctx.check(same_world(data, world(case)), '%s: the failed experiment changed the recorded environments' % what, 'changed-data')
    spy2 = Spy()
    shutil.rmtree(os.path.join(root, 'run'), ignore_errors=True)
    res2 = attempt(case, root, data, spy2)
    judge(case, ctx, root, world(case), spy2, res2)


def attempt(case, root, data, spy):
    """The experiment without faults. A session that the library rejects is no result."""
    try:
        return call(case, root, data, spy)
    except np.linalg.LinAlgError:
        raise Reject('the model cannot be fitted')
    except scipy.spatial.QhullError:
        raise Reject('no hull')


def warmup():
    helper()


def simplify(case):
    for k, v in (('kind', 'clean'), ('nt', case['nt'] - 1), ('ne', 1), ('envs', 1), ('spare', 0), ('extra', 0), ('shuffle', False), ('prior', False), ('absp', False), ('defpar', False), ('best', False),
                 ('kmed', 'no'), ('file', False), ('pareto', False), ('norm', [False, False]), ('parts', []), ('grid', 0), ('d', 2), ('alts', 2), ('n', 6), ('util', 'linear'), ('ucb', None), ('rs', None), ('rl', None)):
        if case[k] != v and not (k == 'nt' and v < 1):
            yield dict(case, **{k: v}, **({'env': 0} if k == 'envs' else {}))
