"""Builds library objects from JSON specifications and generates workloads."""
import copy
import numpy as np

KERNS = ('rbf', 'rbf0', 'lin', 'sum', 'prod')


def arr(x):
    return np.array(x, dtype=float)


# ------------------------------------------------------------------- kernels
def build_kern(k):
    import lop
    n = k['k']
    if n == 'rbf':
        kk = lop.RBF_kern(k['s'], k['l'], sigma_noise=k.get('n', 0.01))
    elif n == 'lin':
        kk = lop.LinearKern(k['s'], k['sb'], k['off'])
    elif n == 'rbf0':
        kk = lop.RBF_kern_zeroed(k['s'], k['l'], sigma_noise=k.get('n', 0.01))
    elif n == 'per':
        kk = lop.PeriodicKern(k['s'], k['l'], k['p'])
    elif n in ('sum', 'prod'):
        a, b = build_kern(k['a']), build_kern(k['b'])
        kk = a + b if n == 'sum' else a * b
    else:
        raise ValueError(n)
    return kk


def gen_rbf(rng, noise=(0.01, 0.05)):
    return dict(k='rbf', s=round(rng.uniform(0.6, 1.6), 3), l=round(rng.uniform(0.25, 1.2), 3), n=rng.choice(list(noise)))


def gen_kern(rng, kinds=('rbf',)):
    k = rng.choice(list(kinds))
    if k == 'rbf':
        return gen_rbf(rng)
    if k == 'lin':
        return dict(k='lin', s=round(rng.uniform(0.3, 1.0), 3), sb=round(rng.uniform(0.2, 1.0), 3), off=round(rng.uniform(-0.5, 0.5), 3))
    if k == 'sum':
        return dict(k='sum', a=gen_rbf(rng), b=gen_kern(rng, ('rbf', 'lin')))
    if k == 'prod':
        return dict(k='prod', a=gen_rbf(rng), b=gen_rbf(rng))
    if k == 'rbf0':
        return dict(gen_rbf(rng), k='rbf0')
    if k == 'sper':                              # (a covariance function in one dimension only)
        per = dict(k='per', s=round(rng.uniform(0.3, 1.0), 3), l=round(rng.uniform(0.6, 1.5), 3), p=round(rng.uniform(0.3, 1.5), 3))
        return rng.choice([dict(k='sum', a=gen_rbf(rng), b=per), dict(k='sum', a=per, b=gen_rbf(rng)), dict(k='sum', a=gen_rbf(rng), b=dict(k='prod', a=per, b=gen_rbf(rng)))])
    raise ValueError(k)


# -------------------------------------------------------------------- models
def build_model(m, learner=None):
    import lop
    t = m['type']
    if t == 'gp':
        mf = None
        if m.get('mean'):
            a = m['mean']
            mf = lambda x: (np.sum(x, axis=1) if np.ndim(x) > 1 else x) * a
        kw = dict(mean_func=mf) if mf is not None else {}
        mod = lop.GP(build_kern(m['kern']), active_learner=learner, **kw)
    elif t == 'plin':
        mod = lop.PreferenceLinear(pareto_pairs=m.get('pareto', False), active_learner=learner)
    elif t == 'pgp':
        mod = lop.PreferenceGP(build_kern(m['kern']), pareto_pairs=m.get('pareto', False),
                               normalize_gp=m.get('norm', False), normalize_positive=m.get('normpos', False),
                               use_hyper_optimization=m.get('hyperopt', False), active_learner=learner,
                               hyperparam_only_probit=m.get('only_probit', True))
    else:
        raise ValueError(t)
    if t != 'gp':
        if m.get('sigma') is not None:
            mod.probits[0].set_sigma(m['sigma'])
        if m.get('v') is not None:
            mod.probits[2].set_v(m['v'])
        if m.get('asig') is not None:
            mod.probits[2].set_sigma(m['asig'])
        if m.get('nord') is not None:
            mod.set_num_ordinals(m['nord'])
        if m.get('osig') is not None:
            mod.probits[1].set_sigma(m['osig'])
        if m.get('ob') is not None:
            mod.probits[1].set_b(m['ob'] if not isinstance(m['ob'], list) else np.array(m['ob'], dtype=float))
    return mod


def lik_args(m):
    """The likelihoods of a model, for oracle.Lik."""
    n, b = m.get('nord') or 5, m.get('ob')
    if not isinstance(b, list):
        b = np.linspace(0, 1.0 if b is None else b, n - 1)
    return dict(sigma=m.get('sigma') or 0.5, v=m.get('v') or 80.0, abs_sigma=m.get('asig') or 1.0, ord_sigma=m.get('osig') or 1.0,
                breaks=np.concatenate([[-np.inf], b, [np.inf]]))


def gen_lik(rng, m, labels=True):
    """Other likelihood parameters than the shipped ones."""
    if rng.random() < 0.3:
        m['v'] = rng.choice([1.2, 10.0, 20.0, 40.0, 150.0])
    if rng.random() < 0.2:
        m['asig'] = rng.choice([0.5, 0.8, 1.5])
    if not labels:
        return
    if rng.random() < 0.4:
        m['nord'] = rng.choice([3, 4, 6, 7, 10])
    if rng.random() < 0.3:
        n = m.get('nord') or 5
        m['ob'] = rng.choice([0.5, 2.0, sorted(round(rng.uniform(-1.5, 1.5) + 4 * j / n, 3) for j in range(n - 1))])
        if isinstance(m['ob'], list) and min(b - a for a, b in zip(m['ob'], m['ob'][1:])) < 0.1:
            m['ob'] = 2.0
    if rng.random() < 0.3:
        m['osig'] = rng.choice([0.4, 0.7, 1.8])


def gen_model(rng, types=('pgp',), kerns=('rbf',), pareto=None):
    t = rng.choice(list(types))
    m = dict(type=t)
    if t in ('gp', 'pgp'):
        m['kern'] = gen_kern(rng, kerns)
    if t == 'gp':
        m['mean'] = rng.choice([0, 0, 0.5])
    else:
        m['pareto'] = (rng.random() < 0.3) if pareto is None else pareto
        if rng.random() < 0.5:
            m['sigma'] = rng.choice([0.3, 0.5, 1.0, 1.0])
    return m


# ---------------------------------------------------------------------- data
def gen_points(rng, n, d, lo=0.0, hi=1.0, used=None, mindist=0.0):
    """n distinct points (rounded so that files are readable)."""
    used = used if used is not None else []
    out = []
    tries = 0
    while len(out) < n:
        p = [round(rng.uniform(lo, hi), 4) for _ in range(max(d, 1))]
        tries += 1
        ok = all(sum((a - b) ** 2 for a, b in zip(p, q)) ** 0.5 > (mindist if tries < 400 else 0) for q in used)
        if ok and p not in used:
            used.append(p)
            out.append(p)
    return out


def shape_points(pts, d):
    """d == 0: one-dimensional array of scalars."""
    a = arr(pts)
    if d == 0:
        return a.reshape(-1)
    return a.reshape(len(pts), d)


def gen_pairs(rng, n, k):
    """k preferences [d,u,v] among n points, in either of the two notations."""
    out = []
    for _ in range(k):
        u, v = rng.sample(range(n), 2)
        out.append([rng.choice([-1, 1]), u, v])
    return out


# ------------------------------------------------------------------ snapshots
def snap_y(y):
    if y is None:
        return None
    if isinstance(y, np.ndarray):
        return y.copy()
    if isinstance(y, tuple):
        return tuple(np.array(v, copy=True) for v in y)
    if isinstance(y, list):
        return [snap_y(v) for v in y]
    return copy.deepcopy(y)


def snap_data(model):
    return (None if model.X_train is None else model.X_train.copy(), snap_y(model.y_train))


def same_y(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and all(same_y(u, v) for u, v in zip(a, b))
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.array_equal(a, b))


def same_data(a, b):
    return same_y(a[0], b[0]) and same_y(a[1], b[1])


def hyper_of(model):
    """Every hyperparameter the model could use, tuned or not."""
    out = []
    for p in getattr(model, 'probits', []):
        for n in ('sigma', 'v', 'b'):
            if hasattr(p, n):
                out.append(np.array(getattr(p, n), dtype=float).ravel())
    cf = getattr(model, 'cov_func', None)
    if cf is not None:
        out.append(np.array(cf.get_param(), dtype=float).ravel())
        if hasattr(cf, 'sigma_noise'):
            out.append(np.array([cf.sigma_noise], dtype=float))
    return np.concatenate(out) if out else np.zeros(0)


def predict(model, X):
    """mean, variance, covariance copies."""
    mu, sig = model.predict(X)
    cov = getattr(model, 'cov', None)
    return (np.array(mu, copy=True), None if sig is None else np.array(sig, copy=True),
            None if (sig is None or cov is None) else np.array(cov, copy=True))


def dev(p, q):
    """Largest deviation between two predictions."""
    d = 0.0
    for a, b in zip(p, q):
        if a is None or b is None:
            if (a is None) != (b is None):
                return float('inf')
            continue
        if a.shape != b.shape:
            return float('inf')
        if a.size:
            m = np.where((a == b) | (np.isnan(a) & np.isnan(b)), 0.0, np.abs(a - b))
            if not np.isfinite(m).all():
                return float('inf')
            d = max(d, float(m.max()))
    return d


# ------------------------------------------------------------------ histories
# A delivery is ['pref'|'abs'|'ord', points, values] (for a GP: ['gp', points, outputs]).
def gen_delivery(rng, d, used, kinds=('pref', 'abs', 'ord'), nmax=4, mindist=0.0, pairs_min=1):
    k = rng.choice(list(kinds))
    n = rng.randint(2 if k == 'pref' else 1, nmax)
    pts = gen_points(rng, n, d, used=used, mindist=mindist)
    if k == 'gp':
        return [k, pts, [round(rng.uniform(-2, 2), 3) for _ in pts]]
    if k == 'pref':
        # consistent with a random linear utility most of the time
        w = [rng.uniform(-1, 1) for _ in range(max(d, 1))]
        ys = gen_pairs(rng, n, rng.randint(pairs_min, 3))
        if rng.random() < 0.8:
            for y in ys:
                a, b = (sum(x * c for x, c in zip(pts[j], w)) for j in y[1:])
                y[0] = -1 if a > b else 1
        return [k, pts, ys]
    if k == 'abs':
        return [k, pts, [rng.choice([round(rng.uniform(0.05, 0.95), 3), round(rng.random(), 3), 0.0, 1.0]) for _ in pts]]
    return [k, pts, [rng.randint(1, 5) for _ in pts]]


TYPES = {'pref': 'relative_discrete', 'abs': 'abs', 'ord': 'ordinal'}


def deliver(model, op, d):
    """Performs one delivery on a real model."""
    k, pts, val = op[:3]
    if not pts:
        return
    X = shape_points(pts, d)
    if k == 'gp':
        model.add(X, arr(val))
    elif k == 'pref':
        model.add(X, [tuple(p) for p in val], type='relative_discrete')
    elif k == 'abs':
        model.add(X, arr(val), type='abs')
    elif k == 'ord':
        model.add(X, list(val), type='ordinal')
    elif k == 'prior':
        model.add_prior(bounds=np.array([[0.0, 1.0]] * max(d, 1)), method='exact', pts=X)


def shrink_delivery(op):
    """Smaller variants of one delivery."""
    k, pts, val = op[:3]
    if k == 'pref':
        if len(val) > 1:
            yield [k, pts, val[:-1]] + op[3:]
        if len(pts) > 2 and all(max(p[1:]) < len(pts) - 1 for p in val):
            yield [k, pts[:-1], val] + op[3:]
    elif k == 'prior':
        if len(pts) > 1:
            yield [k, pts[:-1], []] + op[3:]
    elif len(pts) > 1:
        yield [k, pts[:-1], val[:-1]] + op[3:]
