"""C10: a session is reproducible from its random seeds."""
import copy, hashlib, json, os, random, subprocess, sys, tempfile
import numpy as np
from sim import boot, lopsys as L, seams, learn, session, entropy, core
from sim.core import Violation, Reject

ID = 'C10'
RUNS = {'quick': 1200, 'thorough': 40000}
RULE = ('one run = a whole session (model, learner, synthetic user, queries, answers, fits, random sets, chains, folds, calibration, hyperparameter search) '
        'executed from given seeds in two environments that differ in what ran before in the process, the operating system\'s entropy, the clocks, the content of uninitialised memory and the '
        'completion order of integration workers; some runs execute it in a new process with another hash seed; transcripts must be bit-identical; '
        'with other seeds randomised choices must differ; non-trivial: the session made at least one random choice')
MEASURE = 'distinct (learner, model, user, kind of environment change) combinations'
ASSUMPTIONS = ['one BLAS thread', 'two different seeds: at least 40 independent choices among 30 or more coincide with probability below 1e-50']
REQUIRED_PROBES = ['twice', 'prior', 'workers', 'hashseed', 'seeds', 'hyper', 'user:human', 'user:human2', 'user:perfect']
STUB = 'operating-system entropy, clocks, worker pool of quad_vec; debugger/stdin; approxcdf (absent offline)'


def generate(rng, i):
    if i % 121 == 7:
        # the same sessions in a process of their own, under another hash seed
        return dict(mode='hash', hashseed=rng.randint(1, 4000000), items=[session.gen_session(rng) for _ in range(25)],
                    seeds=[rng.getrandbits(30) for _ in range(25)])
    if i % 13 == 3:
        return dict(mode='seeds', what=rng.choice(['random', 'choose', 'rate', 'sets', 'mcmc', 'fake', 'fold', 'strategy', 'acq', 'calibrate', 'hyper']), a=rng.getrandbits(30), b=rng.getrandbits(30),
                    d=rng.choice([1, 2]), model=L.gen_model(rng, ('pgp',)))
    return dict(mode='env', session=session.gen_session(rng), s=rng.getrandbits(31), prior=session.gen_session(rng, light=True) if rng.random() < 0.7 else None,
                env=rng.getrandbits(30), jump=rng.choice([0.0, 10.0, 1e6]))


def transcript(s):
    """-> list of events; the seeds are the caller's."""
    return session.Session(s).run()


def digest(t):
    h = hashlib.sha256()
    core.dig(t, h)
    return h.hexdigest()


def differ(a, b):
    for j, (x, y) in enumerate(zip(a, b)):
        if digest(x) != digest(y):
            return 'event %d: %s / %s' % (j, core._short(x), core._short(y))
    return 'events %d / %d' % (len(a), len(b))


def execute(case, ctx):
    return {'env': run_env, 'hash': run_hash, 'seeds': run_seeds}[case['mode']](case, ctx)


def run_env(case, ctx):
    s = case['session']
    out = []
    for k in (0, 1):
        with entropy.environment(case['env'] + k, ctx, jump=case['jump'] * k):
            pool = seams.Pool() if k == 0 else seams.Pool(random.Random(case['env']))
            with seams.pool(pool):
                if k == 1 and case['prior'] is not None:
                    ctx.probe('prior')
                    seams.seed_all(case['env'])
                    transcript(case['prior'])
                seams.seed_all(case['s'])
                first = seams.rng_fingerprint()
                out.append(transcript(s))
                if seams.rng_fingerprint() != first:
                    ctx.nontrivial = True
                if k == 1 and pool.batches:
                    ctx.probe('workers')
                    ctx.fault('worker-order', pool.batches)
    ctx.probe('twice')
    ctx.probe('user:' + s['user']['kind'])
    if any(e[0] == 'hyper' for e in out[0]):
        ctx.probe('hyper')
    ctx.state(s['spec']['l'], s['model']['type'], s['user']['kind'], case['prior'] is not None, case['jump'])
    ctx.log(digest(out[0]))
    ctx.check(digest(out[0]) == digest(out[1]), '%s session with a %s user: rerun from the same seeds differs at %s'
              % (s['spec']['l'], s['user']['kind'], differ(*out)), 'not-reproducible')


def run_hash(case, ctx):
    ctx.probe('hashseed')
    mine = []
    for s, r in zip(case['items'], case['seeds']):
        seams.seed_all(r)
        with seams.pool(seams.Pool()):
            mine.append([digest(e) for e in transcript(s)])
        ctx.nontrivial = True
    tmp = tempfile.mkdtemp(prefix='lopsim_')
    p = os.path.join(tmp, 'case.json')
    with open(p, 'w') as f:
        json.dump(dict(items=case['items'], seeds=case['seeds']), f, default=core.enc)
    env = dict(os.environ, SIM_HASHSEED=str(case['hashseed']), PYTHONHASHSEED=str(case['hashseed']))
    try:
        r = subprocess.run([sys.executable, os.path.join(boot.VERIF, 'sim', 'hashrun.py'), p], env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=400)
        got = json.loads(r.stdout.strip().splitlines()[-1])
    except (ValueError, IndexError):
        raise RuntimeError('hash-seed process: %s' % r.stderr[-500:])
    finally:
        os.remove(p)
        os.rmdir(tmp)
    ctx.fault('hash-seed')
    ctx.log(mine)
    ctx.state('hash', case['hashseed'])
    for j, (a, b) in enumerate(zip(mine, got)):
        s = case['items'][j]
        if a != b:
            k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
            raise Violation('%s session with a %s user: another process with hash seed %d differs from event %d on'
                            % (s['spec']['l'], s['user']['kind'], case['hashseed'], k), 'not-reproducible')


def randomised(case):
    """Forty random choices of one kind, from the current random state."""
    import lop
    from lop import utilities as U
    w, d = case['what'], case['d']
    X = np.random.RandomState(1).random_sample((40, d))
    out = []
    if w in ('random', 'acq', 'strategy'):
        spec = dict(random=dict(l='random'), acq=dict(l='acq', M=4, f='rho', rep=dict(num_pts=8, num_Q=5)),
                    strategy=dict(l='strategy', p=0.5, pair=dict(l='random'), abs=dict(l='random')))[w]
        m = L.build_model(case['model'])
        m.add(X[:4], [(-1, 0, 1), (1, 2, 3)])
        l = learn.build_learner(spec)
        m.active_learner = l
        l.set_model(m)
        m.predict(X)
        # (the fit, once made, is the same for both)
        for _ in range(40 if w != 'acq' else 12):
            out.append([int(v) for v in m.select(X, 2)])
    elif w in ('choose', 'rate', 'calibrate'):
        f = U.FakeLinear(d)
        f.w = np.ones(d) / d
        u = U.HumanChoiceUser(f, beta=0.1)
        Y = X.ravel() if d == 1 else X
        for _ in range(40):
            out.append(int(u.choose(Y)) if w == 'choose' else np.array(u.rate(Y)))
        if w == 'calibrate':
            try:
                u.learn_beta(np.random.RandomState(2).random_sample((12, 2)) if d > 1 else np.random.RandomState(2).random_sample(12), 0.75)
            except Exception as e:
                raise Reject('calibration failed')
            out = [u.beta, u.sigma]
    elif w == 'sets':
        out = [np.array(U.sample_unique_sets(40, 30, 3))]
    elif w == 'mcmc':
        out = [U.metropolis_hastings(lambda z: -float(np.sum(np.square(z))), 40, dim=2, num_to_burn=10)]
    elif w == 'fake':
        out = [U.FakeLogistic(3).calc(np.full((1, 3), 0.4)) for _ in range(5)]
    elif w == 'fold':
        out = [str(U.k_fold_x_y(X, [[(-1, a, a + 1) for a in range(0, 38)], None, None], 3))]
    elif w == 'hyper':
        m = L.build_model(dict(case['model'], hyperopt=False))
        m.add(X[:6], [(-1, 0, 1), (1, 2, 3), (1, 4, 5)])
        m.randomize_hyper()
        out = [L.hyper_of(m)]
    return out


def run_seeds(case, ctx):
    ctx.probe('seeds')
    if case['a'] == case['b']:
        raise Reject('equal seeds')
    got = []
    for env, s in ((1, case['a']), (1, case['b']), (2, case['a'])):
        with entropy.environment(env, ctx), seams.pool(seams.Pool()):
            seams.seed_all(s)
            got.append(randomised(case))
    ctx.nontrivial = True
    ctx.state('seeds', case['what'], case['d'])
    ctx.log(case['what'], digest(got[0]))
    ctx.check(digest(got[0]) == digest(got[2]), '%s: not the same from the same seed: %s' % (case['what'], differ(got[0], got[2])), 'not-reproducible')
    ctx.check(digest(got[0]) != digest(got[1]), '%s: two different seeds give the same random choices: %s' % (case['what'], core._short(got[0])), 'seed-ignored')


def warmup():
    learn.warm()


def simplify(case):
    if case['mode'] == 'env':
        if case['prior'] is not None:
            yield dict(case, prior=None)
        for s in session.shrink(case['session']):
            yield dict(case, session=s)
    elif case['mode'] == 'hash' and len(case['items']) > 1:
        # items and seeds belong together
        h = len(case['items']) // 2
        for a, b in ((0, h), (h, None)):
            yield dict(case, items=case['items'][a:b], seeds=case['seeds'][a:b])
    elif case['mode'] == 'hash':
        for s in session.shrink(case['items'][0]):
            yield dict(case, items=[s])
