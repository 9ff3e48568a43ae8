"""C16: completed experiment runs survive interrupts, crashes and full disks."""
import glob, importlib.util, os, random, shutil, sys, tempfile, types
import numpy as np
from sim import boot, seams, disk
from sim.core import Violation, Reject

ID = 'C16'
RUNS = {'quick': 2000, 'thorough': 120000}
RULE = ('one run = the real experiment driver executed in a simulated process on a simulated disk for one to five experiment runs, with up to two faults: '
        'process crash or power cut at a seeded file operation or source line (unwritten buffers lost, unsynced contents torn), disk full, I/O error or '
        'interrupt at a file operation, interrupts at any source line of the driver and of the archive writer, errors in an experiment run; afterwards the '
        'results file is loaded and compared with the runs known to be saved; non-trivial: the fault fired')
MEASURE = 'distinct (fault kind, operation or function hit, runs completed, runs saved, number of runs) combinations'
ASSUMPTIONS = ['renames survive a power cut once made (ordered metadata); file contents survive it only if synced',
               'a save counts as finished once the driver goes on to the next run or returns']
REAL = 'experiments/single_experiment.py (main, save, interrupt handling), numpy and zipfile archive writing, the file system below it'
STUB = 'train_and_eval of a run (returns seeded result arrays, may raise); clock; raw file writes, fsync, rename, mkdir behind the simulated disk'
REQUIRED_PROBES = ['clean', 'crash', 'power', 'enospc', 'eio', 'interrupt-op', 'interrupt-line', 'run-fails', 'again', 'crash-line', 'two-interrupts', 'some-saved', 'short']
NAMES = ('avg_correct', 'avg_ranks', 'ranks', 'estimated_scores', 'real_scores', 'score_diff', 'spearmans', 'pearsons', 'rhos', 'query_type_is_abs', 'query_is_correct')
DRIVER = None


def generate(rng, i):
    runs = rng.choice([1, 2, 2, 3, 3, 4, 5])
    k = rng.choice(['clean', 'crash', 'crash', 'power', 'enospc', 'enospc', 'eio', 'interrupt', 'interrupt', 'short', 'memory', 'train', 'train', 'iline', 'iline', 'iline', 'cline', 'again'])
    if k == 'clean' and rng.random() < 0.6:
        k = 'iline'
    c = dict(kind=k, runs=runs, short=rng.random() < 0.85, dir=rng.choice(['exp/', 'exp/', '', 'exp']), vs=rng.getrandbits(24), nan=rng.random() < 0.2,
             frac=rng.random(), frac2=rng.random(), stays=rng.random() < 0.7, two=rng.random() < 0.25,
             exc=rng.choice(['ValueError', 'KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError', 'SystemExit', 'OSError', 'LinAlgError']), trun=rng.randrange(runs))
    if k == 'again':
        c['dir'] = 'exp/'
    return c


def rows(case, j, nt, ne, attempt=0):
    """The results of experiment run j (a tuple as train_and_eval returns it)."""
    rs = np.random.RandomState((case['vs'] * 31 + j * 7 + attempt * 1009) % 2 ** 31)
    a1 = lambda: rs.random_sample(nt + 1)
    a2 = lambda: rs.random_sample((nt + 1, ne))
    t = [a1(), a1(), a2(), a2(), a2(), a2(), np.round(a1()), a1(), a2(), a2(), a2()]
    if case['nan']:
        t[0][0] = np.nan
        t[8][0, 0] = np.inf
    return t


# where the driver puts the parts of the tuple
ORDER = dict(avg_correct=0, avg_ranks=1, ranks=2, estimated_scores=3, real_scores=4, score_diff=5, query_type_is_abs=6, query_is_correct=7, spearmans=8, pearsons=9, rhos=10)


def driver():
    """The real driver module, with the packages it cannot have here stood in for."""
    global DRIVER
    if DRIVER is None:
        fake = types.ModuleType('experiment_helper')
        fake.train_and_eval = None
        old = sys.modules.get('experiment_helper')
        sys.modules['experiment_helper'] = fake
        p = os.path.join(boot.REPO, 'experiments', 'single_experiment.py')
        spec = importlib.util.spec_from_file_location('single_experiment_under_test', p)
        m = importlib.util.module_from_spec(spec)
        try:
            spec.loader.exec_module(m)
        finally:
            if old is None:
                del sys.modules['experiment_helper']
            else:
                sys.modules['experiment_helper'] = old
        import tqdm
        tqdm.tqdm.monitor_interval = 0
        DRIVER = m
    return DRIVER


EXC = dict(ValueError=ValueError, KeyboardInterrupt=KeyboardInterrupt, MemoryError=MemoryError, SystemExit=SystemExit, OSError=OSError, LinAlgError=np.linalg.LinAlgError)


def body(case, root, fault, lines, attempt, fail_train):
    """What the simulated process does."""
    m = driver()

    def run(emit):
        import time
        d = disk.Disk(fault, random.Random(case['vs'] + attempt), emit, root)
        count = [0]
        started = []

        def train_and_eval(*a, **k):
            j = len(started)
            started.append(j)
            emit(dict(e='start', j=j))
            d.op('train')
            nt, ne = k.get('num_train'), k.get('num_eval')
            if fail_train is not None and fail_train == j:
                emit(dict(e='fault', kind=case['exc'], at='train', n=j))
                raise EXC[case['exc']]('simulated')
            emit(dict(e='done', j=j, nt=nt, ne=ne))
            return tuple(rows(case, j, nt, ne, attempt)) + ({'paths': j},)

        m.train_and_eval = train_and_eval
        m.plan_header = ''
        m.time = types.SimpleNamespace(localtime=lambda *a: time.gmtime(1.6e9), strftime=time.strftime, time=lambda: 1.6e9)
        argv = ['single_experiment.py', '--num_runs', str(case['runs'])]
        if case['dir']:
            argv += ['--dir', case['dir']]
        if case['short']:
            argv += ['--test_experiment', '1']
        sys.argv = argv
        d.install()
        tr = None
        if lines is not None:
            import zipfile
            prefixes = [os.path.join(boot.REPO, 'experiments') + os.sep, zipfile.__file__, os.path.join(os.path.dirname(np.__file__), 'lib', 'npyio.py'),
                        os.path.join(os.path.dirname(np.__file__), 'lib', 'format.py')]
            if os.path.basename(zipfile.__file__) == '__init__.py':
                prefixes[1] = os.path.dirname(zipfile.__file__) + os.sep

            def act(i, where):
                if lines['act'] == 'crash':
                    d.crash(where, lines.get('power', False))
                emit(dict(e='fault', kind='KeyboardInterrupt', at=where, n=i))
                raise KeyboardInterrupt()
            tr = disk.Lines(prefixes, set(lines['at']), act)
            sys.settrace(tr._global)
        code = 0
        try:
            m.main()
            how = 'returned'
        except SystemExit:
            how = 'exit'
        except BaseException as e:
            how = type(e).__name__
        finally:
            sys.settrace(None)
        d.fault = {}
        d.full = False
        emit(dict(e='end', how=how, ops=d.names if not fault else 0, lines=tr.files if tr and not lines['at'] else 0))
        # what a process does when it ends by itself
        import gc
        gc.collect()
        return code
    return run


def spawn(case, root, ctx, fault={}, lines=None, attempt=0, fail_train=None):
    ev, st = disk.fork(body(case, root, fault, lines, attempt, fail_train), root)
    for e in ev:
        if e['e'] == 'harness':
            raise RuntimeError('simulated process: ' + e['what'])
        if ctx is not None and e['e'] in ('fault', 'crash'):
            ctx.nontrivial = True
    if st not in (0, disk.CRASH):
        raise RuntimeError('the simulated process ended with status %s' % st)
    return ev


SIZES = {}


def place(names, frac, frac2):
    """Every kind of operation is equally likely to be hit."""
    kinds = sorted(set(names))
    k = kinds[int(frac * len(kinds))]
    at = [i for i, n in enumerate(names) if n == k]
    return at[int(frac2 * len(at))]


def size(case):
    """The operations and lines of a fault-free execution."""
    k = (case['runs'], case['short'], case['dir'])
    if k not in SIZES:
        t = tempfile.mkdtemp(prefix='lopsim_')
        try:
            os.mkdir(os.path.join(t, 'results'))
            ev = spawn(case, t, None)
            ops = ev[-1]['ops']
            shutil.rmtree(t)
            os.mkdir(t)
            os.mkdir(os.path.join(t, 'results'))
            ev = spawn(case, t, None, lines=dict(act='none', at=[]))
            SIZES[k] = (ops, ev[-1]['lines'])
        finally:
            shutil.rmtree(t, ignore_errors=True)
    return SIZES[k]


def execute(case, ctx):
    root = os.path.realpath(tempfile.mkdtemp(prefix='lopsim_'))
    try:
        os.mkdir(os.path.join(root, 'results'))
        run(case, ctx, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def run(case, ctx, root):
    k = case['kind']
    fault, lines, ft = {}, None, None
    if k in ('crash', 'power', 'enospc', 'eio', 'interrupt', 'short', 'memory'):
        ops, _ = size(case)
        fault = dict(kind=k, at=place(ops, case['frac'], case['frac2']), stays=case['stays'])
        ctx.probe('interrupt-op' if k == 'interrupt' else k)
    elif k in ('iline', 'cline'):
        _, nl = size(case)
        at = [place(nl, case['frac'], case['frac2'])]
        if k == 'iline' and case['two']:
            at.append(at[0] + 1 + int(case['frac2'] * 997 % 60))
            ctx.probe('two-interrupts')
        lines = dict(act='crash' if k == 'cline' else 'interrupt', at=at, power=case['two'])
        ctx.probe('interrupt-line' if k == 'iline' else 'crash-line')
    elif k == 'train':
        ft = case['trun']
        ctx.probe('run-fails')
    else:
        ctx.probe('clean')
    ev = spawn(case, root, ctx, fault, lines, 0, ft)
    n = judge(case, ctx, root, ev, 0)
    if k == 'again':
        # the same folder again: what is there already must stay
        ctx.probe('again')
        ctx.nontrivial = True
        f = results(root)
        ev2 = spawn(case, root, ctx, {}, None, 1)
        g = results(root)
        same = {a: open(a, 'rb').read() for a in g} if g else {}
        got = load(g[0]) if g else None
        if not any(e['e'] == 'start' for e in ev2):
            want = expect(case, ev, 0, case['runs'])
            ctx.check(got is not None and not isinstance(got, str) and equal(got, want, case['runs']),
                      'an experiment that did not start (%s) destroyed the results in its folder' % ev2[-1].get('how'), 'results-lost')
        else:
            # it ran: its own results or both
            judge(dict(case), ctx, root, ev2, 1)
    ctx.state(k, [e.get('at') for e in ev if e['e'] in ('fault', 'crash')], n, case['runs'])


def results(root):
    return [p for p in glob.glob(os.path.join(root, 'results', '**', '*train_data.npz'), recursive=True)]


def load(p):
    try:
        with np.load(p, allow_pickle=False) as z:
            return {n: z[n] for n in z.files}
    except Exception as e:
        return '%s: %s' % (type(e).__name__, str(e)[:150])


def expect(case, ev, attempt, n):
    d = [e for e in ev if e['e'] == 'done'][:n]
    out = {}
    R = [rows(case, e['j'], e['nt'], e['ne'], attempt) for e in d]
    for name, pos in ORDER.items():
        out[name] = [r[pos] for r in R]
    return out


def equal(got, want, n):
    for name in NAMES:
        if name not in got or len(got[name]) != n:
            return False
        for a, b in zip(got[name], want[name]):
            if a.shape != b.shape or not np.array_equal(a, b, equal_nan=True):
                return False
    return True


def judge(case, ctx, root, ev, attempt):
    starts = sum(e['e'] == 'start' for e in ev)
    done = sum(e['e'] == 'done' for e in ev)
    end = next((e for e in ev if e['e'] == 'end'), None)
    how = end['how'] if end else 'crashed'
    saved = done if how == 'returned' else max(0, starts - 1)
    hits = ['%s at %s %d' % (e.get('kind', 'power cut' if e.get('power') else 'crash'), e['at'], e['n']) for e in ev if e['e'] in ('fault', 'crash')]
    for e in ev:
        if e['e'] in ('fault', 'crash'):
            ctx.fault('%s@%s' % (e.get('kind', 'power' if e.get('power') else 'crash'), e['at'].split(':')[0]))
    ctx.log(case['kind'], hits, how, starts, done)
    what = '%d experiment runs, %s: driver %s after %d completed and %d saved runs' % (case['runs'], ', '.join(hits) or 'no fault', how, done, saved)
    f = results(root)
    if saved:
        ctx.probe('some-saved')
    if how == 'returned':
        ctx.check(done == case['runs'], '%s: the driver returned' % what, 'unfinished')
    if not f:
        ctx.check(saved == 0, '%s, but there is no results file' % what, 'results-lost')
        ctx.log('no file')
        return 0
    ctx.check(len(f) == 1, '%s: several results files %s' % (what, [os.path.relpath(p, root) for p in f]), 'results-lost')
    got = load(f[0])
    ctx.check(not isinstance(got, str), '%s, but the results file cannot be loaded (%s)' % (what, got), 'not-loadable')
    for name in NAMES:
        ctx.check(name in got, '%s: the results file holds no %s' % (what, name), 'not-complete')
    n = {len(got[name]) for name in NAMES}
    ctx.check(len(n) == 1, '%s: the parts of the results file hold %s rows' % (what, {k: len(got[k]) for k in NAMES}), 'not-complete')
    n = n.pop()
    ctx.log('rows', n)
    ctx.check(n >= saved, '%s, but the results file holds %d' % (what, n), 'results-lost')
    ctx.check(n <= done, '%s: the results file holds rows for %d runs' % (what, n), 'incomplete-row')
    want = expect(case, ev, attempt, n)
    for name in NAMES:
        for j in range(n):
            a, b = got[name][j], want[name][j]
            ctx.check(a.shape == b.shape and np.array_equal(a, b, equal_nan=True), '%s: %s of run %d in the results file is not what the run returned' % (what, name, j), 'wrong-row')
    return n


def warmup():
    driver()


def simplify(case):
    for k, v in (('runs', case['runs'] - 1), ('dir', 'exp/'), ('two', False), ('nan', False), ('short', True)):
        if case[k] != v and v:
            yield dict(case, **{k: v}, **({'trun': min(case['trun'], v - 1)} if k == 'runs' else {}))
