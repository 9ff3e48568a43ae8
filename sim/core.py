"""Seeded runs: execution, judging, minimising, replay files, evidence."""
import collections, hashlib, io, json, os, random, signal, subprocess, sys, time, traceback
import numpy as np
from sim import boot, seams


class Violation(Exception):
    def __init__(self, what, key=None, **details):
        super().__init__(what)
        self.what = what
        self.key = key or what.split(':')[0]
        self.details = details


class SimTimeout(BaseException):
    pass


class Reject(Exception):
    """The generated case turned out not to be meaningful (counted)."""


CPU_LIMIT = float(os.environ.get('SIM_CASE_CPU', '90'))


def derive(*parts):
    h = hashlib.sha256('/'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:6], 'big')


def enc(x):
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (set, frozenset)):
        return sorted(x)
    if isinstance(x, tuple):
        return list(x)
    return str(x)


def dig(x, h):
    """Feeds a value into a hash, bit-exact for floats."""
    if isinstance(x, np.ndarray):
        h.update(str((x.dtype.kind, x.shape)).encode())
        if x.dtype.kind in 'fiub':
            h.update(np.ascontiguousarray(x).tobytes())
        else:
            h.update(repr(x.tolist()).encode())
    elif isinstance(x, (list, tuple)):
        h.update(b'[')
        for v in x:
            dig(v, h)
        h.update(b']')
    elif isinstance(x, dict):
        for k in sorted(x, key=str):
            h.update(str(k).encode())
            dig(x[k], h)
    elif isinstance(x, (float, np.floating)):
        h.update(np.float64(x).tobytes())
    else:
        h.update(repr(x).encode())


class Ctx:
    def __init__(self, case, verbose=False):
        self.case = case
        self.h = hashlib.sha256()
        self.lines = []
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.states = set()
        self.steps = 0
        self.nontrivial = False
        self.verbose = verbose

    def log(self, *vals):
        """Records an event. Never draws randomness."""
        dig(vals, self.h)
        self.steps += 1
        if len(self.lines) < 400:
            self.lines.append(' '.join(_short(v) for v in vals))

    def fault(self, kind, n=1):
        self.faults[kind] += n
        self.nontrivial = True

    def probe(self, name, n=1):
        self.probes[name] += n

    def state(self, *vals):
        h = hashlib.sha256()
        dig(vals, h)
        self.states.add(int.from_bytes(h.digest()[:7], 'big'))

    def check(self, ok, what, key=None, **details):
        if not ok:
            raise Violation(what, key, **details)


def _short(v):
    if isinstance(v, np.ndarray):
        return 'array%s%s' % (v.shape, np.array2string(v.ravel()[:4], precision=4))
    s = repr(v)
    return s if len(s) < 160 else s[:157] + '...'


class Outcome:
    __slots__ = ('kind', 'what', 'key', 'details', 'digest', 'ctx', 'tb')

    def __init__(self, kind, ctx, what=None, key=None, details=None, tb=None):
        self.kind, self.ctx, self.what, self.key, self.details, self.tb = kind, ctx, what, key, details, tb
        self.digest = ctx.h.hexdigest()


def _alarm(*a):
    raise SimTimeout('case exceeded %s s of processor time' % CPU_LIMIT)


def _in_lib(tb):
    """Was the exception raised by (or below) library code, rather than by the
    harness calling it wrongly?"""
    fr = traceback.extract_tb(tb)
    prop_dir = os.path.join(boot.VERIF, 'sim') + os.sep
    last = None
    for f in fr:
        if f.filename.startswith(seams.SRC) or f.filename.startswith(os.path.join(boot.REPO, 'experiments')):
            last = 'lib'
        elif f.filename.startswith(prop_dir) and not f.filename.endswith('seams.py'):
            last = 'sim'
    return last == 'lib'


def run_case(prop, case, verbose=False):
    """Executes one case. -> Outcome kind: ok | reject | violation | error"""
    ctx = Ctx(case, verbose)
    seams.WINDOW = None
    seams.POOL = None
    del seams.HANG[:]
    seams.seed_all(case['rng'])
    out = None
    so, se, si = sys.stdout, sys.stderr, sys.stdin
    sys.stdin = seams._Stdin()
    if not verbose:
        sys.stdout = _NULL
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, getattr(prop, 'CPU_LIMIT', CPU_LIMIT))
    try:
        prop.execute(case, ctx)
        out = Outcome('ok', ctx)
    except Reject as e:
        out = Outcome('reject', ctx, str(e))
    except Violation as v:
        out = Outcome('violation', ctx, v.what, v.key, v.details)
    except SimTimeout as e:
        out = Outcome('violation' if getattr(prop, 'BOUNDED', False) else 'error', ctx,
                      'does not end: ' + str(e), 'no-progress', tb=traceback.format_exc())
    except seams.SimHang as e:
        out = Outcome('violation', ctx, 'stopped in a debugger or waited for input: ' + str(e), 'hang')
    except BaseException as e:
        tb = traceback.format_exc()
        if _in_lib(e.__traceback__):
            out = Outcome('violation', ctx, 'unexpected %s from a valid call: %s' % (type(e).__name__, str(e)[:200]),
                          'unexpected-' + type(e).__name__, dict(traceback=tb.splitlines()[-8:]))
        else:
            out = Outcome('error', ctx, '%s: %s' % (type(e).__name__, e), tb=tb)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        sys.settrace(None)
        sys.stdout, sys.stderr, sys.stdin = so, se, si
        seams.WINDOW = None
        seams.POOL = None
    return out


_NULL = open(os.devnull, 'w')


# --------------------------------------------- runs stuck inside native code
# The processor-time alarm of a run is delivered between two byte codes, so a
# native routine which never returns has to be ended from another process.
STUCK = 'never returns from a native routine'
STUCK_KEY = 'no-progress-native'


def cpu_limit(prop):
    return getattr(prop, 'CPU_LIMIT', CPU_LIMIT)


def cpu_of(pid):
    """processor seconds used by another process"""
    try:
        f = open('/proc/%d/stat' % pid).read().rsplit(')', 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError, ValueError):
        return 0.0


def stuck(prop, case, lines=()):
    ctx = Ctx(case, False)
    for l in lines:
        ctx.lines.append(l)
    return Outcome('violation' if getattr(prop, 'BOUNDED', False) else 'error', ctx, STUCK, STUCK_KEY)


def run_isolated(prop, case, limit):
    """Runs a case in a child process; -> its outcome, or that it is stuck"""
    import multiprocessing as mp
    mpc = mp.get_context('fork')
    r, w = mpc.Pipe(False)

    def child():
        import faulthandler
        tb = open('stack.txt', 'w')
        faulthandler.dump_traceback_later(max(limit - 5, 1), file=tb)
        o = run_case(prop, case)
        faulthandler.cancel_dump_traceback_later()
        w.send((o.kind, o.what, o.key, o.details, o.tb, o.digest, o.ctx.lines))
    p = mpc.Process(target=child)
    p.start()
    w.close()
    t0 = time.time()
    try:
        while not r.poll(0.05):
            if cpu_of(p.pid) > limit or time.time() - t0 > 5 * limit:
                p.kill()
                p.join()
                o = stuck(prop, case)
                if os.path.exists('stack.txt'):
                    o.details = dict(stack=[l.strip() for l in open('stack.txt').read().splitlines() if SRCS(l)][:12])
                return o
        kind, what, key, details, tb, digest, lines = r.recv()
    except EOFError:
        p.join()
        return Outcome('error', Ctx(case, False), 'the process of the run ended with status %s' % p.exitcode)
    finally:
        r.close()
    p.join()
    ctx = Ctx(case, False)
    ctx.lines[:] = lines
    o = Outcome(kind, ctx, what, key, details, tb)
    o.digest = digest
    return o


def SRCS(l):
    return seams.SRC in l or 'numpy' in l or 'scipy' in l


# ------------------------------------------------------------------ minimiser
def _list_keys(case):
    return [k for k in ('faults', 'ops', 'tail', 'items') if isinstance(case.get(k), list)]


def minimise(prop, case, key, budget_s=60.0, max_exec=250):
    """Delta-debugs the list parts of a case, then the module's own
    simplifications, keeping the same violation key."""
    t0 = time.time()
    n = [0]
    best = case

    def fails(c):
        if n[0] >= max_exec or time.time() - t0 > budget_s:
            return False
        n[0] += 1
        try:
            o = run_isolated(prop, c, 20 if key == STUCK_KEY else cpu_limit(prop) + 30) if getattr(prop, 'BOUNDED', False) or key == STUCK_KEY else run_case(prop, c)
        except BaseException:
            return False
        return o.kind == 'violation' and o.key == key

    changed = True
    while changed and n[0] < max_exec and time.time() - t0 < budget_s:
        changed = False
        for k in _list_keys(best):
            size = max(1, len(best[k]) // 2)
            while size >= 1:
                i = 0
                while i < len(best[k]):
                    c = json.loads(json.dumps(best, default=enc))
                    del c[k][i:i + size]
                    if fails(c):
                        best = c
                        changed = True
                    else:
                        i += size
                size //= 2
        if hasattr(prop, 'simplify'):
            for c in prop.simplify(json.loads(json.dumps(best, default=enc))):
                if c != best and fails(c):
                    best = c
                    changed = True
                    break
    return best, n[0]


# --------------------------------------------------------------------- worker
def case_for(prop, seed, i):
    cs = derive(seed, prop.ID, i)
    rng = random.Random(cs)
    case = prop.generate(rng, i)
    case.setdefault('rng', rng.getrandbits(31))
    case['index'] = i
    case['seed'] = seed
    # what is executed is exactly what a replay file would hold
    return json.loads(json.dumps(case, default=enc))
