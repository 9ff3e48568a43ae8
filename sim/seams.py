"""Everything the library reaches the outside world, or chance, through.

Installed before lop is imported, because lop binds some of these as default
arguments or by-name imports. Nothing in /repo is changed."""
import builtins, contextlib, os, random, sys, types
import numpy as np

SRC = None                    # prefix of the library's source files
WINDOW = None                 # active numerical-fault window
POOL = None                   # active simulated worker pool
HANG = []                     # debugger / stdin reached (text of where)
CLOCK = None


class SimHang(BaseException):
    """The code under test stopped to wait for a human."""


class Window:
    """Counts calls through the wrapped routines; raises at chosen ones.

    fire: dict index -> exception factory; index counts calls in this window
    (of the seams in `names` only)."""

    def __init__(self, ctx=None, names=None, fire=None, sink=None, decide=None):
        self.decide = decide         # (index, name) -> exception factory or None
        self.n = 0
        self.names = names
        self.fire = fire or {}
        self.fired = []
        self.ctx = ctx
        self.sink = sink

    def hit(self, name):
        if self.names is not None and name not in self.names:
            return
        i = self.n
        self.n += 1
        f = self.fire.get(i) if self.decide is None else self.decide(i, name)
        if f is not None:
            self.fired.append((i, name))
            if isinstance(f, str):
                if self.ctx is not None:
                    self.ctx.fault('%s@%s' % (f, name))
                return f
            if self.ctx is not None:
                self.ctx.fault('%s@%s' % (f.__name__, name))
            raise f('injected at %s call %d' % (name, i))


@contextlib.contextmanager
def window(w):
    global WINDOW
    old, WINDOW = WINDOW, w
    try:
        yield w
    finally:
        WINDOW = old


def spoil(r, how):
    """What a numerical routine returns when it breaks down without an error."""
    if isinstance(r, tuple):
        return tuple(spoil(x, how) for x in r)
    if isinstance(r, (float, np.floating)) or (isinstance(r, np.ndarray) and r.dtype.kind == 'f'):
        return r * dict(nan=np.nan, inf=np.inf, huge=1e150, zero=0.0)[how]
    return r


def _wrap(name, orig):
    def seam(*a, **k):
        if WINDOW is not None:
            how = WINDOW.hit(name)
            if how is not None:
                return spoil(orig(*a, **k), how)
        return orig(*a, **k)
    seam.__name__ = name
    seam.__wrapped__ = orig
    return seam


def _hang(name):
    def f(*a, **k):
        fr = sys._getframe(1)
        HANG.append('%s reached from %s:%s' % (name, os.path.basename(fr.f_code.co_filename), fr.f_code.co_name))
        raise SimHang(HANG[-1])
    return f


class _Stdin:
    """Standard input on which nobody ever types."""
    encoding = 'utf-8'
    def readline(self, *a): _hang('stdin')()
    def read(self, *a): _hang('stdin')()
    def __iter__(self): return self
    def __next__(self): _hang('stdin')()
    def fileno(self): raise OSError('no stdin')
    def isatty(self): return False


class Pool:
    """In-process stand-in for quad_vec's multiprocessing pool: a batch of
    work items is executed in a seeded completion order, results come back in
    submission order (as multiprocessing's map does). `fail` names the items
    (counted over the pool's life) on which the worker dies."""

    def __init__(self, rng=None, fail=(), ctx=None):
        self.rng, self.fail, self.ctx = rng, set(fail), ctx
        self.n = 0
        self.batches = 0

    def map(self, f, items):
        items = list(items)
        order = list(range(len(items)))
        if self.rng is not None:
            self.rng.shuffle(order)
        out = [None] * len(items)
        self.batches += 1
        for i in order:
            if WINDOW is not None:
                WINDOW.hit('quad_worker')
            if self.n in self.fail:
                self.n += 1
                if self.ctx is not None:
                    self.ctx.fault('worker_death')
                raise OSError('simulated worker died')
            self.n += 1
            out[i] = f(items[i])
        return out


@contextlib.contextmanager
def pool(p):
    global POOL
    old, POOL = POOL, p
    try:
        yield p
    finally:
        POOL = old


LA_NAMES = ('cholesky', 'inv', 'pinv', 'det', 'solve', 'cho_solve', 'slogdet', 'lstsq')


def install(src):
    global SRC
    SRC = os.path.abspath(src) + os.sep
    if getattr(np, '_lop_sim', False):
        return
    np._lop_sim = True
    for n in ('cholesky', 'inv', 'pinv', 'det', 'solve', 'slogdet', 'lstsq', 'eigh', 'eigvalsh', 'svd'):
        setattr(np.linalg, n, _wrap(n, getattr(np.linalg, n)))
    import scipy.linalg
    for n in ('cho_solve', 'cholesky', 'cho_factor', 'solve', 'inv', 'pinv', 'solve_triangular'):
        setattr(scipy.linalg, n, _wrap(n, getattr(scipy.linalg, n)))
    np.save = _wrap('save', np.save)

    import scipy.integrate as si
    orig_quad = si.quad_vec
    def quad_vec(f, a, b, *args, **k):
        w = k.get('workers', 1)
        if not callable(w) and w != 1:
            p = POOL if POOL is not None else Pool()
            k['workers'] = p.map
        return orig_quad(f, a, b, *args, **k)
    si.quad_vec = quad_vec

    import pdb
    for n in ('set_trace', 'post_mortem', 'pm', 'run', 'runcall'):
        setattr(pdb, n, _hang('pdb.' + n))
    pdb.Pdb.set_trace = _hang('pdb.Pdb.set_trace')
    builtins.input = _hang('input')
    builtins.breakpoint = _hang('breakpoint')
    sys.breakpointhook = _hang('breakpoint')

    # approxcdf is not installed here: the harness supplies the one function
    # lop.utilities.calc_cdf needs (an independent-normal approximation that is
    # deterministic), so that learners built on it can run at all.
    if 'approxcdf' not in sys.modules:
        try:
            import approxcdf  # noqa
        except ImportError:
            import scipy.special as spec
            m = types.ModuleType('approxcdf')
            def mvn_cdf(q, cov):
                sd = np.sqrt(np.maximum(np.diagonal(cov), 1e-12))
                return float(np.prod(spec.ndtr(np.asarray(q) / sd)))
            m.mvn_cdf = mvn_cdf
            sys.modules['approxcdf'] = m


# ---------------------------------------------------------------- allocation
ALLOC = ('append', 'array', 'asarray', 'copy', 'concatenate', 'vstack', 'hstack', 'stack',
         'column_stack', 'zeros', 'ones', 'empty', 'full', 'where', 'arange', 'repeat',
         'tile', 'clip', 'delete', 'minimum', 'maximum', 'all', 'any')


@contextlib.contextmanager
def alloc_window(w):
    """While open, array-building numpy functions called from library source
    count as allocation points of window w. (Only opened around `add`; compiled
    numba code resolves numpy at compile time and must not see the wrappers.)"""
    saved = {}
    def mk(name, orig):
        def f(*a, **k):
            if sys._getframe(1).f_code.co_filename.startswith(SRC):
                w.hit('alloc:' + name)
            return orig(*a, **k)
        return f
    for n in ALLOC:
        o = getattr(np, n)
        if isinstance(o, np.ufunc) or isinstance(o, type):
            continue
        saved[n] = o
        setattr(np, n, mk(n, o))
    try:
        yield w
    finally:
        for n, o in saved.items():
            setattr(np, n, o)


# ---------------------------------------------------------------- line events
class LineTrap:
    """Counts executed source lines of the library; raises `exc` before the
    k-th (0-based). k=None only counts."""

    def __init__(self, k=None, exc=KeyboardInterrupt, ctx=None, prefix=None):
        self.k, self.exc, self.ctx = k, exc, ctx
        self.n = 0
        self.where = None
        self.prefix = prefix or SRC

    def _local(self, frame, event, arg):
        if event == 'line':
            i = self.n
            self.n += 1
            if i == self.k:
                self.where = '%s:%s:%d' % (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name, frame.f_lineno)
                if self.ctx is not None:
                    self.ctx.fault(self.exc.__name__ + '@line')
                raise self.exc('injected')
        return self._local

    def _global(self, frame, event, arg):
        if event == 'call' and frame.f_code.co_filename.startswith(self.prefix):
            return self._local
        return None

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


# ---------------------------------------------------------------- randomness
def rng_state():
    return (np.random.get_state(), random.getstate())


def set_rng_state(s):
    np.random.set_state(s[0])
    random.setstate(s[1])


def rng_fingerprint():
    s = np.random.get_state()
    return (s[1].tobytes(), s[2], s[3], s[4], random.getstate())


def seed_all(n):
    np.random.seed(n % (2 ** 32))
    random.seed(n)


@contextlib.contextmanager
def frozen_draws(value):
    """Every uniform draw in [0,1) returns the same legal number: the start of
    a mode search no longer depends on the order of the points."""
    val = float(value)
    def flat(size=None):
        return val if size is None else np.full(size, val)
    saved = {}
    repl = {
        'random': flat, 'random_sample': flat, 'ranf': flat, 'sample': flat,
        'rand': lambda *s: flat(s if s else None),
        'uniform': lambda low=0.0, high=1.0, size=None: low + (high - low) * flat(size),
    }
    for n, f in repl.items():
        if hasattr(np.random, n):
            saved[n] = getattr(np.random, n)
            setattr(np.random, n, f)
    try:
        yield
    finally:
        for n, f in saved.items():
            setattr(np.random, n, f)
