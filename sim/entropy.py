"""Everything random or time-like that is not one of the two seeded generators,
replaced by streams that the simulator chooses."""
import contextlib, datetime, os, random, time, uuid
import hashlib


@contextlib.contextmanager
def environment(seed, ctx=None, start=None, rate=1.0, jump=0.0):
    """Operating-system entropy comes from a stream fixed by `seed`; clocks start anywhere, run at
    any rate and jump."""
    n = [0]

    def urandom(k):
        out = b''
        while len(out) < k:
            n[0] += 1
            if ctx is not None:
                ctx.probe('entropy')
            out += hashlib.sha256(('%s/%d' % (seed, n[0])).encode()).digest()
        return out[:k]

    r = random.Random(seed)
    base = start if start is not None else r.uniform(0, 4e9)
    t = [0.0]

    def now(*a):
        t[0] += rate * r.uniform(0, 1e-3)
        if r.random() < 0.05:
            t[0] += jump * r.uniform(-1, 1)
        return base + t[0]

    saved = []

    def put(o, name, v):
        if hasattr(o, name):
            saved.append((o, name, getattr(o, name)))
            setattr(o, name, v)

    put(os, 'urandom', urandom)
    put(random, '_urandom', urandom)
    for name in ('time', 'perf_counter', 'monotonic', 'process_time', 'thread_time'):
        put(time, name, now)
        put(time, name + '_ns', lambda *a: int(now() * 1e9))
    put(uuid, 'uuid4', lambda: uuid.UUID(bytes=urandom(16), version=4))
    put(uuid, 'uuid1', lambda *a, **k: uuid.UUID(bytes=urandom(16), version=1))
    put(os, 'getpid', lambda: 1000 + seed % 30000)

    # memory that was allocated and not written yet holds anything
    import sys
    import numpy as np
    from sim import seams
    g = np.random.RandomState(seed % 2 ** 31)

    def dirty(orig):
        def f(*a, **k):
            x = orig(*a, **k)
            if sys._getframe(1).f_code.co_filename.startswith(seams.SRC) and x.size and x.dtype.kind in 'fiu':
                if ctx is not None:
                    ctx.fault('uninitialised-memory')
                x[...] = g.randint(0, 100, size=x.shape) if x.dtype.kind != 'f' else g.choice([0.0, 1.0, -7.5, 1e9, np.nan], size=x.shape)
            return x
        return f
    put(np, 'empty', dirty(np.empty))
    put(np, 'empty_like', dirty(np.empty_like))

    class date_time(datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(now() % 4e9, tz)

        @classmethod
        def utcnow(cls):
            return cls.utcfromtimestamp(now() % 4e9)
    put(datetime, 'datetime', date_time)
    try:
        yield
    finally:
        for o, name, v in reversed(saved):
            setattr(o, name, v)
