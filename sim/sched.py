"""A seeded scheduler for several tasks inside one process. Exactly one task runs at a time; switches
happen between steps or, with tracing, before chosen source lines of the library. Every task
has its own random stream, swapped in and out with it."""
import sys, threading
from sim import seams


class Lines:
    """Runs callables as threads that hand a baton around at seeded line counts."""

    def __init__(self, rng, mean, ctx=None, trap_prefix=None):
        self.rng, self.mean, self.ctx = rng, mean, ctx
        self.tasks = []
        self.gap = 0
        self.switches = 0
        self.done = threading.Event()
        self.prefix = trap_prefix or seams.SRC
        self.trace = []

    def add(self, body, state):
        t = Task(self, body, state, len(self.tasks))
        self.tasks.append(t)
        return t

    def next_gap(self):
        self.gap = 1 + int(self.rng.expovariate(1.0 / self.mean))

    def run(self):
        for t in self.tasks:
            t.start()
        self.next_gap()
        self.hand(self.rng.choice(self.tasks))
        self.done.wait()
        for t in self.tasks:
            t.join()

    def hand(self, t):
        seams.set_rng_state(t.state)
        t.event.set()

    def switch(self, me, where):
        self.next_gap()
        live = [t for t in self.tasks if t.live]
        t = self.rng.choice(live)
        if t is me:
            return
        self.switches += 1
        if len(self.trace) < 60:
            self.trace.append((me.k, where, t.k))
        me.state = seams.rng_state()
        self.hand(t)
        me.event.wait()
        me.event.clear()

    def ended(self, me):
        me.live = False
        live = [t for t in self.tasks if t.live]
        if live:
            self.hand(self.rng.choice(live))
        else:
            self.done.set()


class Task(threading.Thread):
    def __init__(self, sched, body, state, k):
        super().__init__(daemon=True)
        self.sched, self.body, self.state, self.k = sched, body, state, k
        self.event = threading.Event()
        self.live = True
        self.error = self.result = None

    def _local(self, frame, event, arg):
        if event == 'line':
            s = self.sched
            s.gap -= 1
            if s.gap <= 0:
                s.switch(self, '%s:%d' % (frame.f_code.co_name, frame.f_lineno))
        return self._local

    def _global(self, frame, event, arg):
        if event == 'call' and frame.f_code.co_filename.startswith(self.sched.prefix) and frame.f_code.co_name != '<module>':
            return self._local
        return None

    def run(self):
        import numpy as np
        self.event.wait()
        self.event.clear()
        np.seterr(all='ignore')
        sys.settrace(self._global)
        try:
            self.result = self.body()
        except BaseException as e:
            self.error = e
        finally:
            sys.settrace(None)
            self.sched.ended(self)


def steps(sessions, order, states):
    """Interleaves generators step by step. order: which one moves next (skipped once finished)."""
    live = dict(enumerate(sessions))
    states = list(states)
    trail = []
    k = 0
    while live:
        w = order[k % len(order)] if order else 0
        k += 1
        if w not in live or k > 100000:
            w = sorted(live)[k % len(live)]
        seams.set_rng_state(states[w])
        try:
            trail.append((w, next(live[w])))
        except StopIteration:
            del live[w]
        states[w] = seams.rng_state()
    return trail
