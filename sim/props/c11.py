"""C11: independent sessions in one process do not affect each other."""
import copy, random
import numpy as np
from sim import lopsys as L, seams, learn, session, sched, core
from sim.core import Violation, Reject
from sim.props.c10 import digest, differ

ID = 'C11'
RUNS = {'quick': 700, 'thorough': 40000}
RULE = ('one run = two to four sessions, each with its own model, kernel, learner, user and random stream, executed alone and then interleaved by a seeded '
        'scheduler that switches between steps, or before any source line of the library; transcripts must be bit-identical; non-trivial: '
        'at least two switches while more than one session was live')
MEASURE = 'distinct (set of learners and models, mode, switch sequence) combinations'
ASSUMPTIONS = ['sessions share nothing but the process: no model, learner, kernel, user or array is passed to two of them']
REQUIRED_PROBES = ['steps', 'lines', 'same-kind', 'defaults', 'hyper']


def gen_one(rng, light):
    s = session.gen_session(rng, steps=rng.randint(2, 4), light=light, hyper=0.05)
    if rng.random() < 0.3:
        # constructed with the defaults of the library where possible
        s['spec'] = learn.plain(s['spec'])
    return s


def generate(rng, i):
    mode = 'lines' if rng.random() < 0.4 else 'steps'
    n = rng.choice([2, 2, 2, 3, 4])
    items = []
    for j in range(n):
        if items and rng.random() < 0.5:
            # of the same kind as another, with other parameters, data and answers
            s = gen_one(rng, mode == 'lines')
            o = items[-1]['s']
            t = copy.deepcopy(o)
            t['ops'] = s['ops'] if s['d'] == o['d'] and s['model']['type'] == o['model']['type'] else t['ops']
            t['user'] = dict(s['user'], fake=o['user']['fake'])
            if t['model'].get('kern', {}).get('k') == 'rbf':
                t['model']['kern'] = L.gen_rbf(rng)
            if t['model']['type'] != 'gp':
                t['model']['sigma'] = rng.choice([0.3, 0.7, 1.0])
            # (a query fits its own candidates only)
            s = t
        else:
            s = gen_one(rng, mode == 'lines')
        items.append(dict(s=s, seed=rng.getrandbits(30)))
    return dict(mode=mode, items=items, order=[rng.randrange(n) for _ in range(40)], mean=rng.choice([3, 20, 100, 500]), sw=rng.getrandbits(30))


def states_of(case):
    out = []
    for it in case['items']:
        seams.seed_all(it['seed'])
        out.append(seams.rng_state())
    return out


def body(sess):
    sess.build()
    yield 'build'
    for x in sess.steps():
        yield x


def execute(case, ctx):
    items = case['items']
    if len(items) < 2:
        raise Reject('fewer than two sessions')
    states = states_of(case)
    alone = []
    for it, st in zip(items, states):
        seams.set_rng_state(st)
        with seams.pool(seams.Pool()):
            alone.append(session.Session(it['s']).run())
    ctx.probe(case['mode'])
    kinds = [it['s']['spec']['l'] for it in items]
    if len(set(kinds)) < len(kinds):
        ctx.probe('same-kind')
    if any(it['s']['spec'].get('plain') for it in items):
        ctx.probe('defaults')
    if any(e[0] == 'hyper' for t in alone for e in t):
        ctx.probe('hyper')
    sess = [session.Session(it['s']) for it in items]
    with seams.pool(seams.Pool()):
        if case['mode'] == 'steps':
            trail = sched.steps([body(s) for s in sess], [w for w in case['order'] if w < len(items)], states)
            sw = sum(a[0] != b[0] for a, b in zip(trail, trail[1:]))
            ctx.fault('switch@step', sw)
        else:
            r = random.Random(case['sw'])
            S = sched.Lines(r, case['mean'])
            ts = [S.add(s.run, st) for s, st in zip(sess, states)]
            S.run()
            for t in ts:
                if t.error is not None:
                    raise t.error
            trail, sw = S.trace, S.switches
            ctx.fault('switch@line', sw)
    ctx.nontrivial = sw >= 2
    ctx.state(kinds, [it['s']['model']['type'] for it in items], case['mode'], trail)
    ctx.log(case['mode'], sw, trail[:20], [digest(a) for a in alone])
    for j, (s, a) in enumerate(zip(sess, alone)):
        ctx.check(digest(s.out) == digest(a), 'session %d (%s, %s user) interleaved with %s by %s differs from running alone at %s'
                  % (j, kinds[j], items[j]['s']['user']['kind'], [k for i, k in enumerate(kinds) if i != j], case['mode'], differ(a, s.out)), 'interference')


def warmup():
    learn.warm()


def simplify(case):
    if case['mode'] == 'lines':
        yield dict(case, mode='steps')
    for j, it in enumerate(case['items']):
        for s in session.shrink(it['s']):
            c = dict(case, items=list(case['items']))
            c['items'][j] = dict(it, s=s)
            yield c
