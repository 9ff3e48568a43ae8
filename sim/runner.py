"""Runs a check: fans seeds out over worker processes, collects coverage,
minimises and confirms violations, writes the evidence file."""
import argparse, collections, importlib, json, multiprocessing as mp, os, queue, shutil, signal, subprocess, sys, tempfile, time, traceback
from sim import boot, core, seams

WALL = {'quick': 600.0, 'thorough': 3300.0}


def load_prop(pid):
    return importlib.import_module('sim.props.' + pid.lower())


def known_findings(pid):
    out = []
    p = os.path.join(boot.VERIF, 'known_findings.json')
    if os.path.exists(p):
        for k in json.load(open(p)).get('findings', []):
            if k['property'] == pid:
                out.append(k)
    return out


def _worker(prop, seed, w, nw, total, q, stop, deadline, first, now):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    scratch = tempfile.mkdtemp(prefix='lopsim_')
    os.chdir(scratch)
    try:
        for i in range(first, total, nw):
            if stop.value or time.time() > deadline:
                break
            t = time.time()
            now[3 * w:3 * w + 3] = [i, time.process_time(), t]
            case = core.case_for(prop, seed, i)
            o = core.run_case(prop, case)
            c = o.ctx
            q.put(('run', i, o.kind, o.what, o.key, o.digest, dict(c.faults), dict(c.probes), list(c.states),
                   c.steps, c.nontrivial, time.time() - t, o.tb))
            if o.kind == 'violation' and not any(core_match(k, o) for k in KNOWN):
                with stop.get_lock():
                    stop.value += 1
                break
    except BaseException:
        q.put(('dead', w, traceback.format_exc()))
    finally:
        now[3 * w] = -1
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
        q.put(('end', w))


KNOWN = []


def core_match(k, o):
    return k.get('key') == o.key and (not k.get('what') or k['what'] in (o.what or ''))


def run_replay(prop, path):
    rp = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix='lopsim_')
    cwd = os.getcwd()
    os.chdir(scratch)
    try:
        if rp['violation'].get('key') == core.STUCK_KEY:
            o = core.run_isolated(prop, rp['case'], core.cpu_limit(prop) + 30)
        else:
            o = core.run_case(prop, rp['case'])
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    return rp, o


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int, default=0)
    ap.add_argument('--replay')
    ap.add_argument('--case', type=int, help='run one case index, verbosely')
    ap.add_argument('--digests', help='write per-case log digests here (determinism self-test)')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args(argv)
    pid = a.property.upper()
    t0 = time.time()
    boot.load()
    prop = load_prop(pid)
    if hasattr(prop, 'warmup'):
        so, sys.stdout = sys.stdout, open(os.devnull, 'w')
        cwd = os.getcwd()
        sc = tempfile.mkdtemp(prefix='lopsim_')
        os.chdir(sc)
        try:
            prop.warmup()
        except BaseException as e:
            # the runs themselves will show what is wrong
            print('warm-up: %r' % e, file=sys.stderr)
        finally:
            os.chdir(cwd)
            shutil.rmtree(sc, ignore_errors=True)
            sys.stdout = so

    if a.replay:
        rp, o = run_replay(prop, a.replay)
        print('replay %s: %s %s' % (a.replay, o.kind, o.what or ''))
        for l in o.ctx.lines[-40:]:
            print('   ', l)
        if o.kind == 'violation':
            print('digest %s' % o.digest)
            print('VIOLATION property=%s replay=%s' % (pid, a.replay))
            return 1
        if o.kind == 'error':
            print(o.tb)
            return 2
        return 0

    if a.case is not None:
        case = core.case_for(prop, a.seed, a.case)
        print(json.dumps(case, default=core.enc)[:3000])
        o = core.run_case(prop, case)
        for l in o.ctx.lines:
            print('   ', l)
        print(o.kind, o.what, o.key, o.details, o.digest, dict(o.ctx.probes), dict(o.ctx.faults))
        if o.tb:
            print(o.tb)
        return {'ok': 0, 'reject': 0, 'violation': 1}.get(o.kind, 2)

    KNOWN[:] = known_findings(pid)
    total = a.runs or prop.RUNS[a.tier]
    nw = a.workers or min(8, os.cpu_count() or 1, max(1, total))
    deadline = t0 + WALL[a.tier]
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    stop = ctx.Value('i', 0)
    now = ctx.Array('d', [-1.0] * (3 * nw))      # what each worker is running, since when (processor time, wall time)
    start = lambda w, first: ctx.Process(target=_worker, args=(prop, a.seed, w, nw, total, q, stop, deadline, first, now))
    ps = [start(w, w) for w in range(nw)]
    for p in ps:
        p.start()
    alive = set(range(nw))
    res = {}
    dead = []
    looked = time.time()
    faults, probes = collections.Counter(), collections.Counter()
    states = set()
    steps = 0
    while alive:
        try:
            m = q.get(timeout=5)
        except queue.Empty:
            m = None
        if time.time() - looked > 5:
            looked = time.time()
            for w in list(alive):
                i, cpu, since = now[3 * w:3 * w + 3]
                if i >= 0 and ps[w].is_alive() and (core.cpu_of(ps[w].pid) - cpu > core.cpu_limit(prop) + 30 or time.time() - since > 400):
                    # a native routine which never returns
                    with now.get_lock():
                        ps[w].kill()
                    ps[w].join()
                    i = int(i)
                    if i in res:
                        continue
                    o = core.stuck(prop, core.case_for(prop, a.seed, i))
                    res[i] = (o.kind, o.what, o.key, o.digest, False, time.time() - since, None)
                    if o.kind == 'violation' and not any(core_match(k, o) for k in KNOWN):
                        stop.value += 1
                        alive.discard(w)
                    else:
                        now[3 * w] = -1
                        ps[w] = start(w, i + nw)
                        ps[w].start()
        if m is None:
            for w in list(alive):
                if not ps[w].is_alive() and q.empty():
                    alive.discard(w)
                    dead.append('worker %d ended with status %s' % (w, ps[w].exitcode))
        elif m[0] == 'end':
            alive.discard(m[1])
        elif m[0] == 'dead':
            dead.append(m[2])
        else:
            _, i, kind, what, key, digest, f, p, st, s, nt, dt, tb = m
            res[i] = (kind, what, key, digest, nt, dt, tb)
            faults.update(f)
            probes.update(p)
            states.update(st)
            steps += s
    for p in ps:
        p.join(timeout=10)
    run_wall = time.time() - t0

    bad = sorted(i for i in res if res[i][0] == 'violation')
    err = sorted(i for i in res if res[i][0] == 'error')
    viol, known_hit = [], []
    for i in bad:
        class O: pass
        o = O()
        o.key, o.what = res[i][2], res[i][1]
        k = next((k for k in KNOWN if core_match(k, o)), None)
        (known_hit if k else viol).append((i, k))

    # determinism self-check: some cases again, in this process
    recheck = [i for i in sorted(res) if res[i][0] in ('ok', 'reject')]
    recheck = recheck[:: max(1, len(recheck) // (6 if a.tier == 'quick' else 40))][: (6 if a.tier == 'quick' else 40)]
    mism = []
    scratch = tempfile.mkdtemp(prefix='lopsim_')
    cwd = os.getcwd()
    os.chdir(scratch)
    samples = []
    spent = time.time()
    redone = 0
    for i in ([] if viol else recheck):
        if time.time() - spent > 40:
            break
        o = core.run_case(prop, core.case_for(prop, a.seed, i))
        redone += 1
        if o.digest != res[i][3]:
            mism.append(i)
        if len(samples) < 2:
            samples.append(dict(case=_trim(core.case_for(prop, a.seed, i)), log=o.ctx.lines[:25]))
    report = None
    status = 0
    if viol:
        # (the first violation which a fresh process reproduces)
        for i, _ in viol[:4]:
            report, status = handle_violation(prop, pid, a, core.case_for(prop, a.seed, i), res[i])
            if status == 1:
                break
    os.chdir(cwd)
    shutil.rmtree(scratch, ignore_errors=True)

    ended = len(res)
    oks = [i for i in res if res[i][0] == 'ok']
    nontriv = len({res[i][3] for i in oks if res[i][4]})
    if not samples and oks:
        samples.append(dict(case=_trim(core.case_for(prop, a.seed, oks[0]))))
    cov = dict(
        evaluations=ended, distinct_nontrivial=nontriv, rule=prop.RULE, samples=samples or ['no run ended without a violation'],
        simulated_runs=ended, rejected_cases=sum(1 for i in res if res[i][0] == 'reject'),
        runs_per_hour=int(ended / max(run_wall, 1e-6) * 3600), seeds_per_hour=int(ended / max(run_wall, 1e-6) * 3600),
        simulated_time='%d logged steps (the library has no clock of its own; time is counted in operations)' % steps,
        faults_injected=dict(faults), probes=dict(probes),
        distinct_states=len(states), state_measure=getattr(prop, 'MEASURE', 'distinct tuples passed to ctx.state'),
        real_components=getattr(prop, 'REAL', 'all library code under /repo/src'),
        stubbed_components=getattr(prop, 'STUB', 'debugger/stdin; approxcdf (absent offline); quad_vec worker pool'),
        determinism_recheck=dict(rerun=redone, mismatches=mism),
        harness_errors=[dict(case=i, what=res[i][1]) for i in err][:5],
    )
    ev = dict(property=pid, tier=a.tier, seed=a.seed, level='exploration', coverage=cov,
              assumptions=getattr(prop, 'ASSUMPTIONS', []), wall_s=round(time.time() - t0, 2),
              violations=([report] if report else []))
    if not a.no_evidence:
        os.makedirs(os.path.join(boot.VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(boot.VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=core.enc)
    if a.digests:
        with open(a.digests, 'w') as f:
            json.dump({str(i): res[i][3] for i in sorted(res)}, f)
    seen = set()
    for i, k in known_hit:
        if k['id'] not in seen:
            seen.add(k['id'])
            print('KNOWN-FINDING: property=%s %s' % (pid, k['describe']))
    print('%s %s seed=%d: %d/%d runs, %d distinct non-trivial, %d states, %d steps, faults %s, %.1fs'
          % (pid, a.tier, a.seed, ended, total, nontriv, len(states), steps, dict(faults), time.time() - t0))
    if probes:
        print('probes', dict(probes))
    if report:
        print(report['what'])
        if status == 1:
            print('VIOLATION property=%s replay=%s' % (pid, report['replay']))
        return status
    if err or dead or mism:
        for i in err[:3]:
            print('HARNESS ERROR case %d: %s\n%s' % (i, res[i][1], res[i][6]))
        for d in dead[:2]:
            print('HARNESS ERROR worker: %s' % d)
        if mism:
            print('HARNESS ERROR: not deterministic: cases %s' % mism)
        return 2
    if ended < total and ended < 0.5 * total:
        print('HARNESS ERROR: only %d of %d runs in the time limit' % (ended, total))
        return 2
    miss = [p for p in getattr(prop, 'REQUIRED_PROBES', []) if not probes.get(p) and not faults.get(p)]
    if miss and not a.runs:
        print('HARNESS ERROR: required situations never reached: %s' % miss)
        return 2
    return 0


def _trim(case):
    s = json.dumps(case, default=core.enc)
    return case if len(s) < 4000 else s[:4000] + '...'


def handle_violation(prop, pid, a, case, r):
    key = r[2]
    small, n = core.minimise(prop, case, key, budget_s=60 if a.tier == 'quick' else 240)
    rdir = os.path.join(boot.VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    last = None
    for name, c in (('min', small), ('full', case)):
        o = core.run_isolated(prop, c, core.cpu_limit(prop) + 30) if key == core.STUCK_KEY else core.run_case(prop, c)
        path = os.path.join(rdir, '%s-%d-%d-%s.json' % (pid, a.seed, case['index'], name))
        with open(path, 'w') as f:
            json.dump(dict(property=pid, seed=a.seed, index=case['index'], violation=dict(what=o.what, key=o.key, details=o.details),
                           digest=o.digest, minimised_with=n, trace=o.ctx.lines, case=c), f, indent=1, default=core.enc)
        for attempt in range(2):
            pr = subprocess.run([sys.executable, os.path.join(boot.VERIF, 'run_check.py'), pid, '--replay', path],
                                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            last = pr.stdout[-1500:]
            if pr.returncode == 1 and 'VIOLATION' in pr.stdout:
                return dict(property=pid, what=o.what, key=o.key, replay=path, index=case['index'], confirmed=True), 1
    return dict(property=pid, what='UNCONFIRMED: %s (replay does not reproduce)\n%s' % (r[1], last), key=key,
                replay=path, index=case['index'], confirmed=False), 2
