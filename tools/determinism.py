#!/opt/venv/bin/python
"""determinism.py [CNN ...]: every check's runs, three times: 8 workers, 3 workers
with another hash seed, 8 workers again under load order reversed by a different number of runs.
Prints the number of digests that differ (must be 0)."""
import json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or ['C%02d' % i for i in range(1, 22)]
bad = 0
for c in ids:
    sys.path.insert(0, V)
    out = []
    n = {'C10': 120, 'C11': 120, 'C19': 120, 'C20': 80, 'C21': 200}.get(c, 400)
    for k, (w, hs) in enumerate([(8, '0'), (3, '17'), (5, '4242')]):
        f = tempfile.mktemp()
        r = subprocess.run([sys.executable, 'run_check.py', c, '--no-evidence', '--runs', str(n), '--workers', str(w), '--seed', '77', '--digests', f],
                           cwd=V, env=dict(os.environ, SIM_HASHSEED=hs), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not os.path.exists(f):
            print(c, 'no digests', r.returncode, r.stdout[-300:])
            out.append({})
            continue
        out.append(json.load(open(f)))
        os.remove(f)
    diff = [i for i in out[0] if any(o.get(i) != out[0][i] for o in out[1:])]
    bad += len(diff)
    print(c, len(out[0]), 'runs, differing:', len(diff), diff[:8], flush=True)
sys.exit(bool(bad))
