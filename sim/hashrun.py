"""Runs sessions in a process of its own and prints digests of their transcripts."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import boot
boot.fix_env()
import hashlib, json
boot.load()
from sim import core, seams, session

case = json.load(open(sys.argv[1]))
so, sys.stdout = sys.stdout, open(os.devnull, 'w')
out = []
for s, r in zip(case['items'], case['seeds']):
    seams.seed_all(r)
    with seams.pool(seams.Pool()):
        t = session.Session(s).run()
    o = []
    for e in t:
        h = hashlib.sha256()
        core.dig(e, h)
        o.append(h.hexdigest())
    out.append(o)
sys.stdout = so
print(json.dumps(out))
