#!/usr/bin/env python3
# Runs the check of each seeded bug's property against it, in a copy of /repo mounted in its place.
# Usage: catch.py [-a] [-j N] [ID...]   (-a: all properties' checks, not only the bug's own)
import os, re, sys, json, time, shutil, subprocess, tempfile, concurrent.futures
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mk import ns, sh, SEED
args = sys.argv[1:]
J = 1
if '-j' in args:
    i = args.index('-j'); J = int(args[i+1]); del args[i:i+2]
ALL = '-a' in args
ids = [a for a in args if a != '-a'] or sorted(os.listdir(SEED))
man = {c['property']: c for c in json.load(open('/verif/MANIFEST.json'))['checks']} if 'checks' in json.load(open('/verif/MANIFEST.json')) else {}
def one(i):
    d = os.path.join(SEED, i)
    prop = json.load(open(d + '/meta.json'))['property']
    work = tempfile.mkdtemp(prefix='catch-')
    out = []
    try:
        sh('cp -a /repo/. %s' % work)
        r = sh('git apply %s/patch.diff' % d, cwd=work)
        if r.returncode: return i, 'patch does not apply'
        for p in ([prop] if not ALL else sorted(man)):
            t = time.time()
            r = ns(work, 'cd /verif && VERIF_SEED=1 VERIF_TIER=quick ./check.sh %s quick' % p, 1000)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            out.append('%s %s rc=%d %.0fs %s' % ('CAUGHT' if r.returncode == 1 and v else 'missed', p, r.returncode, time.time() - t, (v or r.stdout.splitlines()[-1:] or [r.stderr[-300:]])[0][:200]))
        return i, ' || '.join(out)
    finally:
        shutil.rmtree(work, ignore_errors=True)
with concurrent.futures.ThreadPoolExecutor(J) as ex:
    for i, res in ex.map(one, ids):
        print(i, res, flush=True)
