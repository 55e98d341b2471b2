#!/usr/bin/env python3
# Runs the quick checks against behaviour-preserving edits of /repo (this folder's *.diff): every one must
# stay quiet. Usage: run.py [-tests] [NAME...] [-p PROP,PROP]
import os, sys, json, shutil, subprocess, tempfile, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeds'))
from mk import ns, sh
here = os.path.dirname(os.path.abspath(__file__))
args = sys.argv[1:]
props = None
if '-p' in args:
    i = args.index('-p'); props = args[i+1].split(','); del args[i:i+2]
tests = '-tests' in args
names = [a for a in args if a != '-tests'] or sorted(f[:-5] for f in os.listdir(here) if f.endswith('.diff'))
props = props or [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
for n in names:
    work = tempfile.mkdtemp(prefix='rf-')
    try:
        sh('cp -a /repo/. %s' % work)
        r = sh('git apply %s/%s.diff' % (here, n), cwd=work)
        if r.returncode:
            print(n, 'does not apply', r.stderr); continue
        if tests:
            r = ns(work, 'bash /opt/vp/test.sh /tmp/rf-%s.json' % n, 900)
            print(n, 'tests', r.returncode, r.stdout[-200:], flush=True)
        for p in props:
            t = time.time()
            r = ns(work, 'cd /verif && VERIF_SEED=1 VERIF_TIER=quick ./check.sh %s quick' % p, 1000)
            bad = [l for l in r.stdout.splitlines() if 'INCOMPLETE' in l or 'not encoded' in l or 'VIOLATION' in l or 'witness' in l or 'disagree' in l or 'NOTE' in l]
            print(n, p, 'quiet' if r.returncode == 0 else 'ALARM rc=%d' % r.returncode, '%.0fs' % (time.time() - t), ' | '.join(bad)[:600], '' if r.returncode == 0 else r.stdout[-800:], flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)
