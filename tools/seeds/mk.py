#!/usr/bin/env python3
# Writes /verif/seeded/<id>/ from the specs in bugs.py and confirms each: it builds, the stable tests pass,
# the demonstration passes without and fails with the change. Usage: mk.py [-t] [ID...]   (-t: also run tests)
import os, re, sys, json, shutil, subprocess, tempfile, concurrent.futures
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from bugs import BUGS
SEED = '/verif/seeded'
LIB = open(os.path.join(here, 'lib.go.txt')).read()
DEMO = '''#!/bin/bash
# Exit 0 if the behaviour is right, nonzero if not. Run in the repository's root.
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=%(cgo)d
tmp=$(mktemp -d) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
cat > "$tmp/overlay.json" <<EOF
{"Replace": {"$PWD/zz_demo_test.go": "$here/demo.go.txt", "$PWD/zz_demolib_test.go": "$here/lib.go.txt"}}
EOF
go test %(race)s-overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 200s -run '^TestZDemo$' .
'''
IMPORTS = {'fmt.': 'fmt', 'bytes.': 'bytes', 'bufio.': 'bufio', 'time.': 'time', 'sync.': 'sync', 'atomic.': 'sync/atomic', 'net.': 'net', 'reflect.': 'reflect', 'crc32.': 'hash/crc32', 'runtime.': 'runtime', 'math.': 'math', 'rand.': 'math/rand', 'strings.': 'strings', 'exec.': 'os/exec', 'os.': 'os', 'syscall.': 'syscall', 'sort.': 'sort'}
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
def ns(copy, cmd, timeout=600):
    "run cmd with copy in the place of /repo and a network of its own"
    return subprocess.run(['unshare', '-Urnm', 'bash', '-c', 'mount --bind %s /repo && ip link set lo up && cd /repo && %s' % (copy, cmd)], capture_output=True, text=True, timeout=timeout)
def make(b):
    d = os.path.join(SEED, b['id'])
    os.makedirs(d, exist_ok=True)
    work = tempfile.mkdtemp(prefix='seed-')
    try:
        sh('cp -a /repo/. %s' % work)
        for f, old, new in b['edits']:
            p = os.path.join(work, f)
            s = open(p).read()
            if s.count(old) != 1:
                return b['id'], 'edit of %s matches %d times' % (f, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        r = sh('gofmt -l .', cwd=work)
        if r.stdout.strip() or r.stderr: return b['id'], 'gofmt: ' + r.stdout + r.stderr
        diff = sh('git diff', cwd=work).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        # it has to change lines of the original
        orig = set()
        for f in {e[0] for e in b['edits']}:
            orig |= set(sh('git show 3ed4a54:%s' % f, cwd='/repo').stdout.splitlines())
        removed = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        if not any(l in orig and l.strip() not in ('', '}') for l in removed): return b['id'], 'changes no original line'
        demo = b['demo']
        imps = {'testing'} | {v for k, v in IMPORTS.items() if re.search(r'(?<![\w.])' + re.escape(k), demo)}
        open(os.path.join(d, 'demo.go.txt'), 'w').write('package kafkamock\n\nimport (\n' + ''.join('\t"%s"\n' % i for i in sorted(imps)) + ')\n\n' + demo.strip() + '\n')
        open(os.path.join(d, 'lib.go.txt'), 'w').write(LIB)
        race = bool(b.get('race'))
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % {'cgo': int(race), 'race': '-race ' if race else ''})
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        r = ns(work, 'go build ./...')
        if r.returncode: return b['id'], 'does not build: ' + r.stderr
        clean = tempfile.mkdtemp(prefix='seed-')
        sh('cp -a /repo/. %s' % clean)
        try:
            for i in range(2):
                r = ns(clean, 'bash %s/demo.sh' % d)
                if r.returncode: return b['id'], 'demo fails on the unchanged tree: ' + (r.stdout + r.stderr)[-1500:]
        finally:
            shutil.rmtree(clean)
        for i in range(2):
            r = ns(work, 'bash %s/demo.sh' % d)
            if r.returncode == 0: return b['id'], 'demo passes with the change'
        why = (r.stdout + r.stderr)[:300].replace('\n', ' | ')
        if TESTS:
            out = os.path.join(work, 'zz_out.json')
            r = ns(work, 'bash /opt/vp/test.sh %s' % '/tmp/seedout-%s.json' % b['id'], 1000)
            got = set(json.load(open('/tmp/seedout-%s.json' % b['id']))['passed'])
            miss = [t for t in STABLE if t not in got]
            if miss: return b['id'], 'tests fail: %s' % miss[:6]
        return b['id'], 'ok ' + why
    finally:
        shutil.rmtree(work, ignore_errors=True)
args = sys.argv[1:] if __name__ == '__main__' else []
TESTS = '-t' in args
ids = [a for a in args if a != '-t']
base = json.load(open('/opt/vp/BASELINE.json'))
STABLE = base if isinstance(base, list) else base.get('stable') or base.get('passed') or base.get('tests')
if __name__ == '__main__':
    todo = [b for b in BUGS if not ids or b['id'] in ids]
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        for f in concurrent.futures.as_completed([ex.submit(make, b) for b in todo]):
            i, res = f.result()
            print(i, res, flush=True)
