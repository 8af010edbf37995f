#!/usr/bin/env python3
"""Writes and verifies planted bugs.  tools/seedbug.py SPEC.py [id...]: SPEC.py calls bug(id, property, file, [(old, new)], sources, demo C++ code, needs, breaks)
for each; verification applies the patch to /repo, builds, runs the stable tests, the demo and the property's check, and undoes it."""
import sys, os, json, subprocess, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = '/repo'
def run(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
only = sys.argv[2:]; nocheck = '--write' in only; only = [o for o in only if not o.startswith('--')]
DEMO = '''#!/bin/bash
# builds demo.cpp with the repository's sources in a scratch directory and runs it there
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
%s
'''
def bug(id, prop, edits, srcs, demo, needs, breaks, extra='', san=False, libs='', sh=None):
    if only and id not in only: return
    d = os.path.join(V, 'seeded', id); os.makedirs(d, exist_ok=True)
    if run('git -C %s status --porcelain' % REPO).stdout.strip(): sys.exit('/repo is not clean')
    try:
        for f, old, new in edits:
            p = os.path.join(REPO, f); s = open(p).read()
            if s.count(old) != 1: print(id, 'edit matches', s.count(old), 'times:', old[:60]); return
            open(p, 'w').write(s.replace(old, new))
        open(d + '/patch.diff', 'w').write(run('git -C %s diff' % REPO).stdout)
        open(d + '/demo.cpp', 'w').write(demo.lstrip('\n'))
        body = sh or ('g++ -std=c++20 -O1 %s-include cstdint -I"$R" -o "$T/demo" "$D/demo.cpp" %s %s -pthread %s || exit 3\ncd "$T" && timeout 100 ./demo' % ('-fsanitize=address,undefined ' if san else '', ' '.join('"$R"/' + s for s in srcs.split()), extra, libs))
        open(d + '/demo.sh', 'w').write(DEMO % body); os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        if nocheck: return
        b = run('bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seed_out.json').stdout.strip().splitlines()[-1]
        dm = run('bash %s/demo.sh' % d, cwd=REPO); ck = run('python3 %s/check.py %s' % (V, prop))
        run('git -C %s checkout -- .' % REPO); run('bash /opt/vp/build.sh') if 'lambda.a' in libs else 0; d0 = run('bash %s/demo.sh' % d, cwd=REPO)
        ok = '36 passed' in b and dm.returncode not in (0, 3) and d0.returncode == 0
        print('%-28s %s tests: %s | demo patched %d clean %d | %s %s' % (id, 'OK ' if ok else 'BAD', b, dm.returncode, d0.returncode, 'CAUGHT' if ck.returncode == 1 else 'MISSED(rc %d)' % ck.returncode, next((l.strip()[:160] for l in ck.stdout.splitlines() if l.startswith('  ')), '')))
        if not ok: print(dm.stdout[-600:], d0.stdout[-600:])
        sys.stdout.flush()
    finally: run('git -C %s checkout -- .' % REPO)
exec(open(sys.argv[1]).read())
