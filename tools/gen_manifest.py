#!/usr/bin/env python3
# writes MANIFEST.json from properties.jsonl and the harness files present
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(V + '/tools/not_applicable.json')) if os.path.exists(V + '/tools/not_applicable.json') else {}
checks, na = [], []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); pid = p['id']; hs = sorted(glob.glob(V + '/harness/%s_*.cpp' % pid))
    if not hs or pid in NA: na.append({'property': pid, 'reason': NA.get(pid, 'no harness yet: the check for this property has not been built')}); continue
    bounds = []
    for h in hs:
        for line in open(h):
            m = re.match(r'//@\s*bounds\s*:\s*(.*)', line)
            if m: bounds.append(os.path.basename(h)[:-4] + ': ' + m.group(1).strip())
    checks.append({'property': pid, 'quick_cmd': 'python3 check.py %s' % pid, 'thorough_cmd': 'python3 check.py %s --tier thorough' % pid,
        'technique': 'symbolic execution of the real code (LLVM bitcode of /repo) with Z3 deciding every branch and assertion; counterexamples replayed natively',
        'level': 'model_checking', 'level_note': 'Bounded: holds for every value within these bounds, nothing is claimed outside them. ' + '; '.join(bounds) + '. Trusts the executor in engine/, the runtime/environment models in rt/, clang -O1 code generation and Z3; sampled paths are replayed against a native g++ ASan/UBSan build and must agree.'})
json.dump({'version': 1, 'setup_cmd': 'make -s -j8 -C engine', 'checks': checks, 'not_applicable': na, 'notes': 'No hooks in /repo. known_findings.txt lists findings and fixed defects.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
