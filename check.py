#!/usr/bin/env python3
"""Solver-based check of one property: compiles /repo's current sources to LLVM bitcode, explores the harness(es) of the
property symbolically with build/sxengine (Z3 decides every branch and assertion), replays counterexamples and sampled
paths against a native build of the same sources, and writes evidence/<id>.json."""
import sys, os, re, json, time, glob, hashlib, subprocess, tempfile, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = '/usr/bin/clang++'; LINK = '/usr/lib/llvm-18/bin/llvm-link'; NM = '/usr/lib/llvm-18/bin/llvm-nm'
SYMFLAGS = ['-std=c++20', '-O1', '-gline-tables-only', '-fno-pie', '-fno-vectorize', '-fno-slp-vectorize', '-U_FORTIFY_SOURCE', '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-include', 'cstdint', '-w', '-DSX_SYMBOLIC',
    '-fsanitize=shift,signed-integer-overflow,integer-divide-by-zero,return,unreachable,bounds', '-fsanitize-trap=all', '-fno-threadsafe-statics', '-DLAMBDA_VERIF']
NATFLAGS = ['-std=c++20', '-O1', '-g1', '-include', 'cstdint', '-w', '-fPIC', '-D_GLIBCXX_ASSERTIONS', '-DLAMBDA_VERIF']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=vptr,alignment', '-fno-sanitize-recover=all']
CACHE = os.path.join(V, 'build', 'cache')

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
def digest(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:32]
_hdr = {}
def headers_digest(root, pats):
    key = (root,) + tuple(pats)
    if key not in _hdr:
        fs = []
        for p in pats: fs += glob.glob(os.path.join(root, '**', p), recursive=True)
        _hdr[key] = digest(*[x for f in sorted(fs) if '/_build/' not in f and os.path.isfile(f) for x in (f, open(f, 'rb').read())])
    return _hdr[key]

class Fail(Exception): pass

def harness_info(path):
    d = {}
    for l in open(path):
        m = re.match(r'//@\s*([\w-]+)\s*:\s*(.*)', l)
        if m: d.setdefault(m.group(1), []).append(m.group(2).strip())
    return d

def ensure_engine():
    b = os.path.join(V, 'build', 'sxengine')
    r = sh(['make', '-s', '-j8', '-C', os.path.join(V, 'engine'), 'B=' + os.path.join(V, 'build')])
    if r.returncode: raise Fail('engine build failed: ' + r.stderr.decode()[-2000:])
    return b

def repo_hd(): return headers_digest(REPO, ['*.hpp', '*.h'])
def rt_hd(): return headers_digest(os.path.join(V, 'rt'), ['*.h', '*.hpp']) + headers_digest(os.path.join(V, 'rt', 'shadow'), ['*'])

def compile_one(src, native, flags):
    """compiles src, returns (path, None) or (None, error)"""
    os.makedirs(CACHE, exist_ok=True)
    key = digest(src, open(src, 'rb').read(), repo_hd(), rt_hd(), native, ' '.join(flags)); out = os.path.join(CACHE, key + ('.o' if native else '.bc'))
    if os.path.exists(out): return out, None
    tmp = out + '.%d.%d.tmp' % (os.getpid(), hash(src) & 0xffff)
    base = (['g++'] if native else [CLANG, '-emit-llvm']) + flags + ['-c', '-o', tmp]
    r = sh(base + [src])
    if r.returncode and not native:
        # clang rejects `this->constant` in constant expressions (gcc accepts it); spell the static member without this->
        txt = open(src).read(); t2 = re.sub(r'(<[^<>;{}]*?)this->(\w+\s*>)', r'\1\2', txt)
        if t2 != txt:
            p = tmp + '.cpp'; open(p, 'w').write('#line 1 "%s"\n' % src + t2); r = sh(base + ['-iquote', os.path.dirname(src), p]); os.unlink(p)
    if r.returncode: return None, src + ': ' + r.stderr.decode()[-3000:]
    os.replace(tmp, out); return out, None

def undefined_and_defined(f, nm=NM):
    und, de = set(), set()
    for l in sh([nm, f]).stdout.decode().splitlines():
        p = l.split()
        if len(p) >= 2 and p[-2] in 'Uw' and (len(p) == 2 or set(p[0]) == {'-'}): und.add(p[-1]) if p[-2] == 'U' else None
        elif len(p) >= 3: de.add(p[-1])
    return und, de

class Harness:
    def __init__(self, path, tier):
        self.path, self.tier, self.name = path, tier, os.path.basename(path)[:-4]; self.info = i = harness_info(path)
        g = lambda k, d='': ' '.join(i.get(k, [d]))
        self.tierflags = g(tier).split() if tier in i else g('quick').split()
        self.opts = dict(x.split('=', 1) for x in self.tierflags if not x.startswith('-') and '=' in x); self.defs = [x for x in self.tierflags if x.startswith('-D')]
        self.stubs = g('stubs').split(); self.natstubs = g('native-stubs').split(); self.shadow = g('shadow').split(); self.merge = i.get('merge', []); self.join = i.get('join', []); self.nojoin = g('nojoin') == '1'; self.races = g('races') == '1'; self.nosan = g('nosan') == '1'; self.reach = g('reach').split(); self.bounds = i.get('bounds', []); self.assume = i.get('assume', []); self.extra = g('flags').split() + (['-fthreadsafe-statics'] if self.races else [])
        for e in i.get('embed', []): # "name file": the bytes of a file of the repository as an array embed_<name>
            n, f = e.split(); b = open(os.path.join(REPO, f), 'rb').read(); d = os.path.join(CACHE, 'embed_' + digest(b)); os.makedirs(d, exist_ok=True); hp = os.path.join(d, 'embed_%s.h' % n)
            if not os.path.exists(hp): open(hp + '.%d' % os.getpid(), 'w').write('static const unsigned char embed_%s[] = {%s};\n' % (n, ','.join(map(str, b)))); os.replace(hp + '.%d' % os.getpid(), hp)
            self.extra.append('-I' + d)
        pats = g('src').split(); self.srcs = []
        for p in pats:
            for f in sorted(glob.glob(os.path.join(REPO, p), recursive=True)):
                if f not in self.srcs: self.srcs.append(f)
        self.exclude = [f for p in g('exclude').split() for f in glob.glob(os.path.join(REPO, p))]; self.srcs = [s for s in self.srcs if s not in self.exclude]
    def flags(self, native):
        inc = []
        for s in self.shadow: inc += ['-I' + os.path.join(V, 'rt', 'shadow', s)]
        f = (NATFLAGS + ([] if self.nosan else SAN)) if native else SYMFLAGS
        return f + inc + ['-I' + os.path.join(V, 'rt')] + self.extra
    def repoflag(self): return ['-DREPO_DIR="%s"' % REPO, '-I' + REPO]
    def units(self, native):
        fl = self.flags(native); hf = fl + self.defs + self.repoflag(); u = [(self.path, native, hf)]
        for s in self.stubs + (self.natstubs if native else []): u.append((os.path.join(V, 'rt', s + '.cpp'), native, hf))
        if native: u.append((os.path.join(V, 'rt', 'native.cpp'), native, fl))
        else: u += [(os.path.join(V, 'rt', x), native, [y for y in SYMFLAGS + ['-I' + os.path.join(V, 'rt')] if not y.startswith('-fsanitize')] + ['-U__OPTIMIZE__', '-fno-access-control', '-fno-inline'][:2 if x != 'ios.cpp' else 3]) for x in ('runtime.cpp', 'ios.cpp', 'ios2.cpp')]
        for s in self.srcs: u.append((s, native, fl))
        return u
    def rest(self, native):
        fl = self.flags(native); all_ = [f for d in ('core', 'extra') for f in sorted(glob.glob(os.path.join(REPO, d, '**', '*.cpp'), recursive=True))]
        return [(s, native, fl) for s in all_ if s not in self.srcs and s not in self.exclude]

def build(h, native, pool, work):
    res = list(pool.map(lambda u: compile_one(*u), h.units(native)))
    errs = [e for _, e in res if e]
    if errs: raise Fail('compile failed:\n' + '\n'.join(errs))
    objs = [o for o, _ in res]
    # sources outside the listed directories are pulled in when something in Lambda:: is still undefined
    symtab = lambda o: undefined_and_defined(o, 'nm' if native else NM)
    info = list(pool.map(symtab, objs))
    def missing(): 
        de = set().union(*[d for _, d in info]); return {u for un, _ in info for u in un if u not in de and '6Lambda' in u}
    if missing():
        rest = h.rest(native); r2 = list(pool.map(lambda u: compile_one(*u), rest)); cand = []
        for o, e in r2:
            if o: cand.append((o,) + symtab(o))
        while True:
            m = missing(); c = next((c for c in cand if c[0] not in objs and (c[2] & m) and any(1 for x in c[2] & m)), None)
            if not m or not c: break
            objs.append(c[0]); info.append((c[1], c[2]))
    out = os.path.join(work, h.name + ('.exe' if native else '.bc'))
    if native:
        libs = ' '.join(h.info.get('libs', [''])).split()
        r = sh(['g++'] + ([] if h.nosan else ['-fsanitize=address,undefined']) + ['-o', out] + objs + ['-lpthread'] + libs)
    else: r = sh([LINK, '-o', out] + objs)
    if r.returncode: raise Fail('link failed (%s): ' % ('native' if native else 'bitcode') + r.stderr.decode()[-3000:])
    return out

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2048:detect_stack_use_after_return=0', UBSAN_OPTIONS='print_stacktrace=0', LC_ALL='C')
def native_run(exe, inputs, path, tmo=20):
    with open(path, 'w') as f: f.write('\n'.join(inputs) + '\n')
    d = tempfile.mkdtemp(prefix='sxrun.')
    try:
        try: r = subprocess.run([exe, path, str(tmo)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd=d, timeout=tmo + 20)
        except subprocess.TimeoutExpired: return -99, '', 'timeout'
        return r.returncode, r.stdout.decode('latin1'), r.stderr.decode('latin1')
    finally: shutil.rmtree(d, ignore_errors=True)

def findings():
    out = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding:\s+property=(\S+)\s+harness=(\S+)\s+match=/(.*)/\s+::\s*(.*)', l.strip())
            if m: out.append(dict(property=m.group(1), harness=m.group(2), rx=re.compile(m.group(3)), what=m.group(4)))
    return out

def main():
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument('pid'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--only'); ap.add_argument('--keep', action='store_true'); ap.add_argument('--jobs', default='8'); ap.add_argument('-v', action='store_true'); ap.add_argument('--no-native', action='store_true')
    a = ap.parse_args(); pid = a.pid; tier = 'thorough' if a.tier == 'thorough' else 'quick'; t0 = time.time()
    hs = sorted(glob.glob(os.path.join(V, 'harness', pid + '_*.cpp')))
    if a.only: hs = [h for h in hs if a.only in h]
    work = tempfile.mkdtemp(prefix='sxcheck.'); rdir = os.path.join(V, 'replays', pid); shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir, exist_ok=True)
    pool = cf.ThreadPoolExecutor(8); rc = 0; rep = []; lines = []; known = findings(); validated = mismatched = 0; samples = []; nviol = 0; unconf = []
    try:
        engine = ensure_engine(); H = [Harness(h, tier) for h in hs]
        for h in H:
            if tier in h.info and 'skip' in h.tierflags: continue
            t1 = time.time(); bc = build(h, False, pool, work); exe_f = pool.submit(lambda: build(h, True, cf.ThreadPoolExecutor(4), work)) if not a.no_native else None; tb = time.time() - t1
            outp = os.path.join(work, h.name + '.json'); tmax = float(h.opts.get('time', '100'))
            cmd = [engine, bc, '--out', outp, '--max-time', str(tmax), '--jobs', a.jobs, '--samples', h.opts.get('samples', '24'), '--max-steps', h.opts.get('steps', '30000000')]
            for k in ('malloc-limit', 'max-alloc', 'expand', 'rlimit'):
                if k in h.opts: cmd += ['--' + k, h.opts[k]]
            for m in h.merge: cmd += ['--merge', m]
            for m in h.join: cmd += ['--join', m]
            if h.nojoin: cmd += ['--no-auto-join']
            if h.races: cmd += ['--races']
            if a.v: cmd += ['-v']
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=None if a.v else subprocess.PIPE)
            if r.returncode or not os.path.exists(outp): raise Fail('engine failed on %s (%s): %s' % (h.name, r.returncode, (r.stderr or b'').decode()[-1500:]))
            d = json.load(open(outp)); exe = exe_f.result() if exe_f else None
            hv = 0; rinc = dict(d['inconclusive_reasons'])
            seen = set()
            for i, v in enumerate(sorted(d['violations'], key=lambda v: len(v['inputs']))):
                key = (v['kind'], v['msg'])
                if [k for k in seen if k == key] or len(seen) > 8: continue
                path = os.path.join(rdir, '%s_%d.replay' % (h.name, i)); code = None
                if exe:
                    code, so, se = native_run(exe, v['inputs'], path, int(h.opts.get('replay-timeout', '20')))
                else: open(path, 'w').write('\n'.join(v['inputs']) + '\n')
                text = '%s | %s | %s' % (v['kind'], v['msg'], v['where']); confirmed = code is None or code not in (0, 77, 78) or (v['kind'] == 'race')
                with open(path, 'a') as f: f.write('# harness %s tier %s\n# engine: %s\n# native exit %s\n' % (h.name, tier, text, code)); f.write(''.join('# ' + l + '\n' for l in ((so + se) if exe else '').splitlines()[:30]))
                if not confirmed: unconf.append(text); rinc['counterexample not confirmed natively: ' + text[:200]] = 1; continue
                seen.add(key); kf = next((k for k in known if k['property'] == pid and k['harness'] == h.name and k['rx'].search(text)), None)
                if kf:
                    l = 'KNOWN-FINDING: property=%s %s' % (pid, kf['what'])
                    if l not in lines: lines.append(l)
                    continue
                hv += 1; nviol += 1; rc = 1; lines.append('VIOLATION property=%s replay=%s' % (pid, path)); lines.append('  %s: %s at %s; inputs %s' % (v['kind'], v['msg'], v['where'][:300], ' '.join(x.replace(' ', '=') for x in v['inputs'][:60])))
            # conformance: sampled completed paths must produce the same observations natively
            if exe:
                def val(p):
                    i, s = p; code, so, se = native_run(exe, s['inputs'], os.path.join(work, '%s_s%d' % (h.name, i)))
                    obs = [l[4:] for l in so.splitlines() if l.startswith('OBS ')]; return code == 0 and [o.strip() for o in obs] == [o.strip() for o in s['observed']], s, code, obs, se
                for ok, s, code, obs, se in pool.map(val, enumerate(d['samples'][:48])):
                    if ok: validated += 1
                    else:
                        mismatched += 1; rinc['sampled path differs natively (exit %s)' % code] = rinc.get('sampled path differs natively (exit %s)' % code, 0) + 1
                        if a.v or os.environ.get('SX_DEBUG'): print('MISMATCH', h.name, s, code, obs, se[:1500])
            for s in d['samples'][:3]: samples.append({'harness': h.name, 'inputs': s['inputs'][:80], 'observed': s['observed'][:6]})
            miss = [l for l in h.reach if l not in d['reached']]
            if miss: rinc['reachability goals not met (vacuity): ' + ' '.join(miss)] = 1
            exh = not d['timedout'] and not d['left'] and not rinc
            rep.append({'harness': h.name, 'bounds': h.bounds, 'assumptions': h.assume, 'paths': d['paths'], 'completed_paths': d['normal'], 'assumed_away': d['dropped'], 'violating': d['violating'], 'inconclusive': rinc, 'unexplored_states': d['left'], 'instructions': d['steps'], 'forks': d['forks'], 'merges': d['merges'], 'assertions_evaluated': d['asserts'], 'symbolic_bytes_max': d['symbolic_bytes'], 'solver': d['solver'], 'engine_seconds': round(d['seconds'], 2), 'build_seconds': round(tb, 1), 'reached': {k: v['witness'][:200] for k, v in d['reached'].items()}, 'functions_encoded': sorted(demangle(f for f in d['functions'] if '6Lambda' in f)), 'exhaustive': exh})
            lines.append('%s: %d paths (%d completed), %d branch/assert queries (%d Z3, %.1fs), %s, %.1fs' % (h.name, d['paths'], d['normal'], d['solver']['queries'], d['solver']['z3'], d['solver']['z3_seconds'], 'exhaustive within bounds' if exh else 'NOT exhaustive: ' + '; '.join('%s (%s)' % (k[:300], n) for k, n in list(rinc.items())[:4]) + (' time limit, %d states left' % d['left'] if d['timedout'] else ''), d['seconds']))
    except Fail as e:
        print('CHECK-ERROR', e); rc = 3
    finally:
        if not a.keep: shutil.rmtree(work, ignore_errors=True)
        else: print('work', work)
    for l in lines: print(l)
    if rc == 3: sys.exit(3)
    if a.only: sys.exit(rc)
    tot = lambda k: sum(r[k] for r in rep)
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2), 'violations': nviol,
        'coverage': {'states': tot('paths'), 'transitions': tot('forks'), 'traces_validated_against_impl': validated, 'traces_mismatched': mismatched, 'samples': samples[:12], 'exhaustive': all(r['exhaustive'] for r in rep) and bool(rep),
            'explanation': 'states = symbolic paths explored to their end (each stands for every input satisfying its path condition); transitions = forks decided feasible by the solver; instructions are LLVM instructions executed symbolically',
            'instructions': tot('instructions'), 'solver_queries': sum(r['solver']['queries'] for r in rep), 'z3_queries': sum(r['solver']['z3'] for r in rep), 'z3_seconds': round(sum(r['solver']['z3_seconds'] for r in rep), 2), 'assert_queries_discharged': sum(r['solver']['assert_unsat'] for r in rep), 'functions_encoded': sorted(set(f for r in rep for f in r['functions_encoded'])), 'harnesses': rep, 'unconfirmed_counterexamples': unconf},
        'assumptions': sorted(set(x for r in rep for x in r['assumptions'])) + ['bounds: ' + b for r in rep for b in r['bounds']]}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True); json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    sys.exit(rc)

def demangle(names):
    n = list(names); r = subprocess.run(['c++filt'], input='\n'.join(n).encode(), stdout=subprocess.PIPE); return [x[:160] for x in r.stdout.decode().splitlines()]
main()
