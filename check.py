#!/usr/bin/env python3
"""Decides one property: compiles /repo's current sources and the property's harness to LLVM IR, runs the symbolic
executor on every entry, replays what it finds against the natively compiled code, writes the evidence."""
import sys, os, re, json, time, hashlib, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); B = V + '/build'; REPO = os.environ.get('SX_REPO', '/repo')
sys.path.insert(0, V)
LL = '/usr/lib/llvm-18/bin/'
IR = '-O1 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -fno-access-control -fPIC -mcmodel=large -D__NO_INLINE__ -gline-tables-only -c -emit-llvm -Wno-everything'.split()
DEFS = ['-DNDEBUG', '-DPOTHOS_DLL_EXPORTS', '-D_FILE_OFFSET_BITS=64', '-D_REENTRANT', '-DHAVE_LIBNUMA', '-DPOCO_ENABLE_CPP11', '-DPOCO_ENABLE_CPP14', '-DPOCO_OS_FAMILY_UNIX', '-DPOCO_UNBUNDLED', '-DPOTHOS_LIBRARY_NAME="libPothos.so"']
INCS = ['-I' + REPO + '/lib', '-I' + REPO + '/include', '-I/usr/include/muparserx', '-I/usr/include/nlohmann']
NCPU = os.cpu_count() or 4
def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def die(msg): print('CHECK-ERROR: ' + msg); sys.exit(3)

def tree_hash():
    h = hashlib.sha256(repr((IR, DEFS, INCS)).encode())
    for top in ('lib', 'include'):
        for d, ds, fs in sorted(os.walk(os.path.join(REPO, top))):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.cpp', '.hpp', '.h', '.in', '.txt', '.inc', '.ipp')):
                    p = os.path.join(d, f); h.update(p.encode()); h.update(open(p, 'rb').read())
    for f in ('rt.cpp', 'rt_ios.inc', 'rt_str.cpp', 'rt_poco.cpp', 'rt_gen.cpp', 'noext.h', 'simd.hpp', 'symx.h'): h.update(open(V + '/symx/' + f, 'rb').read())
    return h.hexdigest()[:20]

def sources():
    s = open(REPO + '/lib/CMakeLists.txt').read()
    l = sorted(set(re.findall(r'(?:^|[\s(])([A-Za-z0-9_/]+\.cpp)', s)))
    return [x for x in l if not re.search(r'(^|/)Tests?[A-Z.]|Windows|Msvc|SIMD|NumaInfo', x) and os.path.exists(REPO + '/lib/' + x)]

def build_lib():
    os.makedirs(B, exist_ok=True)
    r = sh(['bash', V + '/symx/build.sh'])
    if r.returncode: die('engine build failed: ' + r.stdout[-2000:])
    key = tree_hash(); d = B + '/lib-' + key
    if os.path.exists(d + '/ok'): os.utime(d); return d
    t = tempfile.mkdtemp(prefix='tmp-', dir=B); jobs = []
    for f in sources(): jobs.append((REPO + '/lib/' + f, f.replace('/', '_')[:-4], ['-std=gnu++14', '-include', V + '/symx/simd.hpp'] + IR + DEFS + INCS, False))
    S = V + '/symx/'
    jobs.append((S + 'rt.cpp', 'RT1', ['-std=c++17', '-include', S + 'noext.h', '-fno-builtin'] + IR, True))
    jobs.append((S + 'rt_str.cpp', 'RT2', ['-std=gnu++14', '-include', S + 'noext.h', '-fno-builtin'] + IR, True))
    jobs.append((S + 'rt_poco.cpp', 'RT3', ['-std=gnu++17', '-I' + S] + IR + DEFS + INCS, True))
    jobs.append((S + 'rt_gen.cpp', 'RT4', ['-std=gnu++14', '-I' + S] + IR + DEFS + INCS, True))
    obj = B + '/obj'; os.makedirs(obj, exist_ok=True); memo = {}
    def fh(p):
        if p not in memo:
            try: memo[p] = hashlib.sha256(open(p, 'rb').read()).hexdigest()
            except OSError: memo[p] = 'missing'
        return memo[p]
    def one(j):
        src, nm, fl, rt = j; nat = not rt or nm == 'RT4'; c = obj + '/' + nm
        try: # reuse the compiled file when its flags and every file it was made from are unchanged
            d = json.load(open(c + '.json'))
            if d['flags'] == [src] + fl and all(fh(p) == h for p, h in d['deps'].items()):
                for x in ['.bc'] + (['.o'] if nat else []): shutil.copyfile(c + x, t + '/' + nm + x)
                return None
        except (OSError, ValueError, KeyError): pass
        r = sh([LL + 'clang++'] + fl + ['-MD', '-MF', t + '/' + nm + '.d', src, '-o', t + '/' + nm + '.bc'])
        if r.returncode: return src + ':\n' + r.stdout[-1500:]
        if nat:
            r = sh([LL + 'clang', '-c', '-O0', '-fPIC', '-Wno-everything', '-x', 'ir', t + '/' + nm + '.bc', '-o', t + '/' + nm + '.o'])
            if r.returncode: return src + ' (native):\n' + r.stdout[-1500:]
        deps = [x for x in open(t + '/' + nm + '.d').read().replace('\\\n', ' ').split(':', 1)[1].split() if not x.startswith('/usr/')]
        u = '%s.%d' % (c, os.getpid())
        if os.path.exists(c + '.json'): os.unlink(c + '.json')
        for x in ['.bc'] + (['.o'] if nat else []): shutil.copyfile(t + '/' + nm + x, u + x); os.rename(u + x, c + x)
        with open(u + '.json', 'w') as f: json.dump({'flags': [src] + fl, 'deps': {x: fh(x) for x in deps}}, f)
        os.rename(u + '.json', c + '.json')
        return None
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(NCPU) as ex: errs = [e for e in ex.map(one, jobs) if e]
    if errs: shutil.rmtree(t); die('compilation failed: ' + '\n'.join(errs))
    libs = [t + '/' + j[1] + '.bc' for j in jobs if not j[3]]
    order = [t + '/' + f.replace('/', '_')[:-4] + '.bc' for f in sources()]
    for out, ins in ((t + '/lib.bc', order), (t + '/rt.bc', [t + '/RT%d.bc' % i for i in (1, 2, 3, 4)])):
        r = sh([LL + 'llvm-link'] + ins + ['-o', out])
        if r.returncode: shutil.rmtree(t); die('link failed: ' + r.stdout[-2000:])
    r = sh([LL + 'clang++', '-fuse-ld=lld', '-shared', '-Wl,--unresolved-symbols=ignore-all'] + [o[:-3] + '.o' for o in order] + [t + '/RT4.o', '-o', t + '/libnative.so', '-lPocoFoundation', '-lPocoNet', '-lPocoUtil', '-lPocoXML', '-lmuparserx', '-lnuma', '-lpthread', '-ldl'])
    if r.returncode: print('note: native library for replay not linked: ' + r.stdout[-500:])
    for x in order + libs + [t + '/RT%d.bc' % i for i in (1, 2, 3, 4)]:
        for y in (x, x[:-3] + '.o'):
            if os.path.exists(y): os.unlink(y)
    open(t + '/ok', 'w').close()
    try: os.rename(t, d)
    except OSError: shutil.rmtree(t, ignore_errors=True)
    old = sorted((x for x in os.listdir(B) if x.startswith('lib-')), key=lambda x: -os.path.getmtime(B + '/' + x))
    for x in old[4:]: shutil.rmtree(B + '/' + x, ignore_errors=True)
    return d

def write_replay(path, inputs, sched, head=(), native=False):
    with open(path, 'w') as f:
        for h in head: f.write('# ' + h.replace('\n', ' ') + '\n')
        for n, v in inputs:
            if native and n.startswith('~'): continue
            f.write('in %s %d\n' % (n, v))
        for x in sched: f.write('sched %d\n' % x)

class Native:
    def __init__(self, lib, hbc, tmp): self.lib, self.hbc, self.tmp, self.exe = lib, hbc, tmp, None
    def build(self):
        if self.exe is not None: return self.exe
        self.exe = False
        if os.path.exists(self.lib + '/libnative.so'):
            e = self.tmp + '/native_' + os.path.basename(self.hbc)[:-3]; o = e + '.o'
            r = sh([LL + 'clang', '-c', '-O0', '-fPIC', '-Wno-everything', '-x', 'ir', self.hbc, '-o', o])
            r2 = sh([LL + 'clang++', '-fuse-ld=lld', '-std=c++14', '-O1', '-g', '-w', '-rdynamic', '-Wl,--unresolved-symbols=ignore-all', V + '/symx/native.cpp', o, self.lib + '/libnative.so', '-Wl,-rpath,' + self.lib, '-o', e, '-lPocoFoundation', '-lPocoNet', '-lPocoUtil', '-lPocoXML', '-lmuparserx', '-lnuma', '-lpthread', '-ldl'])
            if r.returncode == 0 and r2.returncode == 0: self.exe = e
            else: print('note: native replay binary not built: ' + (r.stdout + r2.stdout)[-800:])
        return self.exe
    def run(self, entry, rep, valgrind=False):
        e = self.build()
        if not e: return None, 'not available'
        cmd = ([ 'valgrind', '-q', '--show-mismatched-frees=no', '--error-exitcode=9' ] if valgrind else []) + [e, entry, rep]
        scratch = tempfile.mkdtemp(dir=self.tmp)
        try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, cwd=scratch)
        except subprocess.TimeoutExpired: return -100, 'timeout'
        return r.returncode, r.stdout.decode(errors='replace')

def main():
    import props
    if sys.argv[1:] == ['--setup']: build_lib(); print('setup done'); return
    pid = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick'); only = None; verbose = False
    for a in sys.argv[2:]:
        if a in ('quick', 'thorough'): tier = a
        elif a.startswith('--entry='): only = a[8:]
        elif a == '-v': verbose = True
    seed = int(os.environ.get('VERIF_SEED', '1')); t0 = time.time()
    P = props.PROPS[pid]; lib = build_lib(); t_build = time.time() - t0
    tmp = tempfile.mkdtemp(prefix='run-', dir=B); rc = 1
    try: rc = run(pid, P, tier, seed, lib, tmp, t0, t_build, only, verbose)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def run(pid, P, tier, seed, lib, tmp, t0, t_build, only, verbose):
    deep = 1 if tier == 'thorough' else 0
    entries = [e for e in P['entries'] if (only is None or e['name'] == only) and (deep or not e.get('thorough_only'))]
    hs = {}
    for e in entries: hs.setdefault(e['src'], None)
    def comp(src):
        out = tmp + '/' + os.path.basename(src)[:-4] + '.bc'
        r = sh([LL + 'clang++', '-std=gnu++14', '-I' + V + '/symx', '-I' + V + '/harness', '-DSX_DEEP=%d' % deep] + IR + DEFS + INCS + [V + '/harness/' + src, '-o', out])
        return src, out, r
    with ThreadPoolExecutor(NCPU) as ex:
        for src, out, r in ex.map(comp, list(hs)):
            if r.returncode: die('harness %s does not compile against the current tree:\n%s' % (src, r.stdout[-3000:]))
            hs[src] = out
    jobs = []
    for e in entries:
        o = dict(e); o.update(e.get('deep', {}) if deep else {}); n = o.get('shards', 1)
        for i in range(n): jobs.append((o, i, n))
    jobs.sort(key=lambda j: -j[0].get('weight', j[2]))
    def go(j):
        o, i, n = j; out = '%s/%s.%d.json' % (tmp, o['name'], i)
        cmd = [B + '/symx', hs[o['src']], lib + '/lib.bc', '--rt=' + lib + '/rt.bc', '--entry=' + o['name'], '--out=' + out, '--time=%d' % o.get('time', 300 if not deep else 3000), '--preempt=%d' % o.get('preempt', 2), '--shard=%d/%d' % (i, n), '--max-viol=%d' % o.get('max_viol', 6), '--mem=%d' % (20000 // max(1, min(NCPU, len(jobs))) if len(jobs) > 1 else 16000)]
        ct = o.get('ctors', 'none')
        if ct == 'none': cmd.append('--ctor-only=' + os.path.basename(o['src']))
        elif ct == 'all': cmd += ['--skip-ctor=I_Logger.cpp', '--skip-ctor=ConfLoader']
        else: cmd += ['--ctor-only=' + c for c in ct] + ['--ctor-only=' + os.path.basename(o['src'])]
        cmd += o.get('opts', [])
        r = sh(cmd)
        try: return o, json.load(open(out)), cmd
        except Exception: return o, {'complete': False, 'incomplete': ['engine failed rc=%s: %s' % (r.returncode, r.stdout[-400:])], 'violations': [], 'paths': 0, 'covers': {}, 'functions': [], 'samples': []}, cmd
    with ThreadPoolExecutor(NCPU) as ex: res = list(ex.map(go, jobs))
    known = json.load(open(V + '/known_findings.json')) if os.path.exists(V + '/known_findings.json') else []
    nat = {s: Native(lib, b, tmp) for s, b in hs.items()}
    tot = {k: 0 for k in ('paths', 'forks', 'sched_forks', 'instructions', 'assertions_evaluated', 'assertion_queries', 'queries', 'sat', 'unsat', 'unknown', 'solver_s')}
    covers, funcs, inc, viol, knownHit, samples, per = {}, set(), [], [], [], [], {}
    validated = 0; mismatches = []
    for o, r, cmd in res:
        for k in tot: tot[k] += r.get(k, 0)
        pe = per.setdefault(o['name'], dict(paths=0, queries=0, assertion_queries=0, solver_s=0.0, wall_s=0.0, complete=True, bounds=o.get('bounds', '')))
        for k in ('paths', 'queries', 'assertion_queries', 'solver_s'): pe[k] = round(pe[k] + r.get(k, 0), 3)
        pe['wall_s'] = round(max(pe['wall_s'], r.get('wall_s', 0)), 2); pe['complete'] = pe['complete'] and bool(r.get('complete'))
        cv = covers.setdefault(o['name'], {})
        for k, v in r.get('covers', {}).items(): cv[k] = cv.get(k, 0) + v
        funcs.update(r.get('functions', []))
        vi = r.get('violations', [])
        for x in r.get('incomplete', []):
            if not (x == 'violation limit reached' and vi): inc.append(o['name'] + ': ' + x)
        for v in vi: viol.append((o, v, cmd))
    # replay what was found
    final = []; seen = set(); knownCount = {}
    repdir = V + '/evidence/replays'; os.makedirs(repdir, exist_ok=True)
    for f in os.listdir(repdir):
        if f.startswith(pid + '-'): os.unlink(repdir + '/' + f)
    for o, v, cmd in viol:
        k = next((k for k in known if k.get('status') == 'known' and k['property'] == pid and k['entry'] == o['name'] and k['kind'] == v['kind'] and k['msg'] in v['msg'] and k.get('where', '') in v['where'] and inputs_match(k, v)), None)
        if k is not None:
            if k['id'] not in knownCount: knownCount[k['id']] = k
            continue
        key = (o['name'], v['kind'], v['msg'])
        if key in seen or len(final) >= 8: continue
        seen.add(key)
        rep = '%s/%s-%d.txt' % (repdir, pid, len(final) + 1)
        head = ['property %s entry %s' % (pid, o['name']), '%s: %s' % (v['kind'], v['msg']), 'at ' + v['where']]
        write_replay(rep, v['inputs'], v['sched'], head)
        out2 = tmp + '/replay.json'
        if os.path.exists(out2): os.unlink(out2)
        c2 = [x for x in cmd if not x.startswith(('--out=', '--shard='))] + ['--out=' + out2, '--replay=' + rep]
        sh(c2, timeout=600)
        try: er = json.load(open(out2)); eng = any(w['kind'] == v['kind'] and w['msg'] == v['msg'] for w in er['violations'])
        except Exception: eng = False
        natural = 'not replayed natively (schedule or engine-only harness)'; nconf = None
        if (not v['sched'] or o.get('native')) and not o.get('no_native') and v['kind'] != 'race':
            mem = v['kind'] not in ('assert', 'exception', 'deadlock', 'livelock')
            nrep = tmp + '/nrep.txt'; write_replay(nrep, v['inputs'], [], native=True)
            nrc, nout = nat[o['src']].run(o['name'], nrep, valgrind=mem)
            if nrc is not None:
                nconf = nrc not in (0, 3, 4, 5, -100) or (mem and nrc == -100)
                natural = 'native exit %s: %s' % (nrc, ' | '.join(l for l in nout.strip().splitlines()[:12]))
        with open(rep, 'a') as f:
            f.write('# engine concrete replay: %s\n# native replay: %s\n# engine: %s\n' % ('reproduced' if eng else 'NOT reproduced', natural, ' '.join(c2)))
        confirmed = (eng or nconf) and not (nconf is False and v['kind'] == 'assert')
        final.append((v, rep, confirmed, eng, nconf, o))
    # validate a few explored paths against the native code
    for o, r, cmd in res:
        if o.get('no_native') or o.get('no_validate'): continue
        sm = r.get('samples', [])
        lim = 4 if not deep else 24
        for s in sm[:lim]:
            if o.get('native_skip_sched') : continue
            rp = tmp + '/sample.txt'; write_replay(rp, s['inputs'], [], native=True)
            nrc, nout = nat[o['src']].run(o['name'], rp)
            if nrc is None: break
            exp = 'COVERS' + ''.join(' ' + c for c in s['covers'])
            if nrc == 0 and exp in nout.splitlines(): validated += 1
            else: mismatches.append('%s: native rc=%s: %s (inputs %s)' % (o['name'], nrc, nout[-300:], s['inputs'][:12]))
            if len(samples) < 4: samples.append({'entry': o['name'], 'inputs': [x for x in s['inputs'] if x[0][0] != '~'][:40], 'covers': s['covers']})
    missing = []
    for o, r, cmd in res:
        for c in o.get('covers', []):
            if not covers[o['name']].get(c) and (o['name'], c) not in missing: missing.append((o['name'], c))
    confirmed = [f for f in final if f[2]]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': {
        'states': tot['forks'] + tot['sched_forks'] + len(res), 'transitions': tot['instructions'], 'traces_validated_against_impl': validated, 'samples': samples or [{'entry': o['name'], 'inputs': [x for x in s['inputs'] if x[0][0] != '~'][:40]} for o, r, c in res for s in r.get('samples', [])[:1]][:3] or ['none'],
        'explanation': 'states: symbolic path states created; transitions: LLVM IR instructions executed symbolically; every assertion, memory access and branch on symbolic data was decided by Z3 for all values within the bounds',
        'paths': tot['paths'], 'scheduler_forks': tot['sched_forks'], 'assertions_evaluated': tot['assertions_evaluated'], 'assertions_sent_to_solver': tot['assertion_queries'], 'solver_queries': tot['queries'], 'solver_sat': tot['sat'], 'solver_unsat': tot['unsat'], 'solver_unknown': tot['unknown'], 'solver_s': round(tot['solver_s'], 3),
        'functions_encoded': sorted(funcs), 'functions_encoded_count': len(funcs), 'entries': per, 'reachability_witnesses': covers, 'exhaustive': not inc, 'not_explored': inc[:20], 'native_mismatches': mismatches[:5], 'build_s': round(t_build, 1), 'sources': len(sources())},
        'assumptions': P.get('assumptions', []) + props_common(), 'wall_s': round(time.time() - t0, 2), 'violations': len(confirmed)}
    os.makedirs(V + '/evidence', exist_ok=True)
    with open(V + '/evidence/%s.json' % pid, 'w') as f: json.dump(ev, f, indent=1)
    for k in knownCount.values(): print('KNOWN-FINDING: property=%s %s' % (pid, k['text']))
    for m in mismatches[:3]: print('note: explored path not matched natively: ' + m)
    print('%s %s: %d paths, %d instructions, %d queries (%.1f s solver), %d native traces, %d functions of /repo, %.0f s' % (pid, tier, tot['paths'], tot['instructions'], tot['queries'], tot['solver_s'], validated, len(funcs), time.time() - t0))
    for n, p in per.items(): print('  %-28s paths %-7d queries %-6d %.1fs %s' % (n, p['paths'], p['queries'], p['wall_s'], '' if p['complete'] else 'NOT EXHAUSTED'))
    for x in inc[:8]: print('  not explored: ' + x[:600])
    for v, rep, c, eng, nconf, o in final:
        print('  %s [%s] %s at %s (engine replay %s, native replay %s)' % (o['name'], v['kind'], v['msg'], v['where'][:300], eng, nconf))
    if confirmed:
        for v, rep, c, eng, nconf, o in confirmed: print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    if final: print('CHECK-ERROR: counterexample not reproduced'); return 2
    if missing: print('CHECK-ERROR: vacuous, not reached: %s' % missing); return 2
    if any(p['paths'] == 0 for p in per.values()): print('CHECK-ERROR: nothing explored'); return 2
    return 0

def inputs_match(k, v):
    d = {}
    for n, x in v['inputs']: d.setdefault(n, []).append(x)
    return all(n in d and (x is None or d[n][0] == x) for n, x in k.get('inputs', {}).items())
def props_common():
    return ['LLVM IR produced by clang 18 at -O1 with NDEBUG is the code analysed; the toolchain and Z3 4.8.12 are trusted', 'the C++ runtime, libc and Poco are replaced by the models in symx/rt*.cpp', 'heap allocation does not fail; addresses of distinct objects are far apart']
if __name__ == '__main__': main()
