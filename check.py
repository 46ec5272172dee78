#!/usr/bin/env python3
"""Decides one property:  check.py C05 [quick|thorough]
Compiles the property's harnesses against /repo/include to LLVM bitcode, executes every harness symbolically
(engine/sx, SMT-backed), validates one solver model per explored path against a native g++ build, replays every
counterexample natively, writes evidence/<id>.json."""
import sys, os, zlib, json, subprocess, time, glob, re, shutil, threading, fcntl
from concurrent.futures import ThreadPoolExecutor, as_completed
T0 = time.time()
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('ICL_REPO', '/repo')
PROP = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
ONLY = os.environ.get('SX_ONLY')                      # development: regular expression on entry names
DEADLINE = T0 + float(os.environ.get('SX_DEADLINE', '840' if TIER == 'quick' else '6600'))
JOBS = int(os.environ.get('SX_JOBS', str(os.cpu_count() or 8)))
B = os.path.join(V, 'build'); W = os.path.join(B, 'run', PROP + ('' if TIER == 'quick' else '-' + TIER)); EV = os.path.join(V, 'evidence')
CLANG = '/usr/bin/clang++-18'; LINK = '/usr/bin/llvm-link-18'
H = os.path.join(V, 'harness')
INC = ['-I' + os.path.join(REPO, 'include'), '-I' + H]
CF = ['-std=c++17', '-w', '-fno-exceptions', '-fno-rtti', '-DBOOST_NO_EXCEPTIONS', '-DBOOST_EXCEPTION_DISABLE'] + (['-DTHOROUGH'] if TIER == 'thorough' else [])
SYM = ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-pic', '-include', os.path.join(V, 'harness', 'pre_sym.hpp'), '-emit-llvm', '-c']

def die(msg, code=2):
    print('ERROR property=%s %s' % (PROP, msg)); sys.stdout.flush(); os._exit(code)

def sh(cmd, timeout=None, env=None):
    try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    except subprocess.TimeoutExpired: return -99, 'timeout'
    return p.returncode, p.stdout.decode('utf8', 'replace')

def build_engine():
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rc, out = sh(['make', '-s', '-C', os.path.join(V, 'engine'), 'B=' + B])
        if rc: raise RuntimeError('engine build failed: ' + out[-2000:])
        s, o = os.path.join(H, 'rt_sym.cpp'), os.path.join(B, 'rt_sym.bc')
        if not os.path.exists(o) or os.path.getmtime(o) < os.path.getmtime(s):
            rc, out = sh([CLANG] + CF[:4] + SYM + [s, '-o', o])
            if rc: raise RuntimeError('rt_sym build failed: ' + out[-2000:])

def compile_bc(src):
    nm = os.path.splitext(os.path.basename(src))[0]; bc = os.path.join(W, nm + '.0.bc')
    rc, out = sh([CLANG] + CF + INC + SYM + [src, '-o', bc])
    if rc: raise RuntimeError('harness %s does not compile against %s: %s' % (nm, REPO, '\n'.join([l for l in out.splitlines() if 'error' in l][:8])))
    return nm, bc

def compile_native(src, extra=(), suffix=''):
    nm = os.path.splitext(os.path.basename(src))[0]; exe = os.path.join(W, nm + '.nat' + suffix)
    tmp = exe + '.%d' % threading.get_ident()
    rc, out = sh(['g++'] + CF + ['-DSX_NATIVE', '-O1'] + list(extra) + INC + [src, os.path.join(H, 'rt_native.cpp'), '-o', tmp])
    if rc: raise RuntimeError('native harness %s does not compile: %s' % (nm, out[-1500:]))
    os.replace(tmp, exe); return exe

def load_known():
    p = os.path.join(V, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == PROP and k['status'] == 'open']

def main():
    srcs = sorted(glob.glob(os.path.join(H, 'props', PROP + '.cpp')) + glob.glob(os.path.join(H, 'props', PROP + '_*.cpp')))
    if TIER != 'thorough': srcs = [s for s in srcs if not s.endswith('_thorough.cpp')]
    if not srcs: die('no harness')
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W); os.makedirs(EV, exist_ok=True)
    evf = os.path.join(EV, PROP + '.json')
    if os.path.exists(evf): os.remove(evf)
    known = load_known()
    pool = ThreadPoolExecutor(JOBS)
    eng = pool.submit(build_engine)
    bcs = {s: pool.submit(compile_bc, s) for s in srcs}
    nats = {}
    results = {}; errors = []; reported = []; validated = [0, 0]; native_ok = {}
    lk = threading.Lock(); stop = threading.Event()
    eng.result()
    def one(src, nm, bc, entry):
        if stop.is_set(): return
        left = DEADLINE - time.time()
        if left < 5: 
            with lk: errors.append('%s: no time left' % entry)
            return
        js = os.path.join(W, '%s.%s.json' % (nm, entry)); pf = js[:-5] + '.paths'
        cmd = [os.path.join(B, 'sx'), bc, '--entry', entry, '--out', js, '--paths', pf, '--time', str(int(left - 2)), '--qtimeout', '60000', '--max-viol', '4']
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        while True:
            try: p.wait(0.2 if True else None); break
            except subprocess.TimeoutExpired:
                if stop.is_set(): p.kill(); p.wait(); return
        if stop.is_set(): return
        if p.returncode not in (0, 1, 2) or not os.path.exists(js):
            with lk: errors.append('%s: engine died (%s) %s' % (entry, p.returncode, p.stderr.read().decode()[-300:]))
            return
        d = json.load(open(js)); d['src'] = os.path.basename(src)
        with lk: results[(nm, entry)] = d
        kf = [k for k in known if k['harness'] == entry]
        fresh = False
        for v in d['violations']:
            k = next((k for k in kf if k['kind'] == v['kind'] and k['message'] in v['msg']), None)
            ok, how, path = replay(src, nm, entry, v)
            with lk:
                if not ok: errors.append('%s: counterexample did not reproduce natively (%s: %s; native: %s)' % (entry, v['kind'], v['msg'], how))
                elif k: reported.append(('known', entry, v, how, path, k))
                else: reported.append(('new', entry, v, how, path, None)); fresh = True
        if fresh and not os.environ.get('SX_KEEP_GOING'): stop.set(); return
        if d['error']:
            with lk: errors.append('%s: %s' % (entry, d['error']))
        elif d['paths'] == 0 or d['checks'] == 0:
            with lk: 
                if not d['violations']: errors.append('%s: vacuous (%d paths, %d checks)' % (entry, d['paths'], d['checks']))
        if d['unknown']:
            with lk: errors.append('%s: %d queries undecided' % (entry, d['unknown']))
        exe = nats[src].result()
        rc, out = sh([exe, '--validate', entry, pf], timeout=300)
        m = re.search(r'VALIDATED total=(\d+) ok=(\d+) bad=(\d+)', out)
        with lk:
            if not m or int(m.group(3)): errors.append('%s: native execution disagrees with the symbolic path: %s' % (entry, out[-600:]))
            if m: validated[0] += int(m.group(2)); validated[1] += int(m.group(3))
        try:
            with open(pf) as f: d['sample'] = f.readline().strip()
            os.remove(pf)
        except OSError: pass

    def replay(src, nm, entry, v):
        vec = ['0x' + i[2] for i in v['inputs']]; extra = []; suffix = ''; kind = v['kind']; run = []
        leak = kind == 'memory' and 'leak' in v['msg']
        if leak: extra = ['-DSX_COUNT_HEAP']; suffix = '.heap'
        elif kind in ('memory', 'trap', 'unreachable', 'div0', 'undef', 'ub'): extra = ['-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_SANITIZE_VECTOR']; suffix = '.asan'
        with lk: rl = native_ok.setdefault((src, suffix), threading.Lock())
        with rl:
            exe = os.path.join(W, nm + '.nat' + suffix)
            if suffix and not os.path.exists(exe): compile_native(src, extra, suffix)
        if not suffix: exe = nats[src].result()
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0', UBSAN_OPTIONS='halt_on_error=1')
        rc, out = sh([exe, '--replay', entry] + vec, timeout=60, env=env)
        first = (out.strip().splitlines() or [''])
        how = 'rc=%d %s' % (rc, ' | '.join(first[:3])[:300])
        ok = rc not in (0, 7, 8, 9)
        if kind == 'check': ok = rc == 1 and 'FAIL' in out
        if kind == 'budget': ok = rc == -14 or rc == -99 or rc < 0
        if not ok and kind in ('memory', 'undef') and not leak and shutil.which('valgrind'):
            rc, out = sh(['valgrind', '-q', '--error-exitcode=99', nats[src].result(), '--replay', entry] + vec, timeout=120)
            ok = rc == 99 or rc < 0; how += ' | valgrind rc=%d %s' % (rc, out[:200])
        rd = os.path.join(EV, 'replay'); os.makedirs(rd, exist_ok=True)
        n = zlib.crc32(repr((entry, v['kind'], v['msg'], vec)).encode()) % 100000
        path = os.path.join(rd, '%s-%s-%05d.sh' % (PROP, entry, n))
        with open(path, 'w') as f:
            f.write('#!/bin/sh\n# %s: %s: %s\n# at %s\n# inputs: %s\n' % (PROP, v['kind'], v['msg'], v['where'][-300:], ' '.join('%s=0x%s' % (i[0], i[2]) for i in v['inputs'])))
            f.write('set -e\nT=$(mktemp -d); trap \'rm -r "$T"\' EXIT\ng++ %s\nASAN_OPTIONS=detect_leaks=0 timeout 60 "$T/h" --replay %s %s\n' % (' '.join(CF + ['-DSX_NATIVE', '-O1'] + extra + INC + [src, os.path.join(H, 'rt_native.cpp'), '-o', '"$T/h"']), entry, ' '.join(vec)))
        os.chmod(path, 0o755)
        return ok, how, path

    def prep(src):
        nm, bc0 = bcs[src].result(); bc = os.path.join(W, nm + '.bc')
        rc, out = sh([LINK, bc0, os.path.join(B, 'rt_sym.bc'), '-o', bc])
        if rc: raise RuntimeError('link: ' + out[-500:])
        rc, out = sh([os.path.join(B, 'sx'), bc, '--entry', '--list'])
        es = out.split()
        if rc or not es: raise RuntimeError('no entries in ' + nm)
        return nm, bc, es
    futs = []
    preps = {s: pool.submit(prep, s) for s in srcs}
    for s in srcs: nats[s] = pool.submit(compile_native, s)
    nentries = 0
    for s in srcs:
        nm, bc, es = preps[s].result()
        for e in es:
            if ONLY and not re.search(ONLY, e): continue
            nentries += 1; futs.append(pool.submit(one, s, nm, bc, e))
    for f in as_completed(futs): f.result()
    if not nentries: die('no entries')
    # ---- report
    R = list(results.values()); tot = lambda k: sum(d[k] for d in R)
    fns = set(f for d in R for f in d['functions'])
    icl = sorted(set(re.sub(r'\s+', ' ', re.sub(r'\(.*$', '', f))[:160] for f in fns if 'boost::icl' in f))
    new = [r for r in reported if r[0] == 'new']; old = [r for r in reported if r[0] == 'known']
    samples = [{'harness': d['entry'], 'paths': d['paths'], 'path_condition_model_and_observations': d.get('sample', '')[:400]} for d in R[:6]]
    bf = os.path.join(V, 'bounds.json'); bounds = json.load(open(bf)) if os.path.exists(bf) else {}
    cov = {'states': tot('paths'), 'transitions': tot('branches'), 'traces_validated_against_impl': validated[0], 'samples': samples,
        'harnesses': {d['src'] + ':' + d['entry']: {'paths': d['paths'], 'forks': d['forks'], 'assertions': d['checks'], 'queries': d['sat'] + d['unsat'] + d['unknown'], 'solver_s': d['solver_s'], 'wall_s': d['wall_s']} for d in R},
        'explanation': 'states = feasible symbolic paths explored to completion; transitions = branch decisions taken on them; every path stands for all input values satisfying its path condition, and every assertion on it was discharged by an SMT query (or by simplification to a constant). One solver model per path was executed on the native g++ build and its observations compared.',
        'queries': {'sat': tot('sat'), 'unsat': tot('unsat'), 'unknown': tot('unknown'), 'integer_arithmetic': tot('queries_int'), 'bit_vector': tot('queries_bv')}, 'assertions': tot('checks'), 'assertion_queries': tot('check_queries'), 'solver_s': round(tot('solver_s'), 3), 'instructions_executed': tot('instructions'),
        'functions_encoded': len(fns), 'icl_functions_encoded': icl, 'bounds': bounds.get(PROP, {}).get(TIER, bounds.get(PROP, {})), 'bounds_common': bounds.get('common', ''), 'exhaustive': not errors and not reported,
        'known_findings_reproduced': [r[1] + ': ' + r[2]['msg'] for r in old], 'errors': errors[:20]}
    json.dump({'property': PROP, 'tier': 'thorough' if TIER == 'thorough' else 'quick', 'seed': SEED, 'level': 'model_checking', 'coverage': cov,
        'assumptions': ['clang-18 -O1 bitcode of the headers is what is executed symbolically (g++ native build cross-checked per path)', 'libstdc++ red-black-tree rebalancing is replaced by an unbalanced search tree with the same interface; sizes are bounded', 'Z3, the LLVM front end and engine/ are trusted'] + bounds.get('assumptions', []),
        'wall_s': round(time.time() - T0, 2), 'violations': len(new)}, open(evf, 'w'), indent=1)
    print('%s %s: %d harnesses, %d paths, %d assertions, %d queries, solver %.1fs, %d traces validated natively, wall %.1fs' % (PROP, TIER, len(R), tot('paths'), tot('checks'), tot('sat') + tot('unsat') + tot('unknown'), tot('solver_s'), validated[0], time.time() - T0))
    for r in sorted(set((r[5]['id'], r[5]['what']) for r in old)): print('KNOWN-FINDING: property=%s [%s] %s' % (PROP, r[0], r[1]))
    seen = set()
    for r in new:
        if (r[1], r[2]['msg']) in seen or len(seen) > 40: continue
        seen.add((r[1], r[2]['msg']))
        print('  %s: %s: %s  inputs: %s  native: %s' % (r[1], r[2]['kind'], r[2]['msg'], ' '.join('%s=0x%s' % (i[0], i[2]) for i in r[2]['inputs']), r[3][:140]))
    if new:
        print('VIOLATION property=%s replay=%s' % (PROP, new[0][4])); sys.stdout.flush(); os._exit(1)
    for e in errors: print('ERROR ' + e)
    if not os.environ.get('SX_KEEP'): shutil.rmtree(W, ignore_errors=True)
    sys.stdout.flush(); os._exit(2 if errors else 0)

try: main()
except Exception as e:
    import traceback; traceback.print_exc(); die(str(e))
