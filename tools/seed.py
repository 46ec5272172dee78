#!/usr/bin/env python3
"""seed.py SPEC.py [id...]: plants each change of SPEC (list SEEDS of dicts id, prop, file, edits [(old,new)], needs, breaks, demo)
in /repo, confirms it (builds, stable tests pass, demo fails with it and passes without), stores it in /verif/seeded/<id>
and runs the property's quick check against it.  /repo is restored afterwards."""
import sys, os, json, subprocess as sp, runpy, shutil, time
V='/verif'; R=os.environ.get('SEED_REPO','/repo'); VP=os.environ.get('SEED_VP','/opt/vp')
DEMO='''#!/bin/bash
# run with cwd = the repository; exit 0 when the behaviour is right
d="$(cd "$(dirname "$0")" && pwd)"; t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -O1 -w %s -I"$PWD/include" -o "$t/demo" "$d/demo.cpp" || exit 3
timeout 60 "$t/demo"
'''
PRE='''#include <cstdio>
#include <cstdlib>
#define CHECK(x) do{ if(!(x)){ std::printf("FAILED line %d: %s\\n", __LINE__, #x); std::exit(1);} }while(0)
'''
def run(c, **k): return sp.run(c, shell=True, stdout=sp.PIPE, stderr=sp.STDOUT, text=True, **k)
def clean(): run('git -C %s checkout -- .' % R)
spec=runpy.run_path(sys.argv[1])['SEEDS']; want=sys.argv[2:]
base=set(json.load(open('/opt/vp/BASELINE.json'))['stable_pass']) if 'stable_pass' in json.load(open('/opt/vp/BASELINE.json')) else None
if base is None:
    b=json.load(open('/opt/vp/BASELINE.json')); base=set(b.get('passed') or b.get('stable') or b.get('tests') or [])
assert base
assert not run('git -C %s status --porcelain' % R).stdout.strip()
for s in spec:
    if want and s['id'] not in want: continue
    d='%s/seeded/%s'%(V,s['id']); os.makedirs(d,exist_ok=True)
    def rej(m): print(s['id'],'REJECTED',m,flush=True); shutil.rmtree(d); clean()
    ok=True
    for f,old,new in s['edits']:
        p=R+'/include/boost/icl/'+f; t=open(p).read()
        if t.count(old)!=1: ok=False; print('  count',t.count(old),f,old[:80]); break
        open(p,'w').write(t.replace(old,new))
    if not ok: rej('edit'); continue
    open(d+'/patch.diff','w').write(run('git -C %s diff'%R).stdout); clean()
    open(d+'/demo.cpp','w').write(PRE+s['demo']); open(d+'/demo.sh','w').write(DEMO % s.get('flags','')); os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
    r=run('bash %s/demo.sh'%d,cwd=R)
    if r.returncode: rej('demo fails on clean tree: '+r.stdout[-600:]); continue
    assert run('git -C %s apply %s/patch.diff'%(R,d)).returncode==0
    r=run('bash %s/demo.sh'%d,cwd=R)
    if r.returncode in (0,3): rej('demo rc %d with patch '%r.returncode+r.stdout[-400:]); continue
    msg=r.stdout.strip()[-100:]
    t0=time.time(); bad=None
    for e in ['fastest_interval_set','fastest_icl_interval','fastest_icl_map','fastest_interval_map','fastest_interval_map_mixed','fastest_interval_set_mixed']:
        if run('ninja -C %s/_build %s && timeout 100 %s/_build/bin/%s'%(R,e,R,e)).returncode: bad=e; break
    if bad: rej('first stage test fails: '+bad); continue
    run('bash %s/test.sh /tmp/w/seedtest.json'%VP); t1=time.time()
    got=set(json.load(open('/tmp/w/seedtest.json'))['passed']); miss=base-got
    if miss: rej('tests fail: %d e.g. %s (%.0fs)'%(len(miss),sorted(miss)[:2],t1-t0)); continue
    r=run('cd %s && ICL_REPO=%s python3 check.py %s quick'%(V,R,s['prop'])); t2=time.time()
    v=[l for l in r.stdout.splitlines() if 'VIOLATION property='+s['prop'] in l]
    print(s['id'],s['prop'],'CAUGHT' if r.returncode==1 and v else 'MISSED rc=%d'%r.returncode,'tests %.0fs check %.0fs'%(t1-t0,t2-t1),msg,flush=True)
    clean()
