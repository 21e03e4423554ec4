#!/usr/bin/env python3
"""Plant a bug: seed.py <id> <spec.py>.  spec defines PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++ text)
or DEMO_SH.  Validates in a scratch copy and stores it under seeded/<id>."""
import json, os, re, shutil, subprocess, sys
ROOT='/verif'; WT='/tmp/wt'
sid, spec = sys.argv[1], sys.argv[2]
ns={}; exec(open(spec).read(), ns)
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if not os.path.exists(WT): sh('cp -a /repo %s'%WT)
head=sh('git -C /repo rev-parse HEAD').stdout.strip()
sh('cd %s && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git checkout -q -- .'%WT)
assert sh('git -C %s rev-parse HEAD'%WT).stdout.strip()==head
for f, old, new in ns['EDITS']:
    p=os.path.join(WT,f); s=open(p).read()
    assert s.count(old)==1, (f, s.count(old), old)
    open(p,'w').write(s.replace(old,new))
out=os.path.join(ROOT,'seeded',sid)
shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
diff=sh('git -C %s diff'%WT).stdout
open(out+'/patch.diff','w').write(diff)
if 'DEMO' in ns: open(out+'/demo.cpp','w').write(ns['DEMO'])
dsh=ns.get('DEMO_SH','''#!/bin/bash
# run in the repository after its build
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -O0 -w -pthread %s -I"$PWD" "$D/demo.cpp" "$PWD/_build/libfly.a" -o "$T/demo" || exit 2
cd "$T" && timeout %d ./demo
''' % (ns.get('FLAGS',''), ns.get('TIMEOUT',120)))
open(out+'/demo.sh','w').write(dsh); os.chmod(out+'/demo.sh',0o755)
json.dump(dict(property=ns['PROPERTY'],needs=ns['NEEDS'],what_it_breaks=ns['BREAKS']),open(out+'/meta.json','w'),indent=1)
ok=True
r=sh('make -f /opt/vp/libfly.mk -j8 SOURCE_ROOT=%s libfly tests'%WT)
if r.returncode: print('BUILD FAILED', r.stdout[-3000:]); ok=False
if ok:
    sh('rm -rf %s/_build/results; mkdir -p %s/_build/results'%(WT,WT))
    env=dict(os.environ,LC_ALL='C.UTF-8',RES_OPTIONS='timeout:1 attempts:1')
    sh('python3 /opt/vp/run_tests.py %s/_build/libfly_unit_tests %s/_build/results/lines.txt %s/_build/results/log.txt; python3 /opt/vp/results.py /tmp/seed.json lines:%s/_build/results/lines.txt'%(WT,WT,WT,WT), env=env, cwd=WT)
    b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed.json'))
    miss=set(b['stable'])-set(o['passed'])
    if miss: print('TESTS FAIL', len(miss), sorted(miss)[:10]); ok=False
    r1=sh('bash %s/demo.sh'%out, cwd=WT); print('demo patched rc', r1.returncode, r1.stdout[-600:])
    r0=sh('bash %s/demo.sh'%out, cwd='/repo'); print('demo clean rc', r0.returncode, r0.stdout[-600:])
    if r1.returncode==0 or r0.returncode!=0: ok=False
    if r1.returncode==2: ok=False; print('demo does not compile')
if ok and '--nocheck' not in sys.argv:
    r=sh('VERIF_REPO=%s VERIF_BUILD=/tmp/wtb timeout 900 python3 run.py %s quick'%(WT,ns['PROPERTY']), cwd=ROOT)
    print('CHECK rc',r.returncode, r.stdout[-900:])
sh('git -C %s checkout -q -- .'%WT)
print('SEED', sid, 'valid' if ok else 'INVALID')
if not ok: shutil.rmtree(out)
