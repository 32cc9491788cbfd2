#!/usr/bin/env python3
"""plant.py new FILE.py...   make seeded/<id> from a description (id,prop,edits,demo,needs,what[,demosh])
   plant.py test ID...       demo without / with the patch, stable tests with the patch
   plant.py check ID [seeds] run the property's quick check on the patched tree"""
import sys,os,json,subprocess,shutil,time,runpy
S='/verif/seeded'
DEMO='''#!/bin/bash
# Exit 0: behaves as documented. Compiles the program beside this script against the library in the
# current directory and runs it.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap '/bin/rm -rf "$t"' EXIT
%s
'''
RUN='''g++ -std=c++17 -O0 -w %s -I include "$d/demo.cpp" -o "$t/demo" -pthread || exit 3
timeout 60 "$t/demo"'''
HEAD='''#include "hsm/hsm.h"
#include <cstdio>
#include <string>
#include <vector>
#include <memory>
#define CHECK(x) do { if (!(x)) { std::printf("line %d: %s\\n", __LINE__, #x); return 1; } } while (0)
'''
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def scratch(i):
    t='/tmp/pl/'+i
    if not os.path.exists(t):
        os.makedirs('/tmp/pl',exist_ok=True); sh(f'cp -a /repo {t}')
    return t
def new(f):
    b=runpy.run_path(f); i=b['id']; d=f'{S}/{i}'; os.makedirs(d,exist_ok=True)
    t=scratch(i); sh(f'cd {t} && git checkout -q -- . && git clean -fdq include')
    for (fn,old,neu) in b['edits']:
        p=f'{t}/include/hsm/{fn}'; s=open(p).read()
        assert s.count(old)==1,(i,fn,s.count(old),old)
        open(p,'w').write(s.replace(old,neu))
    open(d+'/patch.diff','w').write(sh(f'cd {t} && git diff').stdout)
    open(d+'/demo.cpp','w').write((HEAD if b.get('head',True) else '')+b['demo'])
    open(d+'/demo.sh','w').write(DEMO%(b.get('demosh') or RUN%b.get('flags','')))
    os.chmod(d+'/demo.sh',0o755)
    json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['what']),open(d+'/meta.json','w'),indent=1)
    return i
def ns(t,cmd,timeout=1000):
    return sh(f"timeout {timeout} unshare -rm sh -c 'mount --bind {t} /repo && cd /repo && {cmd}'")
def test(i):
    t=scratch(i); d=f'{S}/{i}'
    sh(f'cd {t} && git checkout -q -- . && git clean -fdq include')
    r0=sh(f'cd {t} && bash {d}/demo.sh')
    a=sh(f'cd {t} && git apply {d}/patch.diff'); assert a.returncode==0,a.stdout
    r1=sh(f'cd {t} && bash {d}/demo.sh')
    b=ns(t,f'bash /opt/vp/test.sh /tmp/pl/{i}.json')
    try: o=json.load(open(f'/tmp/pl/{i}.json'))
    except Exception: o=dict(passed=[],failed=['?'])
    base=json.load(open('/opt/vp/BASELINE.json')); l=base.get('stable') or base.get('passed') or base
    miss=[x for x in l if x not in o['passed']]
    ok=r0.returncode==0 and r1.returncode!=0 and not miss
    print(i,'OK' if ok else 'BAD','demo',r0.returncode,r1.returncode,'missing tests',len(miss),miss[:6],flush=True)
    if r0.returncode: print(r0.stdout[-1500:])
    if ok: print('   ',r1.stdout.strip()[-200:].replace('\n',' | '))
    if len(miss)>100: print(b.stdout[-1500:])
    return ok
def check(i,seeds,prop=None):
    t=scratch(i); d=f'{S}/{i}'
    sh(f'cd {t} && git checkout -q -- . && git clean -fdq include && git apply {d}/patch.diff')
    p=prop or json.load(open(d+'/meta.json'))['property']
    for s in seeds:
        t0=time.time()
        r=ns(t,f'cd /verif && VERIF_SEED={s} VERIF_TIER=quick python3 tools/check.py {p} --tier quick',1000)
        v=[x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
        print(i,p,'seed',s,'rc',r.returncode,f'{time.time()-t0:.0f}s',v[:1],flush=True)
        open(f'/tmp/pl/{i}.{p}.{s}.log','w').write(r.stdout)
def clean(i): shutil.rmtree('/tmp/pl/'+i,ignore_errors=True)
c=sys.argv[1]
if c=='new':
    for f in sys.argv[2:]:
        try:
            i=new(f); test(i)
        except AssertionError as e: print('ASSERT',f,e)
elif c=='test':
    for i in sys.argv[2:]: test(i)
elif c=='check':
    check(sys.argv[2],[int(x) for x in (sys.argv[3] if len(sys.argv)>3 else '1').split(',')],sys.argv[4] if len(sys.argv)>4 else None)
elif c=='clean':
    for i in sys.argv[2:]: clean(i)
