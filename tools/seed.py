"""plant one bug: python3 tools/seed.py spec.json   (see tools/seeds/*.json; development helper, no check uses it)

spec: {"id","property","file","old","new","nth"?,"edits"?[[file,old,new]...],"demo": shell text | "ccml"+"expect", "needs","what_it_breaks"}
"""
import json, os, subprocess, sys, shutil, stat
REPO='/repo'; V='/verif'
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def replace(t,old,new,nth):
    i=-1
    for _ in range((nth or 1)):
        i=t.find(old,i+1)
        if i<0: raise SystemExit('text not found: '+old)
    if not nth and t.count(old)!=1: raise SystemExit('text not unique (%d): %s'%(t.count(old),old))
    return t[:i]+new+t[i+len(old):]
CC='''#!/bin/bash
# runs a script on the built driver and compares what it reports
here="$(cd "$(dirname "$0")" && pwd)"
drv="$(pwd)/_build/nano_driver"
d="$(mktemp -d)"; trap 'rm -r "$d"' EXIT
cp "$here"/*.ccml "$d"; cd "$d"
out="$(timeout 60 "$drv" main.ccml 2>&1; echo "rc=$?;")"
echo "$out" | tail -5
echo "$out" | grep -qF -- "%s"
'''
CPP='''#!/bin/bash
# builds a small host program against the sources and runs it
here="$(cd "$(dirname "$0")" && pwd)"
src="$(pwd)/source"
d="$(mktemp -d)"; trap 'rm -r "$d"' EXIT
cd "$d"
for f in "$src"/lib_common/*.cpp "$src"/lib_compiler/*.cpp "$src"/lib_vm/*.cpp "$src"/lib_builtins/*.cpp; do
  [ -f "$f" ] && echo "$f"
done > files
xargs -P 8 -n 4 g++ -std=gnu++17 -O0 -w -include cstring -D__error_t_defined=1 -I"$src" -I"$src"/lib_common -I"$src"/lib_compiler -I"$src"/lib_vm -I"$src"/lib_builtins -c < files || exit 99
g++ -std=gnu++17 -O0 -w -include cstring -D__error_t_defined=1 -I"$src" -I"$src"/lib_common -I"$src"/lib_compiler -I"$src"/lib_vm -I"$src"/lib_builtins "$here"/demo.cpp *.o -lm -o demo || exit 99
timeout 100 ./demo
'''
def main(p):
    s=json.load(open(p)); d=V+'/seeded/'+s['id']
    if sh('git -C /repo status --porcelain').stdout.strip(): raise SystemExit('repo dirty')
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d)
    for n,t in s.get('files',{}).items(): open(d+'/'+n,'w').write(t)
    if 'ccml' in s:
        open(d+'/main.ccml','w').write(s['ccml']); demo=CC%s['expect']
    elif 'cpp' in s:
        open(d+'/demo.cpp','w').write(s['cpp']); demo=CPP
    else: demo=s['demo']
    open(d+'/demo.sh','w').write(demo); os.chmod(d+'/demo.sh',0o755)
    json.dump({k:s[k] for k in('property','needs','what_it_breaks')},open(d+'/meta.json','w'),indent=1)
    ok=True
    try:
        for e in s.get('edits') or [[s['file'],s['old'],s['new'],s.get('nth')]]:
            f=REPO+'/source/'+e[0]; t=open(f,newline='').read()
            o,n=e[1],e[2]
            if '\r\n' in t: o=o.replace('\n','\r\n'); n=n.replace('\n','\r\n')
            open(f,'w',newline='').write(replace(t,o,n,e[3] if len(e)>3 else None))
        open(d+'/patch.diff','w',newline='').write(subprocess.run('git -C /repo diff --binary',shell=True,stdout=subprocess.PIPE).stdout.decode())
        b=sh('bash /opt/vp/build.sh')
        if b.returncode: print('BUILD FAILS\n',b.stdout[-1500:]); ok=False
        else:
            sh('bash /opt/vp/test.sh /tmp/seed_o.json')
            o=json.load(open('/tmp/seed_o.json')); base=json.load(open('/opt/vp/BASELINE.json'))
            ps=set(o.get('passed',[])); bs=set(base.get('passed',base.get('stable',[])) if isinstance(base,dict) else base)
            miss=bs-ps
            if miss or not bs: print('TESTS FAIL',len(miss),sorted(miss)[:5]); ok=False
            r=sh('bash %s/demo.sh'%d,cwd=REPO)
            if r.returncode==0 or r.returncode==99: print('DEMO did not fail with the bug rc',r.returncode,r.stdout[-600:]); ok=False
            else: print('with bug: rc',r.returncode,r.stdout[-200:])
    finally:
        sh('git -C /repo checkout -- .')
    b=sh('bash /opt/vp/build.sh')
    r=sh('bash %s/demo.sh'%d,cwd=REPO)
    if r.returncode: print('DEMO fails on the clean tree',r.returncode,r.stdout[-600:]); ok=False
    print(s['id'],'OK' if ok else 'REJECTED')
    if not ok: shutil.rmtree(d)
for p in sys.argv[1:]: main(p)
