#!/usr/bin/env python3
"""Development tool: turns the planted-bug table (tools/bugs/*.py) into /verif/seeded/<id>/ and tries each one.
   plant.py make [ID..]   write patch.diff, demo.sh, meta.json (patch made in a scratch copy of the sources)
   plant.py scratch ID..  apply in a scratch clone ($PT, default /tmp/pt), build, tests, demo, property's quick check
   plant.py try ID..      apply in /repo, build, tests, demo, property's quick check, undo"""
import sys, os, glob, json, subprocess, tempfile, shutil
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO="/repo"
BUGS={}
def bug(id, prop, edits, demo, needs, breaks, shim=False, tags=()):
    BUGS[id]=dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,shim=shim)
S="CMakePasm/source/"
for f in sorted(glob.glob(os.path.join(ROOT,"tools/bugs/*.py"))):
    exec(compile(open(f).read(),f,"exec"))
def edit(base,path,reps):
    p=os.path.join(base,path)
    b=open(p,newline='',encoding='latin-1').read()
    crlf='\r\n' in b
    s=b.replace('\r\n','\n')
    for o,n in reps:
        assert s.count(o)==1,(path,s.count(o),o)
        s=s.replace(o,n)
    if crlf: s=s.replace('\n','\r\n')
    open(p,'w',newline='',encoding='latin-1').write(s)
def make(id):
    b=BUGS[id]; d=os.path.join(ROOT,"seeded",id)
    os.makedirs(d,exist_ok=True)
    t=tempfile.mkdtemp(prefix="plant.")
    try:
        subprocess.check_call(["git","clone","-q","--no-hardlinks",REPO,t+"/r"])
        for path,reps in b['edits'].items(): edit(t+"/r",path,reps)
        diff=subprocess.check_output(["git","-C",t+"/r","diff","--binary"])
        open(d+"/patch.diff","wb").write(diff)
    finally:
        shutil.rmtree(t)
    open(d+"/demo.sh","w").write("#!/bin/bash\n. \"$(dirname \"$0\")/lib.sh\"\n"+b['demo'].strip("\n")+"\nexit 0\n")
    os.chmod(d+"/demo.sh",0o755)
    shutil.copy(os.path.join(ROOT,"tools/seeded_lib/lib.sh"),d)
    if b['shim']: shutil.copy(os.path.join(ROOT,"tools/seeded_lib/shim.c"),d)
    json.dump({"property":b['prop'],"needs":b['needs'],"what_it_breaks":b['breaks']},open(d+"/meta.json","w"),indent=1)
def sh(cmd,log,**k):
    return subprocess.call(cmd,shell=True,stdout=open(log,"a"),stderr=subprocess.STDOUT,**k)
def trial(id,checks):
    b=BUGS[id]; d=os.path.join(ROOT,"seeded",id); log="/tmp/plant.%s.log"%id
    open(log,"w").close()
    r={}
    r['demo_clean']=sh("timeout 300 %s/demo.sh"%d,log,cwd=REPO)
    if sh("git -C %s apply %s/patch.diff"%(REPO,d),log): return id,"patch does not apply"
    try:
        r['build']=sh("bash /opt/vp/build.sh",log)
        out="/tmp/plant.%s.json"%id
        sh("bash /opt/vp/test.sh %s"%out,log)
        base=json.load(open("/opt/vp/BASELINE.json")); got=json.load(open(out))
        key=[k for k in base if isinstance(base[k],list) and base[k]]
        want=set(base['stable'])
        have=set(map(str,got.get('passed') or []))
        r['tests_lost']=sorted(want-have)[:3]
        r['demo_bug']=sh("timeout 300 %s/demo.sh"%d,log,cwd=REPO)
        for c in checks if checks else [b['prop']]:
            p=subprocess.run([ROOT+"/check.sh",c],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,env=dict(os.environ,VERIF_SEED="1",VERIF_TIER="quick"))
            o=p.stdout.decode(errors='replace'); open(log,"a").write(o)
            r[c]=(p.returncode,[l for l in o.splitlines() if l.startswith("VIOLATION")][:1])
    finally:
        subprocess.call(["git","-C",REPO,"checkout","-q","--","."])
    return id,r
def scratch(id,checks,pt):
    """as trial, in a scratch clone with its own build (usable while something else needs /repo)"""
    b=BUGS[id]; d=os.path.join(ROOT,"seeded",id); log="/tmp/plant.%s.log"%id; open(log,"w").close(); r={}
    build=("W=%s/_build; B=$W/pasm; rm -rf $W/CMakePasm; mkdir -p $W/CMakePasm; cp -r %s/CMakePasm/samples $W/CMakePasm/; [ -f $B/build.ninja ] || cmake -S %s/CMakePasm -B $B -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest -DCMAKE_CXX_FLAGS=-Wno-error -DCMAKE_C_FLAGS=-Wno-error; ninja -C $B eolconvert && ninja -C $B -j8"%(pt,pt,pt))
    if not os.path.isdir(pt): subprocess.check_call(["git","clone","-q","--no-hardlinks",REPO,pt])
    subprocess.check_call(["git","-C",pt,"fetch","-q",REPO,"HEAD"]); subprocess.check_call(["git","-C",pt,"reset","-q","--hard","FETCH_HEAD"])
    stamp=pt+".built"; head=subprocess.check_output(["git","-C",pt,"rev-parse","HEAD"]).decode()
    if not os.path.exists(stamp) or open(stamp).read()!=head:
        if sh(build,log): return id,"clean build failed"
        open(stamp,"w").write(head)
        subprocess.call("rm -rf %s.bin && mkdir -p %s.bin && cp -a %s/_build %s.bin/"%(pt,pt,pt,pt),shell=True)
    clean=pt+".bin"
    r['demo_clean']=sh("timeout 300 %s/demo.sh"%d,log,cwd=clean)
    if sh("git -C %s apply %s/patch.diff"%(pt,d),log): return id,"patch does not apply"
    try:
        r['build']=sh(build,log)
        o=subprocess.run("cd %s/_build/pasm/unittests && rm -f *.a *.txt *.bin *.sym *.lst; ctest -j1 --timeout 5"%pt,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT).stdout.decode(errors='replace')
        r['tests_lost']=[l for l in o.splitlines() if l.startswith("\t") and "expand_operator_not_node_test" not in l][:3]
        r['demo_bug']=sh("timeout 300 %s/demo.sh"%d,log,cwd=pt)
        for c in checks if checks else [b['prop']]:
            p=subprocess.run([ROOT+"/check.sh",c],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,env=dict(os.environ,VERIF_SEED="1",VERIF_TIER="quick",VERIF_REPO=pt,VERIF_BUILD=pt+".sim"))
            o=p.stdout.decode(errors='replace'); open(log,"a").write(o)
            r[c]=(p.returncode,[l for l in o.splitlines() if l.startswith("VIOLATION") or l.startswith("case ")][:1])
    finally:
        subprocess.call(["git","-C",pt,"checkout","-q","--","."])
    ok=r['demo_clean']==0 and r['build']==0 and not r['tests_lost'] and r['demo_bug'] not in (0,2,124)
    return id,("GOOD" if ok else "BAD DEMO"),r
if __name__=="__main__":
    cmd=sys.argv[1]; ids=[a for a in sys.argv[2:] if not a.startswith("-c")]; checks=[a[2:] for a in sys.argv[2:] if a.startswith("-c")]
    if not ids: ids=list(BUGS)
    for i in ids:
        make(i)
        if cmd=="scratch": print(*scratch(i,checks,os.environ.get("PT","/tmp/pt")),flush=True)
        if cmd=="try": print(*trial(i,checks),flush=True)
    if cmd=="try": subprocess.call("bash /opt/vp/build.sh >/dev/null 2>&1",shell=True)
