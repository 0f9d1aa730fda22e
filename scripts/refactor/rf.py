#!/usr/bin/env python3
"""rf.py ROUND.py [-p PROP,..] [-i id,..] [-1]: applies behaviour-preserving edits to a copy of /repo and runs the checks on it.
A round file holds E = [(id, [(file, old, new), ...]), ...]. All edits of a round go into one copy; -1: one copy per edit."""
import sys, os, shutil, subprocess, runpy
V=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
env=dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOGC="400",
  PATH="/opt/veriftools/go1.27.3/bin:"+os.environ["PATH"])
a=sys.argv[1:]; rnd=a.pop(0); props=None; ids=None; single=False
while a:
    x=a.pop(0)
    if x=="-p": props=a.pop(0).split(",")
    elif x=="-i": ids=a.pop(0).split(",")
    elif x=="-1": single=True
E=[e for e in runpy.run_path(rnd)["E"] if not ids or e[0] in ids]
if not props: props=["C%02d"%i for i in range(1,27)]
def go(tag, es):
    W="/tmp/rf/%s-%s"%(os.path.basename(rnd)[:-3],tag)
    shutil.rmtree(W, ignore_errors=True); os.makedirs("/tmp/rf",exist_ok=True); shutil.copytree("/repo",W,symlinks=True)
    for id,edits in es:
        for f,o,n in edits:
            t=open(W+"/"+f).read()
            assert t.count(o)>=1,(id,f,o)
            open(W+"/"+f,"w").write(t.replace(o,n,1))
    r=subprocess.run("go build ./... && go vet -unsafeptr=false ./... >/dev/null; go test -vet=off -count=1 ./...",shell=True,cwd=W,env=env,capture_output=True,text=True)
    if r.returncode: print(tag,"BUILD/TEST FAILS",(r.stdout+r.stderr)[-1500:]); return
    for p in props:
        r=subprocess.run([V+"/bin/zv","check",p,"quick"],env=dict(env,ZREPO=W,ZVERIF="/tmp/rf/v"),capture_output=True,text=True)
        if r.returncode:
            o=r.stdout.split("\n")
            print(tag,p,"ALARM",len([l for l in o if l.startswith("  ")]),"\n   "+"\n   ".join(l[:260] for l in o[1:5]),flush=True)
        else: print(tag,p,"ok",flush=True)
    shutil.rmtree(W, ignore_errors=True)
if single:
    for e in E: go(e[0],[e])
else: go("all",E)
