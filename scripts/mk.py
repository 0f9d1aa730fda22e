#!/usr/bin/env python3
"""mk.py: writes planted bugs. Each entry of a batch file: dict(id, prop, needs, breaks, edits=[(file, old, new)], demo, pkg)."""
import json, os, shutil, subprocess, sys, runpy
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W="/tmp/sw"
b=runpy.run_path(sys.argv[1])["B"]
only=sys.argv[2:]
for s in b:
    if only and s["id"] not in only: continue
    d=f"{V}/seeded/{s['id']}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    shutil.rmtree(W, ignore_errors=True); shutil.copytree("/repo", W, symlinks=True)
    for f,o,n in s["edits"]:
        t=open(f"{W}/{f}").read()
        assert t.count(o)>=1, (s["id"], f, o, t.count(o))
        t=t.replace(o,n,1)
        open(f"{W}/{f}","w").write(t)
    p=subprocess.run(["git","-C",W,"diff"],capture_output=True,text=True).stdout
    open(d+"/patch.diff","w").write(p)
    open(d+"/demo_test.go","w").write(s["demo"])
    if s.get("pkg"): open(d+"/pkg","w").write(s["pkg"])
    shutil.copy(V+"/scripts/demo.sh", d+"/demo.sh")
    json.dump(dict(property=s["prop"],needs=s["needs"],what_it_breaks=s["breaks"]),open(d+"/meta.json","w"),indent=1)
    print(s["id"],flush=True)
    subprocess.run(["bash",V+"/scripts/seed.sh","test",s["id"]])
