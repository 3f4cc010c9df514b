#!/usr/bin/env python3
"""tools/mkseed.py <seed dir spec .py>: builds seeded/<id>/ from a spec that defines ID, PROP, FILE, OLD, NEW (or EDITS), NEEDS, BREAKS, DEMO (C++), MOCK."""
import sys,os,subprocess,json,shutil
V="/verif"
ns={}; exec(open(sys.argv[1]).read(),ns)
specs=ns["SEEDS"]
for s in specs:
    d=V+"/seeded/"+s["id"]; os.makedirs(d,exist_ok=True)
    edits=s.get("edits") or [(s["file"],s["old"],s["new"])]
    touched=set()
    try:
        for f,o,n in edits:
            p="/repo/dune/functions/"+f; t=open(p).read()
            assert t.count(o)==1,(s["id"],f,"occurrences",t.count(o))
            open(p,"w").write(t.replace(o,n)); touched.add(p)
        diff=subprocess.run(["git","-C","/repo","diff"],capture_output=True,text=True).stdout
    finally: subprocess.run(["git","-C","/repo","checkout","-q","--","."])
    open(d+"/patch.diff","w").write(diff)
    open(d+"/demo.cc","w").write(s["demo"])
    shutil.copytree(V+"/include",d+"/include",dirs_exist_ok=True)
    if s.get("mock"): shutil.copy(V+"/harness/mockgrid.hh",d+"/include/mockgrid.hh")
    open(d+"/demo.sh","w").write('''#!/bin/bash
# Compiles demo.cc against the headers in the current directory (/repo) and runs it.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -O0 -w -DHAVE_CONFIG_H -D_GLIBCXX_ASSERTIONS %s -I"$D/include" -I"$PWD" -isystem /opt/dune/venv/include "$D/demo.cc" -o "$T/demo" -L/opt/dune/venv/lib -ldunegrid -ldunegeometry -ldunecommon -Wl,--unresolved-symbols=ignore-all || exit 3
timeout 120 "$T/demo"
'''%s.get("flags",""))
    json.dump(dict(property=s["prop"],needs=s["needs"],what_it_breaks=s["breaks"]),open(d+"/meta.json","w"),indent=1)
    print("wrote",d)
