#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a property is claimed exactly if it has a harness."""
import json,glob,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA={} # property -> reason, for properties which the technique cannot reach
NOTE="Bounded: every integer, real, choice and history inside the bounds listed in the evidence file (and in DESIGN.md) is covered by the solver; nothing outside them. Trusts clang's IR, the engine in /verif/engine, z3, the replacement runtime /verif/rt/support.cc and the mock grid; double arithmetic is modelled as exact reals with tolerance 1e-6. Every counterexample is replayed on a native sanitizer build of the same harness before it is reported."
checks=[];na=[]
for l in open(V+"/properties.jsonl"):
    p=json.loads(l)["id"]
    if glob.glob(V+"/harness/%s_*.cc"%p):
        checks.append(dict(property=p,quick_cmd="python3 check.py %s quick"%p,thorough_cmd="python3 check.py %s thorough"%p,
          technique="symbolic execution of the LLVM IR of the real headers, assertions and branches decided by z3",level="model_checking",level_note=NOTE))
    else: na.append(dict(property=p,reason=NA.get(p,"no check built yet: the harness for this property is not finished")))
json.dump(dict(version=1,setup_cmd="make -C engine",checks=checks,not_applicable=na),open(V+"/MANIFEST.json","w"),indent=1)
print("claimed",[c["property"] for c in checks])
