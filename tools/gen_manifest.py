#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties that have a program in mc/props/src/bin."""
import json,os
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
TECH={}
CONC="stateless model checking of the real code: controlled scheduler, dynamic partial-order reduction with sleep sets, exhaustive environment choices"
ENUM="bounded exhaustive exploration of the real code against a reference model (explicit-state comparison)"
TIME="stateless model checking of the real code in virtual time (scheduler + clock interposition), exhaustive over schedules and delays"
T={"C01":CONC,"C02":CONC,"C03":CONC,"C04":CONC,"C05":CONC,"C06":CONC,"C07":CONC,"C08":CONC,"C09":CONC,"C10":CONC,
"C11":"explicit-state conformance checking: every state (endpoint type) and action of a bounded reference automaton is replayed against the real compiler and library, acceptance and result types compared",
"C12":TIME,"C13":TIME,"C14":TIME,"C15":CONC,"C16":ENUM,"C17":ENUM,"C18":ENUM,"C19":ENUM,"C20":ENUM,
"C21":"stateless model checking of the real code with interposed I/O: every fragmentation, cut and error of the byte stream","C22":CONC,"C23":ENUM}
NOTE={"default":"bounded: exhaustive within the alphabet, sizes and role counts listed in DESIGN.md and in the evidence; channels are a scheduler-aware replacement compared with the real crate"}
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
checks=[];na=[]
for p in props:
    i=p["id"]
    if any(os.path.exists(f"{V}/mc/{d}/src/bin/{i.lower()}.rs") for d in ("props","mp")) or os.path.exists(f"{V}/tools/{i.lower()}.py"):
        checks.append(dict(property=i,quick_cmd=f"tools/check.sh {i} quick",thorough_cmd=f"tools/check.sh {i} thorough",
            technique=T[i],level="model_checking",level_note=NOTE["default"]))
    else:
        na.append(dict(property=i,reason="check not built yet"))
json.dump(dict(version=1,setup_cmd="tools/setup.sh",hooks=dict(guard="none",enable="no hooks: the checks interpose at the crossbeam-channel crate boundary ([patch.crates-io]) and at libc entry points, /repo is built unmodified",source_commits=[]),checks=checks,not_applicable=na),open(V+"/MANIFEST.json","w"),indent=1)
print(len(checks),"checks",len(na),"not claimed")
