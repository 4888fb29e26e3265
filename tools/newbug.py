#!/usr/bin/env python3
"""newbug.py SPEC.py...: writes /verif/seeded/<id>/ from a specification (id, property, needs, breaks, edits, main/demo).
Only a tool for writing planted changes; no check uses it."""
import sys,os,json,subprocess,shutil,tempfile
DEMO='''#!/bin/bash
# cwd: the repository. Exit 0 when the property holds.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"; cp "$here/main.rs" "$d/src/main.rs"; cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
mpstthree = { path = "$repo", features = [%s] }
mpst-seq-proc = { path = "$repo/mpst_seq_proc" }
crossbeam-channel = "0.5"
either = "1"
%s
T
cd "$d" && CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$d/target" cargo build --offline -q >"$d/log" 2>&1 || { tail -30 "$d/log"; exit 4; }
timeout -k 5 60 "$d/target/debug/demo"
'''
V="/verif/seeded"
for spec in sys.argv[1:]:
    ns={}; exec(open(spec).read(),ns)
    for b in ns["BUGS"]:
        d=f"{V}/{b['id']}"; os.makedirs(d,exist_ok=True)
        t=tempfile.mkdtemp()
        diff=""
        files={}
        for f,old,new,*n in b["edits"]:
            s=files.get(f) or open("/repo/"+f).read()
            k=n[0] if n else None
            if k is None:
                assert s.count(old)==1,(b['id'],f,old,s.count(old)); s=s.replace(old,new)
            else:
                parts=s.split(old); assert len(parts)>k+1,(b['id'],len(parts)); s=old.join(parts[:k+1])+new+old.join(parts[k+1:])
            files[f]=s
        for f,s in files.items():
            p=t+"/n"; open(p,"w").write(s)
            r=subprocess.run(["diff","-u","--label","a/"+f,"--label","b/"+f,"/repo/"+f,p],capture_output=True,text=True)
            diff+=f"diff --git a/{f} b/{f}\n"+r.stdout
        shutil.rmtree(t)
        open(d+"/patch.diff","w").write(diff)
        json.dump(dict(property=b["property"],needs=b["needs"],what_it_breaks=b["breaks"]),open(d+"/meta.json","w"),indent=1)
        if "main" in b:
            open(d+"/main.rs","w").write(b["main"])
            open(d+"/demo.sh","w").write(DEMO%(", ".join('"%s"'%x for x in b.get("features",["baking"])),b.get("deps","")))
        else: open(d+"/demo.sh","w").write(b["demo"])
        os.chmod(d+"/demo.sh",0o755)
        print(b["id"])
