#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the descriptions in the d*.py files next to this one.
usage: mk.py [ID...]"""
import sys,os,json,subprocess,glob
here=os.path.dirname(os.path.abspath(__file__))
OUT="/verif/seeded"; REPO="/repo"
HELP=open(here+"/helper.go.txt").read()
DEMO='''#!/bin/bash
# cwd: the repository. Fails (exit != 0) when the property is broken.
d=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root}
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
o=$(mktemp /tmp/demo-overlay.XXXXXX.json) || exit 3
trap 'rm -f "$o"' EXIT
printf '{"Replace":{"%%s/zz_demo_test.go":"%%s/demo.go.txt"}}' "$PWD/%(pkg)s" "$d" > "$o"
go test %(race)s-count=1 -timeout %(timeout)ds -overlay "$o" -run '^TestDemo$' ./%(pkg)s
'''
bugs=[]
def bug(**k): bugs.append(k)
for f in sorted(glob.glob(here+"/d*.py")):
    exec(compile(open(f).read(),f,"exec"),{"bug":bug})
want=set(sys.argv[1:])
for b in bugs:
    if want and b["id"] not in want: continue
    d=f"{OUT}/{b['id']}"; os.makedirs(d,exist_ok=True)
    edits=b["edits"]
    cur={}
    for f,old,new in edits:
        s=cur.get(f) or open(f"{REPO}/{f}").read()
        assert s.count(old)==1,(b["id"],f,s.count(old),old)
        cur[f]=s.replace(old,new)
    patch=""
    for f,s in cur.items():
        import tempfile
        with tempfile.NamedTemporaryFile("w",suffix=".go",delete=False) as t: t.write(s)
        p=subprocess.run(["diff","-u","--label","a/"+f,"--label","b/"+f,f"{REPO}/{f}",t.name],capture_output=True,text=True)
        os.unlink(t.name); assert p.returncode==1
        patch+=f"diff --git a/{f} b/{f}\n"+p.stdout
    open(d+"/patch.diff","w").write(patch)
    pkg=b.get("pkg","")
    open(d+"/demo.sh","w").write(DEMO%{"pkg":pkg,"timeout":b.get("timeout",120),"race":"-race " if b.get("race") else ""}); os.chmod(d+"/demo.sh",0o755)
    body=b["demo"]
    helper=b.get("helper",pkg=="")
    name=b.get("pkgname","gev")
    imports=sorted(set(b.get("imports",[])+(["net","time","testing","sync","io","bytes"] if helper else ["testing"])))
    src="package "+name+"\n\nimport (\n"+"".join(f'\t{i}\n' if '"' in i else f'\t"{i}"\n' for i in imports)+")\n\n"
    if helper: src+=HELP+"\n"
    src+=body.strip("\n")+"\n"
    open(d+"/demo.go.txt","w").write(src)
    json.dump({"property":b["prop"],"needs":b["needs"],"what_it_breaks":b["breaks"]},open(d+"/meta.json","w"),indent=1)
    print(b["id"])
