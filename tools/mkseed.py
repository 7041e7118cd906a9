#!/usr/bin/env python3
# mkseed.py ID: (re)build /verif/seeded/ID from tools/seeds/ID.py
#   PROP, FILE (or EDITS=[(file,old,new)]), PKG, DEMO (go test source, TestDemo), NEEDS, BREAKS
import sys,os,subprocess,json,shutil,runpy
env=dict(os.environ,GOFLAGS="-mod=mod",GOPROXY="off",GOTOOLCHAIN="local")
def sh(c,**k): return subprocess.run(c,shell=True,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
for sid in sys.argv[1:]:
    m=runpy.run_path(f"/verif/tools/seeds/{sid}.py")
    d=f"/verif/seeded/{sid}"; os.makedirs(d,exist_ok=True)
    w=f"/tmp/seed_{sid}"; shutil.rmtree(w,ignore_errors=True)
    sh(f"cp -a /repo {w}")
    open(d+"/demo_test.go","w").write(m["DEMO"])
    open(d+"/demo.sh","w").write(f'''#!/bin/bash
# runs demo_test.go inside {m["PKG"]} of the repository in the current directory
d=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
echo "{{\\"Replace\\":{{\\"$PWD/{m["PKG"]}/zz_demo_test.go\\":\\"$d/demo_test.go\\"}}}}" > "$tmp/overlay.json"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local TMPDIR=$tmp
go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 120s -run '^TestDemo$' ./{m["PKG"]}
''')
    os.chmod(d+"/demo.sh",0o755)
    r=sh(f"bash {d}/demo.sh",cwd=w)
    if r.returncode!=0: print(sid,"DEMO FAILS ON BASE",r.stdout[-1500:]); continue
    ok=True
    for f,old,new in m["EDITS"]:
        p=f"{w}/{f}"; s=open(p).read()
        if s.count(old)!=1: print(sid,"EDIT MATCHES",s.count(old),f); ok=False; break
        open(p,"w").write(s.replace(old,new))
    if not ok: continue
    patch=sh("git diff",cwd=w).stdout
    open(d+"/patch.diff","w").write(patch)
    b=sh("go build ./... && go vet ./internal/... 2>&1 | head -5",cwd=w)
    t=sh("go test ./... 2>&1",cwd=w)
    fails=[l for l in t.stdout.splitlines() if l.startswith("--- FAIL")]
    fails=[l for l in fails if "TestPing" not in l and "TestTasks" not in l]
    r=sh(f"bash {d}/demo.sh",cwd=w)
    json.dump({"property":m["PROP"],"needs":m["NEEDS"],"what_it_breaks":m["BREAKS"]},open(d+"/meta.json","w"),indent=1)
    status="OK" if b.returncode==0 and not fails and r.returncode!=0 else f"BAD build={b.returncode} {b.stdout[-300:]} fails={fails} demo={r.returncode}"
    print(sid,status)
    shutil.rmtree(w)
