#!/usr/bin/env python3
"""mk.py: authors bugs from bugs/*.py definitions: dict(id, prop, edits=[(file, old, new)], needs, breaks, demo={name: content}, run=shell)"""
import sys, os, json, subprocess, shutil, importlib.util
SC="/tmp/plant/repo"
def sh(cmd, cwd=None, **k): return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)
HEAD='''#!/bin/bash
# exit 0: behaves as it should; run with cwd /repo
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export HOME=/root PATH=/opt/veriftools/go1.25.14/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build GOFLAGS=-mod=mod
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
'''
STUB='''mkdir "$tmp/golang" "$tmp/typescript"
for n in golang typescript; do
    printf 'module github.com/webrpc/gen-%s\\n\\ngo 1.19\\n' $n > "$tmp/$n/go.mod"
    printf 'package %s\\n\\nimport "embed"\\n\\n//go:embed *.go.tmpl\\nvar FS embed.FS\\n' $n > "$tmp/$n/embed.go"
    printf '{{define "main"}}package main\\n{{end}}' > "$tmp/$n/main.go.tmpl"
done
cp go.mod go.sum "$tmp/"
go mod edit -replace=github.com/webrpc/gen-golang="$tmp/golang" -replace=github.com/webrpc/gen-typescript="$tmp/typescript" "$tmp/go.mod" || exit 2
'''
def gotest(pkg, name, stub=False, extra=""):
    s=HEAD+(STUB if stub else "")
    s+=f'''printf '{{"Replace": {{"%s": "%s"}}}}' "$repo/{pkg}/zz_demo_test.go" "$here/demo_test.go" > "$tmp/overlay.json"
go test {'-modfile="$tmp/go.mod" ' if stub else ''}-overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 60s {extra}-run '^{name}$' ./{pkg}
'''
    return s
def genrun(body):
    return HEAD+STUB+'''go build -modfile="$tmp/go.mod" -o "$tmp/webrpc-gen" ./cmd/webrpc-gen || exit 2
cd "$tmp" || exit 2
'''+body
def demo(d, repo): return sh(f"bash {d}/demo.sh", cwd=repo, timeout=300)
def main(path, only):
    spec=importlib.util.spec_from_file_location("b",path); m=importlib.util.module_from_spec(spec)
    m.gotest=gotest; m.genrun=genrun; m.HEAD=HEAD; m.STUB=STUB
    spec.loader.exec_module(m)
    base=sh("git rev-list --max-parents=0 HEAD",cwd="/repo").stdout.split()[0]
    for b in m.BUGS:
        if only and b["id"] not in only: continue
        shutil.rmtree("/tmp/plant",ignore_errors=True); os.makedirs("/tmp/plant"); sh(f"cp -a /repo {SC}")
        ok=True
        for f,old,new in b["edits"]:
            p=f"{SC}/{f}"; s=open(p).read()
            if s.count(old)!=1: print(b["id"],"EDIT count",s.count(old),f,repr(old[:60])); ok=False; break
            open(p,"w").write(s.replace(old,new))
        if not ok: continue
        r=sh("gofmt -l schema gen cmd tests *.go",cwd=SC)
        if r.stdout.strip(): print(b["id"],"gofmt",r.stdout, r.stderr)
        diff=sh("git diff",cwd=SC).stdout
        # removed lines must be of the base commit
        origin=0
        import re
        for f in {e[0] for e in b["edits"]}:
            bl=sh(f"git blame -l -s HEAD -- {f}",cwd=SC).stdout.splitlines()
            d=sh(f"git diff -U0 -- {f}",cwd=SC).stdout
            for mm in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ",d,re.M):
                st=int(mm[1]); n=int(mm[2]) if mm[2] else 1
                for i in range(st,st+n):
                    h=bl[i-1].split()[0].lstrip("^")
                    if base.startswith(h): origin+=1
                    else: print(b["id"],"  not original:",bl[i-1][41:])
        env=f"cd {SC} && "
        benv=open("/opt/vp/env.sh").read().replace("cd /repo",f"cd {SC}")
        open("/tmp/plant/env.sh","w").write(benv)
        for n in ("build.sh","test.sh"):
            open(f"/tmp/plant/{n}","w").write(open(f"/opt/vp/{n}").read().replace("/opt/vp/env.sh","/tmp/plant/env.sh"))
        r=sh("bash /tmp/plant/build.sh")
        if r.returncode: print(b["id"],"BUILD",r.stderr[-500:]); continue
        sh("bash /tmp/plant/test.sh /tmp/plant/o.json"); o=json.load(open("/tmp/plant/o.json"))
        st=set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        missing=st-set(o["passed"])
        if missing: print(b["id"],"TESTS FAIL",sorted(missing)[:5]); continue
        dst=f"/verif/seeded/{b['id']}"; shutil.rmtree(dst,ignore_errors=True); os.makedirs(dst)
        open(f"{dst}/patch.diff","w").write(diff)
        open(f"{dst}/demo.sh","w").write(b["run"]); os.chmod(f"{dst}/demo.sh",0o755)
        for n,c in b.get("demo",{}).items(): open(f"{dst}/{n}","w").write(c)
        json.dump({"property":b["prop"],"needs":b["needs"],"what_it_breaks":b["breaks"]},open(f"{dst}/meta.json","w"),indent=1)
        r1=demo(dst,SC); r0=demo(dst,"/repo")
        good=r0.returncode==0 and r1.returncode!=0 and origin>0
        print(b["id"],b["prop"],"OK" if good else "BAD","orig",origin,"patched",r1.returncode,"clean",r0.returncode)
        if not good or r1.returncode==2: print(" P:",(r1.stdout+r1.stderr)[-900:],"\n C:",(r0.stdout+r0.stderr)[-900:])
        elif "-v" in sys.argv: print(" P:",(r1.stdout+r1.stderr)[-400:])
    shutil.rmtree("/tmp/plant",ignore_errors=True)
    if sh("git status --short",cwd="/repo").stdout: print("REPO DIRTY")
main(sys.argv[1],[a for a in sys.argv[2:] if not a.startswith("-")])
