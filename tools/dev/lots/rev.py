import re,subprocess,shutil,os,sys
sys.argv=['x','/dev/null']
src=open('/tmp/lot2/run.py').read().replace('\nmain()\n','\n')
exec(src)
benv=open('/opt/vp/env.sh').read().replace('cd /repo',f'cd {SC}'); open('/tmp/lot2/env.sh','w').write(benv)
for l in open('/verif/known-findings.txt'):
    m=re.match(r'fixed: property=(C\d\d) (\w{7}) (.*)',l)
    if not m: continue
    prop,cm,txt=m.groups()
    shutil.rmtree(SC,ignore_errors=True); subprocess.run(['git','clone','-q','/repo',SC])
    rc,o=sh(f'git -c user.name=a -c user.email=a@b revert --no-commit {cm}',SC)
    if rc: print(cm,prop,'CONFLICT',txt[:60],flush=True); continue
    gm=open(H+'/go.mod').read().replace('=> /repo','=> '+SC).replace('=> ../stubs','=> /verif/stubs')
    open('/tmp/lot2/go.mod','w').write(gm); shutil.copy(H+'/go.sum','/tmp/lot2/go.sum')
    ok=True
    for pk,out in (('github.com/webrpc/webrpc/cmd/webrpc-gen','webrpc-gen'),('./cmd/vhs','vhs'),('./cmd/vhg','vhg'))+((('-race ./cmd/vhg','vhgr'),) if prop=='C11' else ()):
        rc,o=sh(f"go build -modfile=/tmp/lot2/go.mod -ldflags '-X github.com/webrpc/webrpc.VERSION=v0.30.0' -o /tmp/lot2/bin/{out} {pk}",H,env=e)
        if rc: ok=False; print(cm,prop,'BUILD',o[-200:],flush=True); break
    if not ok: continue
    c,note=checks([prop],'quick')
    print(cm,prop,'caught' if c else 'MISSED',txt[:60],'|',note[60:140],flush=True)
