#!/usr/bin/env python3
"""run.py lots.py [ids]: each bug in a copy: stable tests, then its property's check (quick); survivors: all checks"""
import sys,os,subprocess,shutil,json,importlib.util
SC='/tmp/lot/repo'; H='/verif/harness'
def sh(c,cwd=None,t=900,env=None):
    try:
        r=subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,errors='replace',timeout=t,env=env); return r.returncode,r.stdout+r.stderr
    except subprocess.TimeoutExpired: return 124,'timeout'
e=dict(os.environ,HOME='/root',PATH='/opt/veriftools/go1.25.14/bin:/usr/local/bin:/usr/bin:/bin',GOTOOLCHAIN='local',GOPROXY='off',GOSUMDB='off',GOMODCACHE='/root/go/pkg/mod',GOCACHE='/tmp/lot/cache',GOFLAGS='-mod=mod')
os.makedirs('/tmp/lot/bin',exist_ok=True); os.makedirs('/tmp/lot/scratch',exist_ok=True); os.makedirs('/tmp/lot/ev',exist_ok=True)
S=['C03','C05','C10','C06','C08','C01','C15','C14','C12','C13','C02','C09','C04','C21','C22','C23','C07']
G=['C16','C17','C18','C19','C11']
def checks(cs,tier):
    ee=dict(e,VERIF_TIER=tier,VERIF_SEED=os.environ.get('SEED','1'),VERIF_EVIDENCE='/tmp/lot/ev',VERIF_SCRATCH='/tmp/lot/scratch',VERIF_KNOWN='/verif/known-findings.txt',VERIF_HARNESS=H,VERIF_WEBRPC_GEN='/tmp/lot/bin/webrpc-gen')
    for c in cs:
        b='vhgr' if c=='C11' and tier=='quick' else 'vhg' if c in G else 'vhs'
        rc,o=sh(f'/tmp/lot/bin/{b} check {c}',H,env=ee)
        if 'VIOLATION' in o: return c,o[o.index('VIOLATION'):][:200].replace('\n',' ')
        if rc: return c+'?rc%d'%rc,o[-300:]
    return None,''
def main():
    spec=importlib.util.spec_from_file_location('l',sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    only=sys.argv[2:]
    stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    benv=open('/opt/vp/env.sh').read().replace('cd /repo',f'cd {SC}'); open('/tmp/lot/env.sh','w').write(benv)
    for n in ('build.sh','test.sh'): open(f'/tmp/lot/{n}','w').write(open(f'/opt/vp/{n}').read().replace('/opt/vp/env.sh','/tmp/lot/env.sh'))
    for id,prop,edits in m.L:
        if only and id not in only: continue
        shutil.rmtree(SC,ignore_errors=True); subprocess.run(['cp','-a','/repo',SC])
        ok=True
        for f,o,n in edits:
            p=f'{SC}/{f}'; s=open(p).read()
            if s.count(o)!=1: print(id,prop,'EDIT',s.count(o),o[:60]); ok=False; break
            open(p,'w').write(s.replace(o,n))
        if not ok: continue
        gm=open(H+'/go.mod').read().replace('=> /repo','=> '+SC).replace('=> ../stubs','=> /verif/stubs')
        open('/tmp/lot/go.mod','w').write(gm); shutil.copy(H+'/go.sum','/tmp/lot/go.sum')
        rc,o=sh('bash /tmp/lot/build.sh')
        if rc: print(id,prop,'BUILD',o[-300:]); continue
        rc,o=sh('prlimit --as=12000000000 bash /tmp/lot/test.sh /tmp/lot/o.json'); oj=json.load(open('/tmp/lot/o.json'))
        if stable-set(oj['passed']): print(id,prop,'TESTS',len(stable-set(oj['passed']))); continue
        for pk,out in (('github.com/webrpc/webrpc/cmd/webrpc-gen','webrpc-gen'),('./cmd/vhs','vhs'),('./cmd/vhg','vhg')):
            rc,o=sh(f"go build -modfile=/tmp/lot/go.mod -ldflags '-s -w -X github.com/webrpc/webrpc.VERSION=v0.30.0' -o /tmp/lot/bin/{out} {pk}",H,env=e)
            if rc: print(id,'BUILD2',o[-300:]); ok=False
        if ok and prop=='C11':
            rc,o=sh("go build -race -modfile=/tmp/lot/go.mod -ldflags '-X github.com/webrpc/webrpc.VERSION=v0.30.0' -o /tmp/lot/bin/vhgr ./cmd/vhg",H,env=e)
            if rc: print(id,'BUILD3',o[-300:]); ok=False
        if not ok: continue
        c,note=checks([prop],'quick')
        if c: print(id,prop,'caught by',c,note,flush=True); continue
        e['VERIF_PROBE']='5'
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            rs=[r for r in ex.map(lambda x: checks([x],'probe'),[x for x in S+G if x!=prop]) if r[0]]
        c,note=rs[0] if rs else (None,'')
        print(id,prop,'MISSED','(but caught by '+c+' '+note+')' if c else 'by all',flush=True)
        sh('find /tmp/lot/scratch -mindepth 1 -maxdepth 1 -exec rm -rf {} +')
main()
