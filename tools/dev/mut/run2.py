#!/usr/bin/env python3
"""run.py all.json out.jsonl [slots]: evaluates mutants"""
import json, os, sys, subprocess, shutil, threading, queue, time, random, collections
root='/tmp/mut'
muts=json.load(open(sys.argv[1])); outp=sys.argv[2]; nslots=int(sys.argv[3]) if len(sys.argv)>3 else 8
base='/repo'
done=set()
if os.path.exists(outp):
    for l in open(outp):
        d=json.loads(l); done.add((d['file'],d['off'],d['len'],d['repl']))
def key(m): return (m['file'],m['off'],m['len'],m['repl'])
muts=[m for m in muts if key(m) not in done]
q=queue.Queue()
for m in muts: q.put(m)
lock=threading.Lock()
S=['C03','C05','C10','C06','C08','C01','C15','C14','C12','C13','C02','C09','C04','C21','C22','C23','C07']
G=['C16','C17','C18','C19','C11']
def order(f):
    if f.startswith('cmd/'): return ['C18','C17','C19']
    if f.startswith('gen/func'): return ['C16','C17']
    if f.startswith('gen/'): return ['C17','C19','C18']
    if 'helpers' in f: return ['C15']
    if f.startswith('schema/ridl'): return ['C03','C23','C22','C10','C06','C08','C21','C01','C04','C05','C07']
    if f.startswith('schema'): return ['C05','C06','C08','C02','C07','C13','C14','C09','C12','C17','C10']
    if f.startswith('schema/ridl'): return S+['C11']
    if f.startswith('schema/'): return ['C10']+[c for c in S if c!='C10']+G
    if f.startswith('gen/'): return G+['C09','C12','C13','C14']
    return ['C17','C18','C19','C11','C07','C09','C12','C13','C14']
goroot='/opt/veriftools/go1.25.14/bin'
def env(slot):
    e=dict(os.environ)
    e.update(HOME='/root',PATH=goroot+':/usr/local/bin:/usr/bin:/bin',GOTOOLCHAIN='local',GOPROXY='off',GOSUMDB='off',GOMODCACHE='/root/go/pkg/mod',GOCACHE=f'{root}/s{slot}/cache',GOFLAGS='-mod=mod',GOMAXPROCS='2')
    return e
def sh(cmd,cwd,e,timeout):
    p=subprocess.Popen(cmd,cwd=cwd,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',start_new_session=True)
    try:
        o,_=p.communicate(timeout=timeout); return p.returncode,o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.communicate(); return 124,'timeout'
def setup(slot):
    d=f'{root}/s{slot}'
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d+'/bin'); os.makedirs(d+'/ev'); os.makedirs(d+'/scratch')
    subprocess.run(['cp','-a',base,d+'/repo'],check=True)
    gm=open('/tmp/mut/harness/go.mod').read().replace('=> /repo','=> '+d+'/repo').replace('=> ../stubs','=> /verif/stubs')
    open(d+'/go.mod','w').write(gm); shutil.copy('/tmp/mut/harness/go.sum',d+'/go.sum')
    if not os.path.exists(root+'/basecache'):
        os.makedirs(root+'/basecache')
    os.makedirs(d+'/cache')
    subprocess.run(['cp','-a',root+'/basecache/.',d+'/cache/'],check=True)
def build(slot,pk,out):
    d=f'{root}/s{slot}'
    return sh(['go','build','-modfile='+d+'/go.mod','-ldflags','-s -w -X github.com/webrpc/webrpc.VERSION=v0.30.0','-o',d+'/bin/'+out,pk],'/tmp/mut/harness',env(slot),300)
def evaluate(slot,m):
    d=f'{root}/s{slot}'; f=d+'/repo/'+m['file']
    src=open(base+'/'+m['file'],'rb').read()
    new=src[:m['off']]+m['repl'].encode()+src[m['off']+m['len']:]
    open(f,'wb').write(new)
    try:
        first=order(m['file'])
        schema=m['file'].startswith('schema')
        bins={}
        if schema:
            rc,o=sh(['go','build','./schema/...'],d+'/repo',env(slot),200)
        else:
            rc,o=build(slot,'github.com/webrpc/webrpc/cmd/webrpc-gen','webrpc-gen')
        if rc: return 'compile',o[-200:]
        if schema:
            rc,o=sh(['go','test','-vet=off','-count=1','-timeout','20s','./schema/...','./tests/...'],d+'/repo',env(slot),100)
            if rc: return 'tests',''
            rc,o=build(slot,'github.com/webrpc/webrpc/cmd/webrpc-gen','webrpc-gen')
            if rc: return 'compile',o[-200:]
        e=env(slot); e.update(VERIF_TIER='probe',VERIF_PROBE=os.environ.get('PROBE','100'),VERIF_SEED='1',VERIF_EVIDENCE=d+'/ev',VERIF_SCRATCH=d+'/scratch',VERIF_KNOWN='/verif/known-findings.txt',VERIF_HARNESS='/tmp/mut/harness',VERIF_WEBRPC_GEN=d+'/bin/webrpc-gen')
        notes=[]
        for c in first:
            b='vhg' if c in G else 'vhs'
            if b not in bins:
                rc,o=build(slot,'./cmd/'+b,b)
                if rc: return 'compile-harness',o[-300:]
                bins[b]=1
            rc,o=sh([d+'/bin/'+b,'check',c],'/tmp/mut/harness',e,240)
            if 'VIOLATION' in o:
                i=o.index('VIOLATION')
                return c,o[i:i+300]
            if rc: notes.append(f'{c}:rc{rc} {o[-200:]}')
        return 'SURVIVED',' | '.join(notes)
    finally:
        open(f,'wb').write(src)
        subprocess.run(['bash','-c',f'find {d}/scratch -mindepth 1 -maxdepth 1 -exec rm -rf {{}} +'])
count=collections.Counter(); t0=time.time()
def work(slot):
    setup(slot); n=0
    while True:
        try: m=q.get_nowait()
        except queue.Empty: break
        t=time.time()
        try: r,note=evaluate(slot,m)
        except Exception as ex: r,note='error',repr(ex)
        n+=1
        if n%60==0:
            subprocess.run(['rm','-rf',f'{root}/s{slot}/cache']); os.makedirs(f'{root}/s{slot}/cache')
            subprocess.run(['cp','-a',root+'/basecache/.',f'{root}/s{slot}/cache/'])
        with lock:
            count[r]+=1
            with open(outp,'a') as fo: fo.write(json.dumps(dict(m,result=r,note=note,secs=round(time.time()-t,1)))+'\n')
            if sum(count.values())%50==0: print(int(time.time()-t0),q.qsize(),dict(count),flush=True)
    subprocess.run(['rm','-rf',f'{root}/s{slot}'])
ts=[threading.Thread(target=work,args=(i,)) for i in range(nslots)]
[t.start() for t in ts]; [t.join() for t in ts]
print('done',dict(count))
