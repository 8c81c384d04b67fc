import json,sys
skip=int(sys.argv[1]) if len(sys.argv)>1 else 0
i=0
for l in open('/tmp/mut/out.jsonl'):
    d=json.loads(l)
    if d['result'] in('SURVIVED','error','compile-harness'):
        i+=1
        if i<=skip: continue
        s=open('/repo/'+d['file'],'rb').read(); old=s[d['off']:d['off']+d['len']].decode()
        line=s.decode().split('\n')[d['line']-1].strip()
        print(f"{i} {d['file']}:{d['line']} [{d['fn']}] {d['op']}: {line[:110]}\n      {old[:70]!r} -> {d['repl'][:90]!r} {d['note'][:150] if d['note'] else ''}")
