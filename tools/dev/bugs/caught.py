#!/usr/bin/env python3
"""caught.py [ids]: runs the property's check (and with -all all others' probes) against every planted bug, in copies; writes tools/caught.json"""
import json, glob, os, subprocess, shutil, sys, re
from concurrent.futures import ThreadPoolExecutor
root = '/tmp/sb'
v = '/verif'
ids = sys.argv[1:] or sorted(os.path.basename(os.path.dirname(f)) for f in glob.glob(v+'/seeded/*/meta.json')+glob.glob(v+'/tried/*/meta.json'))
res = {}
fn = v+'/tools/caught.json'
if os.path.exists(fn): res = json.load(open(fn))
def one(i):
    src = f'{v}/seeded/{i}' if os.path.exists(f'{v}/seeded/{i}') else f'{v}/tried/{i}'
    p = json.load(open(src+'/meta.json'))['property']
    d = f'{root}/{i}'
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d+'/verif')
    subprocess.run(['cp','-a','/repo',d+'/repo'],check=True)
    for n in ('harness','stubs','check.sh','known-findings.txt','evidence'): subprocess.run(['cp','-a',f'{v}/{n}',d+'/verif/'],check=True)
    g = d+'/verif/harness/go.mod'; s = open(g).read().replace('=> /repo', '=> '+d+'/repo').replace('=> ../stubs', '=> '+d+'/verif/stubs'); open(g,'w').write(s)
    r = subprocess.run(['git','apply',src+'/patch.diff'],cwd=d+'/repo',capture_output=True,text=True)
    if r.returncode: return i,p,'does not apply',''
    r = subprocess.run(['./check.sh',p],cwd=d+'/verif',capture_output=True,text=True,errors='replace',timeout=1500)
    out = r.stdout+r.stderr
    n = len(re.findall(f'^VIOLATION property={p} ',out,re.M))
    shutil.rmtree(d)
    return i,p,(p if r.returncode==1 and n else f'not caught (rc {r.returncode})'),out[-400:] if not n else ''
with ThreadPoolExecutor(2) as ex:
    for i,p,c,o in ex.map(one, ids):
        res[i]=c; print(i,p,c,o,flush=True)
        json.dump(res,open(fn,'w'),indent=1,sort_keys=True)
