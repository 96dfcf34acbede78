#!/usr/bin/env python3
"""Development tool: tools/cover.py COVFILE... - library source lines no simulated run reached (VERIF_COVER=FILE bin/check ID writes one)."""
import subprocess,sys,collections
cov=None
for f in sys.argv[1:]:
    l=open(f).read().split('\n'); base=int(l[0],16)
    rows=[x.split() for x in l[1:] if x]
    off=[int(p,16)-base for c,p in rows]
    if cov is None: cov=[0]*len(rows)
    cov=[a|int(c) for a,(c,p) in zip(cov,rows)]
sym=subprocess.run("nm /verif/target/debug/oversim | grep 6driver5check$",shell=True,capture_output=True,text=True).stdout.split()
st=int(sym[0],16)
adr='\n'.join(hex(st+o) for o in off)
out=subprocess.run(['llvm-symbolizer','-e','/verif/target/debug/oversim','--functions=none','-i'],input=adr,capture_output=True,text=True).stdout.strip().split('\n\n')
hit=collections.Counter(); miss=collections.Counter()
for c,o in zip(cov,out):
    ls=[x for x in o.split('\n') if '/repo/src' in x]
    if not ls: continue
    k=ls[0].rsplit(':',1)[0]
    (hit if c else miss)[k]+=1
for k in sorted(miss,key=lambda k:(k.rsplit(':')[0],int(k.rsplit(':')[1]))):
    f,n=k.rsplit(':',1)
    try: src=open(f).read().split('\n')[int(n)-1]
    except Exception: src=''
    print(k.replace('/repo/src/',''),'FULL' if not hit[k] else 'part',src.strip()[:110])
