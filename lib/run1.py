#!/usr/bin/env python3
"""development helper: run one harness job and print what it decided.  run1.py harness cfg args... [--to N] [--qto ms] [--mem]"""
import sys,os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import vp
a=sys.argv[1:]; to=120; qto=20000; mem=False; v=False
while '--to' in a: i=a.index('--to'); to=int(a[i+1]); del a[i:i+2]
while '--qto' in a: i=a.index('--qto'); qto=int(a[i+1]); del a[i:i+2]
if '--mem' in a: mem=True; a.remove('--mem')
if '-v' in a: v=True; a.remove('-v')
defs=[]
while '-D' in a: i=a.index('-D'); defs.append('-D'+a[i+1]); del a[i:i+2]
jobs=[]
for c in a[1].split(','): jobs.append(vp.Job(a[0],c,a[2:],timeout=to,qto=qto,mem=mem,defs=defs))
try:
    for j,r in zip(jobs,vp.runall(jobs)):
        print(j.name,'q',len(r.q),'unsat',sum(1 for q in r.q if q[1]=='unsat'),'und',r.und[:6],'cex',[c[1:] for c in r.cex[:4]],'viol',[(x[0],x[2][:300]) for x in r.viol[:3]],'spur',r.spurious[:4],'err',r.err,'wall',round(r.wall,1),r.end,r.notes[:4])
        if v: print(r.log); print(r.q[:50]); print(sorted(r.fn))
finally: vp.cleanup()
os._exit(0)
