#!/usr/bin/env python3
"""check.py <property> [quick|thorough]  -- decide one property on /repo's current tree"""
import os,sys,json,time,importlib,re,traceback,shutil
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import vp
sys.path.insert(0,vp.VER+'/checks')
def main():
    pid=sys.argv[1]; tier=sys.argv[2] if len(sys.argv)>2 else os.environ.get('VERIF_TIER','quick')
    if tier not in ('quick','thorough'): tier='quick'
    seed=int(os.environ.get('VERIF_SEED','1') or 1); t0=time.time()
    mod=importlib.import_module(pid); jobs=mod.jobs(tier)
    only=os.environ.get('VP_ONLY')
    if only: jobs=[j for j in jobs if re.search(only,j.name)]
    if tier=='thorough': os.environ.setdefault('VP_BUDGET','20000')
    kf=[]
    p=vp.VER+'/known_findings.json'
    if os.path.exists(p): kf=[k for k in json.load(open(p))['findings'] if k['property']==pid and k['status']=='known']
    known=lambda j,lab: next((k for k in kf if re.search(k['job'],j.name) and re.search(k['label'],lab)),None)
    rs=vp.runall(jobs,seed,isviol=lambda j,r:any(not known(j,l) for l,_,_ in r.viol))
    rdir=f'{vp.VER}/evidence/replay/{pid}'; shutil.rmtree(rdir,ignore_errors=True)
    viol=0; hit={}; err=[]; und=[]; spur=[]
    for j,r in zip(jobs,rs):
        if r.err: err.append((j.name,r.err))
        for u in r.und: und.append(f'{j.name}: {u}')
        for s in r.spurious: spur.append(f'{j.name}: {s[0]}')
        for lab,f,txt in r.viol:
            k=known(j,lab)
            if k: hit.setdefault(k['id'],[]).append(lab); continue
            viol+=1
            os.makedirs(rdir,exist_ok=True); n=f'{rdir}/{viol}.txt'
            with open(n,'w') as o:
                o.write(f'property {pid}\njob {j.name}\nobligation {lab}\n{txt}\n')
                if f and os.path.exists(f): o.write('--- counterexample (inputs)\n'+open(f,errors='replace').read())
            if viol<=10: print(f'VIOLATION property={pid} replay={n}'); print(f'   {j.name}: {lab}: '+(txt or '').strip().split('\n')[0][:300])
    for k in kf:
        if k['id'] in hit: print(f"KNOWN-FINDING: property={pid} {k['what']}")
    fns=sorted(set().union(*[r.fn for r in rs])) if rs else []
    S=lambda f:sum(f(r) for r in rs)
    st=lambda r,k:float(r.end.get(k,0)) if r.end else 0
    cov=dict(states=int(S(lambda r:st(r,'paths'))),transitions=int(S(lambda r:st(r,'nodes'))),
             traces_validated_against_impl=int(S(lambda r:len(r.replays)+getattr(r,'validated',0))),
             meaning='states = feasible symbolic paths run to completion, each standing for all values of the symbolic inputs on it; transitions = distinct symbolic operations (term nodes) or solver variables/clauses encoded; traces = solver-chosen concrete inputs run through the natively compiled code',
             samples=[dict(job=j.name,obligations=len(r.q),first=[list(x) for x in r.q[:3]],wall_s=round(r.wall,2),end=r.end) for j,r in list(zip(jobs,rs))[:60]],
             jobs=len(jobs),obligations=int(S(lambda r:len(r.q))),discharged=int(S(lambda r:sum(1 for q in r.q if q[1]=='unsat'))),
             queries=int(S(lambda r:st(r,'queries'))),unsat=int(S(lambda r:st(r,'unsat'))),unknown=int(S(lambda r:st(r,'unknown'))),
             branches_pruned_by_solver=int(S(lambda r:st(r,'pruned'))),forks=int(S(lambda r:st(r,'forks'))),
             reachability_witnesses=int(S(lambda r:st(r,'witness'))),solver_s=round(S(lambda r:st(r,'solver_s')),2),
             functions_encoded=fns,bounds=mod.BOUNDS,undecided=und[:50],undecided_count=len(und),spurious_candidates=spur[:20],
             slowest_jobs=[[j.name,round(r.wall,1)] for j,r in sorted(zip(jobs,rs),key=lambda x:-x[1].wall)[:25]],engine_errors=[list(e) for e in err][:10],notes=sorted(set(n for r in rs for n in r.notes))[:40],
             known_findings_reproduced={k:len(v) for k,v in hit.items()})
    ev=dict(property=pid,tier=tier,seed=seed,level='model_checking',coverage=cov,assumptions=list(mod.ASSUME),wall_s=round(time.time()-t0,2),violations=viol)
    os.makedirs(vp.VER+'/evidence',exist_ok=True)
    json.dump(ev,open(f'{vp.VER}/evidence/{pid}.json','w'),indent=1)
    print(f'{pid} {tier}: jobs={len(jobs)} obligations={cov["obligations"]} discharged={cov["discharged"]} undecided={len(und)} paths={cov["states"]} violations={viol} errors={len(err)} solver={cov["solver_s"]}s wall={ev["wall_s"]}s')
    for u in und[:8]: print('  undecided:',u[:200])
    for u in spur[:8]: print('  not reproduced natively (no alarm):',u[:200])
    for n,e in err[:8]: print('  ENGINE-ERROR',n,e[:600])
    if viol: return 1
    nov=[j.name for j,r in zip(jobs,rs) if not r.err and not r.q and not r.timeout]
    if all(r.timeout for r in rs): nov.append('every run timed out')
    if nov: print('  VACUOUS',nov[:5])
    # a job that gave no answer is undecided (listed in the evidence); no answer at all is an error
    if len(err)+len(nov)>=len(jobs): return 2
    return 0
if __name__=='__main__':
    try: rc=main()
    except Exception: traceback.print_exc(); rc=2
    finally: vp.cleanup()
    sys.stdout.flush(); os._exit(rc)
