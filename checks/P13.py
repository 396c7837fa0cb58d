from vp import Job
BOUNDS='one logical thread per iteration of the worksharing loops (6 to 16), every assignment of them to real threads; lattices of 6 to 16 sites; up to two sweeps, three optimiser steps, two flow steps, four updates per driver; three orders of running the logical threads'
ASSUME=['sequentially consistent interleavings of the barrier intervals; two threads storing the same value count as one store','a location whose every access by one side is under a lock or critical section is only compared with unlocked accesses of other threads','polynomial cases (observables, transforms, axial gauges, smearing and hypercubic smearing with a polynomial map for the projection) run with symbolic links; drivers run on one dense field per job, where the schedule and the assignment of iterations to threads are symbolic','random numbers: each thread draws from its own stream']
ALL='obs obsth top qtop sm3 sm4 sm4l hyp3 hyp4 hyp4l hypn hypnl flow0 flow1 flowl flowa gt gts gtth gtsth gfun gtest axial mag resid landau landauc coulomb coulombc hb or hbup rand bpst u1 pot cuts cut3 cfg smgl util'.split()
F={'SX_FOLD':'1'}
def jobs(tier):
    J=[]; q=tier=='quick'; to=200 if q else 800
    def add(cfg,cases,NT,o,dims,seed,nl=0,fold=True,defs=()):
        for k in cases: J.append(Job('thr',cfg,[k,NT,o]+dims+[seed,nl],mem=True,timeout=to,env=F if fold else {},defs=list(defs)))
    no4=[k for k in ALL if k not in('hyp3','hyp4','hyp4l','bpst')]
    D=[1,2,1,3]
    add('nc3',ALL,6,0,D,1)
    add('nc3',['sm4','hyp4','flow1','landau','coulomb','or','hb','cfg','top','obsth'],6,1,D,2)
    add('nc3',['landau','landauc','coulomb','coulombc'],16,2,[2,2,2,2],3)
    # symbolic links
    add('nc3',['obs','obsth','gt','gts','gtth','gtsth','axial','mag'],6,0,D,1,1,False)
    add('nc2' if q else 'nc4',['obs','gts','axial','mag'],6,2,D,4,1,False)
    add('nc3',['sm3','sm4','hyp3','hyp4','hypn'],6,0,D,1,1,False,['-DPOLYPROJ'])
    add('nc3+nofftw',['landau','landauc','coulomb','coulombc'],16,0,[2,2,2,2],1); add('nc3',['orl','orc','or'],16,1,[2,2,2,2],1); add('nc3',['orl','orc'],16,2,[3,2,2,2],1); add('nc5nd3',['orl','orc'],16,0,[2,3,2],1)
    add('nc5nd3',no4,6,0,[2,1,3],1)
    if not q: add('nc2',[k for k in ALL],6,1,D,1); add('nc4gsl',[k for k in ALL if k!='bpst'],6,2,D,1); add('nc4',[k for k in ALL if k not in('bpst','cuts')],6,2,D,5)
    else: add('nc4',['landau','landauc','coulomb','coulombc','cut3','cfg','smgl','hb','or','rand','sm4l','hyp4','flow0'],6,2,D,5)
    add('nc3+GLU_GFIX_SD',['landau','landauc','coulomb','coulombc'],6,0,D,1)
    add('nc3+TOP_VALUE=1+GLU_OMP_MEAS',['hbup','sm3','sm4','hyp3','hyp4','hypn','flow0','obs'],6,0,D,1)
    add('nc3+SYMANZIK+IMPROVED_SMEARING',['sm4','flow0','flow1'],6,0,D,1)
    if not q:
        add('nc3+nofftw',[k for k in ALL if k!='cuts'],6,0,D,1)
        add('nc3+nofftw',['landau','landauc','coulomb','coulombc'],16,0,[2,2,2,2],1)
        for x in ('deriv_lin','GLU_FR_CG'): add('nc3+'+x,['landau','landauc','coulomb','coulombc'],16,1,[2,2,2,2],1)
        for x in ('CLOVER_IMPROVE','PLAQUETTE_FMUNU','OBC_HACK','POLY_MEAS'): add('nc3+'+x,['top','flow0','flowa','qtop','obs','hbup','sm4'],6,1,D,1)
        add('nc2',['landau','landauc','coulomb','coulombc','cfg','smgl','sm4','flow1'],16,1,[2,2,2,2],6)
        for x in ('MWC_1038_RNG','XOR_1024_RNG'): add('nc3+'+x,['rand','hb','hbup','u1','landau'],6,0,D,1)
        for s in (7,8):
            for o in (1,2): add('nc3',ALL,6,o,D,s)
    return J
