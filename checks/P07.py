from vp import Job
BOUNDS='four dimensions; charge density and action on lattices of 12 to 36 sites with extents 1 to 3 (NC 4: every link its own complex multiple of a dense special unitary matrix; NC 2: six links, NC 3: three links multiplied by arbitrary SU(2) rotations); correlators, slab sums and moments: every real charge density on lattices of 8 to 48 sites with extents 1 to 6 (moments up to extent 32), with and without FFTW'
ASSUME=['exact real arithmetic','field strength from the clover, the improved clover (with and without the 3x3 loops) or the single plaquette, hermitian projection; logarithmic definition outside','FFTW replaced by the transform it documents (models/fftw.c)','the charge density is cut at compute_Gmunu_array for the derived quantities']
def jobs(tier):
    J=[]; q=tier=='quick'
    J+=[Job('top','nc4',['gm',0,3,2,1,2,1],timeout=200),Job('top','nc2',['gm',2,3,2,2,2,1,6],timeout=200),Job('top','nc3',['gm',2,3,2,2,2,1,3],timeout=200),Job('top','nc4+PLAQUETTE_FMUNU',['gm',0,2,1,3,2,1],timeout=200)]
    I='nc2+CLOVER_IMPROVE'; I5=I+'+k5=0.015625'
    J+=[Job('top',I,['gm',2,2,3,2,2,1,4],timeout=200),Job('top',I5,['gm',2,4,3,1,2,2,3],timeout=200),Job('top',I5,['gm',2,2,1,4,3,1,3],timeout=200)]
    if not q: J+=[Job('top','nc4',['gm',0,3,3,2,2,1],timeout=400),Job('top','nc4',['gm',1,1,2,2,3,1],timeout=400),Job('top','nc4',['gm',0,1,2,2,3,2],timeout=400)]+[Job('top','nc2',['gm',2,2,3,1,3,s,8],timeout=400) for s in (2,3)]+[Job('top','nc3',['gm',2,3,2,2,2,3,3],timeout=400)]+[Job('top',c,['gm',2,4,2,2,3,s,4],timeout=400) for c in (I,I5) for s in (3,4)]+[Job('top','nc4+CLOVER_IMPROVE',['gm',1,4,3,1,2,1,2],timeout=400)]
    D=[[2,1,2,4],[4,3,2,1],[2,1,1,6]]+([] if q else [[4,3,2,2],[3,1,5,2],[1,2,2,5]])
    for c in ['nc4','nc2']:
        for w in ['corr','slab','mom']:
            for d in D: J.append(Job('top',c,[w,0]+d+[0],defs=['-DWRAP_Q'],timeout=200 if q else 400))
    J+=[Job('top','nc4',['mom',0,1,1,1,l,0],defs=['-DWRAP_Q'],timeout=200) for l in ([32] if q else [7,18,32,40])]
    return J
