from vp import Job
BOUNDS='lattices of 1 to 16 sites, up to two sweeps; four dimensions (NC 5: three); NC 4, 5: every link its own complex multiple of a dense special unitary matrix; NC 3: up to two arbitrary links among dense special unitary ones; NC 2: up to three arbitrary SU(2) rotations; the output of every projection again such a matrix; the smearing parameters arbitrary reals; a staple seen more than twice by the on-the-fly hypercubic variants is compared at the witness only'
ASSUME=['exact real arithmetic','the matrix logarithm of logarithmic smearing replaced by a fixed linear map (it is checked under P03)','the loop-improved one-loop action of the improved smearing (SYMANZIK_ONE_LOOP), smearing to a topological charge (TOP_VALUE) and the two-dimensional build are outside']
def jobs(tier):
    J=[]; q=tier=='quick'; to=250 if q else 600
    for s in ([1] if q else [1,2,3]):
        def sm(c,*a,**k): J.append(Job('smear',c,[str(x) for x in a]+[s,k.pop('nrot',1)],timeout=to,**k))
        for ty in (1,2,3):
            L=ty==3 and q
            sm('nc4','4d',ty,2 if ty==1 else 1,1 if L else 2,1,2,3)
            sm('nc5nd3','4d',ty,1,2,1,3); sm('nc5nd3','3d',ty,1,2,3,1)
            sm('nc3','4d',ty,1,2,1,1,3); sm('nc4','3d',ty,1,2 if L else 3,1,2,2)
            sm('nc2','4d',ty,2,1,2,1,3,nrot=3)
            sm('nc4','hyp',ty,1,1 if L else 2,1,1,3); sm('nc4','hyp3',ty,1,2,1 if L else 2,1,2)
            sm('nc5nd3','hypn',ty,1,1 if L else 2,1,3); sm('nc4','hypn3',ty,1,2,1,1 if L else 2,2)
            sm('nc4','hypn',ty,1,1 if L else 2,1,1,2)
            if ty==1: J+=[Job('smear',c,[s],timeout=to,defs=['-DP_PROJ'],label='proj') for c in ('nc4','nc3','nc2','nc5nd3')]
            for w in ('IWASAKI','SYMANZIK','DBW2'):
                if q and (ty,w) not in ((1,'IWASAKI'),(2,'DBW2'),(3,'SYMANZIK')): continue
                c='nc2+%s+IMPROVED_SMEARING'%w
                sm(c,'4d',ty,1,1,1,2,5,nrot=3); sm(c,'4d',ty,1,2,1,2,4,nrot=3); sm(c,'3d',ty,1,2,2,3,1,nrot=2)
        sm('nc4+IWASAKI+IMPROVED_SMEARING','4d',1,1,1,1,1,4,nrot=0)
        sm('nc3','3d',2,2,2,1,2,1); sm('nc2','4d',3,2,2,1,1,2)
        if not q: sm('nc5nd3+DBW2+IMPROVED_SMEARING','3d',2,1,1,2,1,nrot=0); sm('nc5nd3+SYMANZIK+IMPROVED_SMEARING','3d',3,1,1,2,1,nrot=0); sm('nc4+DBW2+IMPROVED_SMEARING','4d',2,1,1,1,1,4,nrot=0)
    return J
