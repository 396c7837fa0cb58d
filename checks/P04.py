from vp import Job
BOUNDS='NC in {2,3,4,5}; linear, trace, packing and projection operations: every entry symbolic; det/adjugate: every entry symbolic for NC<=3, one or two symbolic entries at many positions (others fixed rationals) for NC>3; inverse and Gram-Schmidt: one or two symbolic entries (others fixed rationals); matrix powers up to 8 (thorough 11)'
ASSUME=['floating-point rounding idealised (real arithmetic)','two-colour packed/projection/trace routines are stated on matrices of the form they are documented for (multiples of SU(2))']
Q={4:dict(det=[p for p in range(16) if p not in (0,4,8,12)],cof=list(range(16)),inv=[1,2,6,10,14]),
   5:dict(det=[2,4,7,8,12,14,17,18,22,24],cof=[4,8,14,18,24],inv=[4,8,14,18,24])}
def jobs(tier):
    J=[]; T=tier=='thorough'; to=1500 if T else 60
    for c in ['nc2','nc3','nc4','nc5nd3','nc3+generic','nc4+generic','nc2+generic']:
        nc=int(c[2])
        for s in ('lin','tra','pack','proj','isu'): J.append(Job('mops',c,[s]))
        for n in (range(0,12) if T else (0,1,2,3,4,5,6,7,8) if nc<5 else (0,1,3,5,6,7)): J.append(Job('mops',c,['power',n],timeout=to))
        if nc<=3: J+= [Job('mops',c,['det',-1,1]),Job('mops',c,['cof',-1,1])]
        for s in ('det','cof','inv'):
            if nc<=3 and s!='inv': continue
            for p in (range(nc*nc) if T or nc<=3 else Q[nc][s]): J.append(Job('mops',c,[s,p,2+p],timeout=to))
        for s in ('det','cof','inv'):
            for k in range(2*nc): J.append(Job('mops',c,[s,100+k,k%2],timeout=to))
        for p in range(nc*nc):
            # NC>3: the mixed row lies below the one it is mixed with (the other order is thorough only)
            if nc<=3 or p//nc>=p%nc or T: J.append(Job('mops',c,['gram',p,2+p],timeout=to))
        for p in range(9 if T else 3): J.append(Job('mops',c,['abcsu',p]))
    return J
