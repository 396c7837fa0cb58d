from vp import Job
BOUNDS='lattices of 4 to 16 sites, four dimensions (NC 5: three); NC 4, 5: every link its own complex multiple of a dense special unitary matrix; NC 3: up to three arbitrary SU(3)-sized links among dense special unitary ones; NC 2: up to five links arbitrary SU(2) rotations; step: three sets of probe positions, every value of the functional between -1 and 1'
ASSUME=['exact real arithmetic','logarithmic definition of the gluon field not encoded here (its exact logarithm is checked under P03)','accuracy and direction of the Landau conjugate gradient are observed at its first two steps with a step that does not move the field']
def jobs(tier):
    J=[]; q=tier=='quick'; S=[1] if q else [1,2,3]; to=200 if q else 500
    for s in S:
        for c,k,e in [('nc4',0,1),('nc2',2,1),('nc3',1,1),('nc5nd3',0,0)]:
            D=[2,3,2]+[2]*e if s%2 else [3,1,2]+[4]*e; n=3
            T=([2,1,2,3] if s%2 else [3,1,1,5]) if e else ([2,1,3] if s%2 else [2,3,5])
            J+=[Job('gmeas',c,['deriv',k]+D+[s,n],timeout=to),Job('gmeas',c+'+deriv_lin',['func',k]+D+[s,n],timeout=to),Job('gmeas',c,['ctime',k]+T+[s,n],timeout=to,defs=['-DP_CT']),Job('gmeas',c,['min',0]+D+[s,n],timeout=to)]
            J+=[Job('gmeas',c,['sum',3]+([3,2,1]+[1]*e)+[s,n],timeout=to,defs=['-DP_TH'])]
            if c!='nc5nd3': J+=[Job('gmeas',c+'+nofftw' if c!='nc4' else c,['landau',k if k else 3,2,1,2,1,s,1 if k==1 else 2],timeout=to,defs=['-DP_DRV'])]
    return J
