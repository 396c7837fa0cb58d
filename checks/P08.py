from vp import Job
BOUNDS='lattices of 8 to 36 sites with extents 1 to 4 (draughtboarded parts 2 to 4), four dimensions (NC 5: three); NC 4, 5: every link its own complex multiple of a dense special unitary matrix and gauge matrices likewise; NC 2, 3: up to six links or gauge matrices arbitrary SU(2) rotations of dense special unitary matrices; drivers: one or two optimiser iterations per slice or lattice, one or two over-relaxation sweeps'
ASSUME=['exact real arithmetic','reunitarisation is the identity on unitary matrices (cut in axial gauges and drivers)','drivers are cut at the optimiser step: the local gauge matrix it returns is arbitrary','FFTW replaced by the transform it documents']
def jobs(tier):
    J=[]; q=tier=='quick'; S=[1] if q else [1,2,3]; to=200 if q else 500
    for s in S:
        for c,k,e in [('nc4',0,1),('nc2',2,1),('nc3',2,1),('nc5nd3',0,0),('nc3+generic',2,1)]:
            D=[2,3,2]+[2]*e if s%2 else [3,1,2]+[4]*e; D3=[2,3,2]+[1]*e if s%2 else [1,2,3]+[2]*e; n=3 if c.startswith('nc3') else 5
            if c=='nc3+generic' and q: 
                J+=[Job('gauge',c,['egauge',k]+D+[s,n],defs=['-DWRAP_SG'],timeout=to)]; continue
            cl=c+'+deriv_lin' if '+' not in c else c
            J+=[Job('gauge',cl,[w,k]+D3+[s,n],timeout=to) for w in ('full','slice')]+[Job('gauge',c,['egauge',k]+D+[s,n],defs=['-DWRAP_SG'],timeout=to)]
            k2=k if k else 3
            if k: J+=[Job('gauge',c,[w,k2]+D+[s,n],defs=['-DWRAP_RE'],timeout=to) for w in ('axial','mag')]
            J+=[Job('gfix',c,['lsl',k]+D3+[s,n],defs=['-DP_LS'],timeout=to),Job('gfix',c,['lsc',k]+[2,2,2]+[2]*e+[s,n],defs=['-DP_LS'],timeout=to),Job('gfix',c,['lsc',k]+[2,3,2]+[2]*e+[s,n],defs=['-DP_LS'],timeout=to)]
            J+=[Job('gfix',c,['resid',k]+([2,1,2,3] if e else [2,2,3])+[s,0],defs=['-DP_RES'],timeout=to)]
            J+=[Job('gfix',c,['coul',k]+([2,2,2,3] if e else [2,3,4])+[s,n if k else 0],defs=['-DP_COUL'],timeout=to)]
            if e: J+=[Job('gfix',c,['orc',k]+[2,2+s%2,2]+[2]*e+[s,n],defs=['-DP_OR'],timeout=to)]
            if k: J+=[Job('gfix',c,['land',k]+[2,1,2]+[2]*e+[s,2],defs=['-DP_LAND'],timeout=to)]
            if k: J+=[Job('gfix',c,['orl',k]+[2,2,2]+[2]*e+[s,n],defs=['-DP_OR'],timeout=to)]
            elif not q: J+=[Job('gfix',c,['land',k]+[2,2,2]+[1]*e+[s,0],defs=['-DP_LAND'],timeout=to),Job('gfix',c,['orl',k]+[2,2,2]+[2]*e+[s,n],defs=['-DP_OR'],timeout=to)]
    J+=[Job('gfix','nc2+GLU_GFIX_SD',['coul',2,2,2,2,3,4,3],defs=['-DP_COUL'],timeout=to),Job('gfix','nc2+GLU_GFIX_SD',['land',2,2,1,2,3,4,2],defs=['-DP_LAND'],timeout=to)]
    if q: J+=[Job('gfix','nc2',['lsc',2,3,3,2,2,4,5],defs=['-DP_LS'],timeout=to)]
    return J
