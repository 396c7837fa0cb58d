from vp import Job
BOUNDS='every SU(2) subgroup for 2 to 5 colours, arbitrary matrices; sweeps over lattices of 8 to 60 sites (rectangle actions: 256), up to three links arbitrary and the rest dense special unitary; one subgroup hit per sweep with an arbitrary projected element and scale, up to two rejected heat-bath draws'
ASSUME=['exact real arithmetic','log u <= 0 for u <= 1','the projected element and the rotated link are replaced by arbitrary ones inside sweeps (their own definitions are checked separately)','reunitarisation after the heat bath is the identity on unitary matrices','quality of the random numbers','a heat bath whose 42 draws were all rejected keeps the last one']
def jobs(tier):
    J=[]; q=tier=='quick'; to=200 if q else 500
    for s in ([1] if q else [1,2,3]):
        for c in ('nc3','nc2','nc4','nc5nd3','nc3+generic','nc4+generic','nc2+generic'):
            e=[1]*(3 if 'nd3' in c else 4)
            J+=[Job('upd',c,[w,0]+e+[s],timeout=to) for w in ('rot','sub')]
        D=[2,2,2] if s==1 else [3,2,2]
        for c,k,x in [('nc3',2,[2]),('nc2',2,[3]),('nc4',3,[2]),('nc5nd3',3,[])]:
            J+=[Job('upd',c,[w,k]+D+x+[s,3],defs=['-DP_SWEEP'],timeout=to) for w in ('or','hb')]
        if s==1: J+=[Job('upd','nc4',['or',0]+D+[2,s,0],defs=['-DP_SWEEP'],timeout=to),Job('upd','nc3',['or',2,3,2,2,5,s,3],defs=['-DP_SWEEP'],timeout=to)]
        J+=[Job('upd','nc3+'+a,['or',2,4,4,4,4,s,1],defs=['-DP_SWEEP'],timeout=to) for a in (['IWASAKI'] if q else ['IWASAKI','SYMANZIK','DBW2'])]
        if q: J+=[Job('upd','nc2+SYMANZIK',['hb',3,4,4,4,4,s,1],defs=['-DP_SWEEP'],timeout=to)]
    return J
