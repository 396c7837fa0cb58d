from vp import Job
BOUNDS='lattices of 2 to 24 sites with extents 1 to 4 (ND 3 and 4), NC 2 to 5. NC 4, 5 and the portable NC 3 build: every link its own complex multiple of a dense special unitary matrix, or three arbitrary matrices among monomial links. SSE2 NC 2, 3: three links multiplied by arbitrary SU(2) rotations among special unitary links'
ASSUME=['exact real arithmetic','link values outside the stated families and larger lattices outside','the sequence of floating-point summation is idealised','one thread count']
def jobs(tier):
    J=[]; q=tier=='quick'
    D4=[[3,2,2,1],[2,1,3,2]]+([] if q else [[1,4,2,2],[4,1,1,3],[2,3,2,2]])
    D3=[[3,2,2],[2,1,4]]+([] if q else [[1,3,2],[4,3,2]])
    for c,k in [('nc4',0),('nc5nd3',0),('nc3+generic',0),('nc3',2),('nc2',2)]+([] if q else [('nc4',1),('nc5nd3',1),('nc3+generic',2)]):
        for n,d in enumerate(D3 if c=='nc5nd3' else D4):
            for w in ['plaq','link','poly','indiv']:
                if q and w=='link' and n: continue
                kk=1 if w=='indiv' and k==0 else k
                J.append(Job('obs',c,[w,kk]+d+[n+1],timeout=150))
    return J
