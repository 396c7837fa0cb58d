from vp import Job
BOUNDS='one product per obligation; NC in {2,3,4,5}; general products: every matrix entry an unconstrained symbolic complex number; products tuned for special unitary factors: each factor a general SU(2) rotation in any plane, before or after a fixed dense SU(N) matrix; SSE2 and generic builds'
ASSUME=['floating-point rounding idealised (real arithmetic)']
def jobs(tier):
    J=[Job('mmul',c) for c in ('nc2','nc3','nc4','nc5nd3','nc2+generic','nc3+generic','nc4+generic')]
    for c in ('nc2','nc3','nc4','nc2+generic','nc3+generic'):
        for p in range(3 if c[2]!='2' else 1):
            for q in range(3 if c[2]!='2' else 1):
                for o in range(4) if tier=='thorough' else ((p+q)%4,): J.append(Job('mmul',c,[p,q,o]))
    return J
