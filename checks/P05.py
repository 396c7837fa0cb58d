from vp import Job
BOUNDS='NC 2, 3 for exponential and logarithm, NC 2 to 5 for the interpolation they rest on; every hermitian traceless matrix with norm above 0.01 (and the zero matrix), every special unitary matrix with eigenvalue phases inside (-pi,pi)'
ASSUME=['exact real arithmetic','the small-angle series branches (|w| below 0.05 in SU(3), |z| below 1e-4 in SU(2)) are truncations and not compared','the SU(3) logarithm is given the eigenvalues (the closed-form cubic is outside the encoding)','facts of analysis used: atan2(r sin t, r cos t)=t for |t|<pi, sqrt(x^2)=x for x>=0','NC > 3 exponentials and logarithms (iterative, or GSL eigenvalues) outside']
def jobs(tier):
    J=[]
    for c in ['nc2','nc2+generic']: J+=[Job('expm',c,[0],timeout=100),Job('expm',c,[1],timeout=100)]
    for c in ['nc3','nc3+generic']: J+=[Job('expm',c,[0,p],timeout=200) for p in ([0,7] if tier=='quick' else range(8))]+[Job('expm',c,[2]),Job('expm',c,[3],defs=['-DWRAP_EV'],timeout=200)]
    for c in ['nc2','nc3','nc4','nc5nd3']: J.append(Job('expm',c,[5],timeout=200))
    return J
