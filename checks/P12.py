from vp import Job
BOUNDS='one Runge-Kutta step: lattices of 3 to 12 sites, generator of two links in five (and of the first link) arbitrary, the rest dense, time step between -1 and 1; drivers: initial step between 0.01 and 30, up to two steps (adaptive: up to three free trials at the first one), every value of the action density and of the plaquette after each'
ASSUME=['exact real arithmetic','the exponential projection of a flow step returns arbitrary matrices (it is checked under P03 and P11)','with two threads the measurement sums are those of the thread slots','fine measurements around the reference scales run to at most three beyond the scale, with values that leave the window']
def jobs(tier):
    J=[]; q=tier=='quick'; to=250 if q else 600
    for s in ([7] if q else [7,8,9]):
        for mc in (0,1):
            for ty in (2,3):
                for c,D in (('nc4',[1,2,1,3]),('nc3',[2,1,1,3]),('nc2',[1,1,2,4]),('nc5nd3',[2,1,3])): J.append(Job('flow',c,[mc,ty]+D+[s],timeout=to,defs=['-DP_RK']))
                for c,D in (('nc4+IWASAKI+IMPROVED_SMEARING',[1,1,1,5]),('nc3+SYMANZIK+IMPROVED_SMEARING',[1,2,1,4])): J.append(Job('flow',c,[mc,ty]+D+[s],timeout=to,defs=['-DP_RK']))
    for c in ('nc4','nc5nd3') if q else ('nc4','nc3','nc2','nc5nd3'):
        for m in (0,1):
            for n in ((1,3) if q else (1,2,3,4)):
                for sg in (0,1): J.append(Job('flow',c,[m,2+(n&1),n,sg],timeout=to,defs=['-DP_DRV']))
        J+=[Job('flow',c,[2,2,1,0],timeout=to,defs=['-DP_DRV']+(['-DRT=2'] if c=='nc4' or not q else [])),Job('flow',c,[2,3,1,1],timeout=to,defs=['-DP_DRV','-DRT=3'])]
        J.append(Job('flow',c,[3],timeout=to))
    J.append(Job('flow','nc4',[2,2,2,0],timeout=to,defs=['-DP_DRV']))
    return J
