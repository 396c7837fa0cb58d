from vpb import CJob
BOUNDS='extents fixed per run (listed in the job names: mixed even/odd/unit extents up to 12, three and four dimensions); every site, coordinate vector, direction, separation (up to twice the extent) and both zone conventions symbolic'
ASSUME=['machine integers exact (bit-precise)','neighbour tables built on lattices of at most 84 sites in quick runs']
S=['Geometry/geometry.c','Geometry/init.c']
def D(dm): return [f'D{i}={d}' for i,d in enumerate(dm)]+(['D3=1'] if len(dm)==3 else [])
def jobs(tier):
    J=[]; T=tier=='thorough'
    d4=[(2,3,4,5),(7,2,3,2),(4,4,4,8),(5,1,6,3)]+([(12,9,8,7),(3,3,3,3),(8,8,8,16),(1,1,2,11),(16,24,10,6)] if T else [])
    d3=[(3,4,5),(7,2,8)]+([(1,5,9),(12,7,6)] if T else [])
    for cfg,ds in (('nc3',d4),('nc5nd3',d3)):
        for dm in ds:
            for p in range(4): J.append(CJob('geom',cfg,S,D(dm)+[f'PART={p}'],unwind=9,timeout=1500 if T else 300))
    for cfg,dm in [('nc3',(2,3,2,2)),('nc3',(3,2,1,4)),('nc5nd3',(3,2,5))]+([('nc3',(3,3,4,3)),('nc3',(5,2,4,3))] if T else []):
        v=1
        for d in dm: v*=d
        J.append(CJob('geom',cfg,S,D(dm)+['PART=4'],unwind=v+2,timeout=1500 if T else 300))
    return J
