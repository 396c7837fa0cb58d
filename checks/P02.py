from vpb import CJob
BOUNDS='extents fixed per run (listed in the job names; all of 2..8 occur, four dimensions, full lattice and spatial slices of three and two directions), lattices of at most 240 sites (thorough 700); any two colour positions and any direction symbolic'
ASSUME=['three-dimensional builds not encoded here: the disabled 16-colour variant in the same file does not pass the bit-precise front end for them; the slices of three directions run the same colouring code','extents of at least two in every direction (a unit extent makes a site its own neighbour)']
S=['Geometry/geometry.c','Geometry/draughtboard.c']
def D(dm): return [f'D{i}={d}' for i,d in enumerate(dm)]+(['D3=1'] if len(dm)==3 else [])
def jobs(tier):
    J=[]; T=tier=='thorough'
    for cfg,dm,dr in [('nc3',(2,2,2,2),4),('nc3',(2,3,4,5),4),('nc3',(7,2,3,2),4),('nc3',(4,4,4,3),4),('nc3',(4,2,4,4),4),('nc3',(2,7,2,7),4),('nc3',(3,3,3,3),4),('nc3',(6,2,8,2),4),
                      ('nc3',(4,5,3,4),3),('nc3',(7,7,2,4),3),('nc3',(4,4,6,4),3),('nc3',(3,4,5,2),3),('nc3',(4,7,2,3),2),('nc3',(7,5,4,2),3)]+([('nc3',(13,2,3,2),4),('nc3',(5,5,5,5),4),('nc3',(4,4,4,8),4),('nc3',(9,7,5,2),4),('nc3',(7,7,7,2),4),('nc3',(12,10,4,2),3)] if T else []):
        v=1
        for d in dm[:dr]: v*=d
        J.append(CJob('db',cfg,S,D(dm)+[f'VDIR={dr}'],unwind=v+2,timeout=2500 if T else 300))
    return J
