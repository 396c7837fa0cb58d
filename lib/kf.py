#!/usr/bin/env python3
"""writes known_findings.json (fixed entries suppress nothing)"""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED=[('P03','3dc6255','portable product of two adjoints returned the conjugate of the product for NC > 3'),
('P06','346a1c8','SU(2) plaquette trace did not compile without SSE2'),
('P05','b840b7e','Vandermonde solve dropped its last interpolation step: wrong exp and log with GSL for NC > 3'),
('P04','c9faf86','matrix-vector product for NC = 3 used S[6] in place of S[5]'),
('P04','ad8f0ea','SSE2 matrix inverse searched for the pivot in the wrong matrix'),
('P05','a2f5eaa','SU(2) small-angle expansion of sin(z)/z was in z instead of z^2'),
('P04','400d85d','packed traceless antihermitian projection for NC > 3 subtracted a real trace'),
('P05','5d5eda6','exact logarithm of the SU(3) identity left its result unset'),
('P01','be42190','periodic to symmetric zone momentum conversion put the zone edge of odd extents on the wrong side'),
('P02','316f33a','draughtboard coloured periodic neighbours alike for odd extents equal to 1 mod 3'),
('P06','500fd42','temporal and mean plaquette normalisation wrong when ND is not 4'),
('P07','44be7f7','tenth factorial wrong in the moments of the topological charge'),
('P07','9ee3e49','data race on the slab sum without FFTW'),
('P07','77300d0','temporal correlator of the topological charge was the charge itself without FFTW'),
('P07','9002c1c','powers of the slice coordinate overflowed int in the moments of the topological charge'),
('P09','6f9a0df','SU(2) time-constancy measure compared the diagonal with itself'),
('P09','f23be70','theta tests could lose the maximum to a concurrent smaller update'),
('P09','11b0b54','SU(2) fast gauge derivative had a quarter of the norm of the other derivatives'),
('P09','0e4f66c','gauge fixing norms dropped the diagonal of the derivative for SU(2) and SU(N>3)'),
('P10','9c4587f','draughtboard for rectangle actions rejected suitable extents and accepted unsuitable ones, leaving links unvisited'),
('P10','b376e22','DBW2 plaquette weight and one-loop Symanzik rectangle weight off their published values'),
('P06','a26c364','mean plaquette printed during updates misnormalised when ND is not 4'),
('P11', '410f685', 'improved smearing put the wrong time slice back into the third last slice'),
('P11', 'd654f4b', 'spatial smearing shadowed the tadpole factor its staples use'),
('P11', 'b6ddf68', 'smearing of an unknown type dereferenced or leaked its temporary fields'),
('P11', 'cca90df', 'weights of the staples when ND is not 4'),
('P13', '9a72ece', 'last slices of the smeared field written by every thread of the team at once'),
('P12', 'f9080e4', 'improved flow freed twice as many sites of a temporary as it allocated'),
('P12', 'b7c9603', 'plaquette measured along the flow misnormalised when ND is not 4'),
('P12', '8a92404', 'measurement at the stopping time recorded with the time and plaquette of the step before'),
('P12', '5da2cf8', 'scale setting ignored the last measurement and read its derivative uninitialised'),
('P12', '62c4c44', 'scale not found when it coincides with a measurement'),
('P13','4fb0b65','failure code of Landau fixing raced on by every thread and lost in the steepest descent'),
('P13','89dc805','continuation of the Landau conjugate gradient started from the sums of the run before'),
('P13','16816cf','Coulomb temporaries freed uninitialised on a lattice without draughtboard'),
('P13','914ea5a','direction index shared by every thread in the configuration space propagator'),
('P13','06e1c50','topological charge of a lattice that is not four dimensional was uninitialised memory'),
('P13','975e05d','U(1) topological charge read directions out of range unless ND is 4'),
('P12', 'd26b87c', 'real root of the cubic spline lost, complex roots accepted'),
('P12', 'a8cb237', 'spline derivatives uninitialised for fewer than three points'),
('P14','6c69f53','library did not build with the KISS or the WELL_512 generator'),
('P14','2ed53f0','WELL_512 state saved as the unallocated MWC_4096 one'),
('P14','fb9d24c','saved KISS state read back without undoing the byte swap'),
('P14','95f9399','MWC_4096 reset its index on every draw and used one word of its state only'),
('P14','f37ef36','XOR_1024 could return exactly one'),
('P14','65520b1','Gaussian numbers infinite or NaN when the uniform ones vanish'),
('P14','2fac109','restored state discarded by the next initialisation'),
('P15','250ef9a','slice by slice writer wrote beyond its buffer'),
('P15','e676212','failure to read a HiRep or CERN configuration ignored'),
('P15','3b6e8cb','SU(2) HiRep configurations not written in the form they are read in'),
('P15','3fb766a','BQCD checksum in double precision read an unallocated buffer'),
('P15','b694d77','BQCD checksum carried on from the configuration read before'),
('P15','2da6a80','MILC header contained uninitialised memory'),
('P15','f5910b8','NERSC configurations with sequence number zero could not be read back'),
('P15','13cf754','configurations that could not be written reported as written'),
('P15','8d04055','CERN configuration of a lattice that is not four dimensional reported as written'),
]
KNOWN=[]
try: exec(open(V+'/lib/kflist.py').read())
except FileNotFoundError: pass
f=[dict(id=f'F{i+1:02d}',property=p,status='fixed',commit=c,what=w,line=f'fixed: property={p} {c} {w}') for i,(p,c,w) in enumerate(FIXED)]
f+=[dict(id=f'K{i+1:02d}',property=p,status='known',job=j,label=l,what=w) for i,(p,j,l,w) in enumerate(KNOWN)]
json.dump(dict(findings=f),open(V+'/known_findings.json','w'),indent=1)
