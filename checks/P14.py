import os,re
import vp
from vp import Job
from vpb import CJob
BOUNDS='every state of two streams (all table words, carries and indices symbolic; the tables of 1038 and 4096 words are run with 6 and 8 words, and counterexamples replayed on the real size); up to three draws after a load and one before and after a save; seeds: one stream seed fixed, the other arbitrary; Gaussian numbers: up to two rejected pairs before the last'
ASSUME=['streams are lists of elements (size and order kept) in place of the file system','output scrambling product of XOR_1024: range only, the words it is computed from exactly','default double conversion (FULL_DOUBLE is not a configure option)','warm-up draws of a new sequence not executed symbolically','Gaussian numbers: real arithmetic']
GEN={'KISS_RNG':('KISS',5,None),'XOR_1024_RNG':('XOR_1024',16,None),'WELL_512_RNG':('WELL_512',16,None),'MWC_1038_RNG':('MWC_1038',1038,6),'MWC_4096_RNG':('MWC_4096',4096,8)}
CPP=['-include',vp.VER+'/cbmc/vbio.h']
def scaled(f,n,m):
    """copy of the generator with its literal table constants n, n-1 replaced by m, m-1"""
    s=open(f'{vp.SRC}/Utils/par_{f}.c').read(); d=vp.tmpdir(); 
    s=re.sub(rf'(?<![\w.]){n}(?![\w.])',str(m),s); s=re.sub(rf'(?<![\w.]){n-1}(?![\w.])',str(m-1),s)
    o=f'{d}/scaled_par_{f}.c'; open(o,'w').write(s); return o
def jobs(tier):
    J=[]; q=tier=='quick'; FL=('--bounds-check','--pointer-check','--sat-solver','cadical')
    def add(g,part,defs=(),to=None):
        fs=('--max-field-sensitivity-array-size','400') if part==3 else ()
        f,n,m=GEN[g]; src=f'Utils/par_{f}.c'; ss=scaled(f,n,m) if m else src; rest=['Utils/GLU_bswap.c']+(['Utils/par_rng.c','IO/chklat_stuff.c']+[f'Utils/par_{GEN[o][0]}.c' for o in GEN if o!=g] if part==3 else [])
        J.append(CJob('rng','nc3+'+g,[ss]+rest,[f'PART={part}',f'VB_MAXIN={64+2*n}',*defs]+([f'VB_TABLE={m}'] if m else []),unwind=100,timeout=to or (400 if q else 1500),cppflags=CPP,flags=FL+fs,mem=8,replay_srcs=[src]+rest))
    for g in GEN:
        add(g,0); add(g,1,['PRE=1']); add(g,3)
    for g in GEN: add(g,2,['SLO=4321','SHI=4321'])
    for c in ('nc3','nc2','nc5nd3'): J.append(Job('rngp',c,['box'],defs=['-DMAXP='+('2' if q else '4')])); J.append(Job('rngp',c,['polar'],defs=['-DMAXP=2']))
    return J
