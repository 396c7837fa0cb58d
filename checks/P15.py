from vp import Job
from vpb import CJob
BOUNDS='lattices of 8 to 96 sites in three and four dimensions, two to five colours, every link entry a variable; each format with the memory-expensive and the memory-cheap writer and reader; byte swaps: three elements; checksums: any state and up to 9 (thorough: 17) arbitrary bytes'
ASSUME=['double precision files written big endian (CERN: little), as compiled by default','the reunitarisation around reading and writing is the identity (its own definition is checked by P04), and so are the plaquette and link trace any numbers','the short NERSC form carries any NC^2-1 numbers of a link (its own packing is checked by P04)','text header fields at the given values, one changed byte or number per rejection; the file system refusing every byte beyond a given one','single precision, JLQCD and LIME files are not generated']
def jobs(tier):
    J=[]; q=tier=='quick'
    def D(c,x): return x[1:] if 'nd3' in c else x
    def add(c,f,w,r,x,how='ok',fl=17): J.append(Job('io',c,[f,w,r,fl]+D(c,x)+[how],timeout=300))
    S=[2,2,2,2]
    for c in ('nc3','nc2','nc4','nc5nd3'):
        for f in range(9):
            if f==0 and c in ('nc4','nc5nd3') or f==7 and c!='nc3': continue
            for w,r in ((0,0),(1,0),(0,1)):
                if f in (6,7) and (w or r): continue
                add(c,f,w,r,[2,4,2,6] if (w,r)==(0,0) or not q else [2,2,4,2])
            if f not in (7,8): add(c,f,0,0,[3,2,4,2],fl=0)
            if f!=7: add(c,f,0,0,S,'trunc'); 
            if f<6: add(c,f,0,1,S,'trunc')
            if f<6 or f==8: add(c,f,0,0,S,'flip'); add(c,f,0,1,S,'flip')
            if f>5: add(c,f,0,0,S,'plaq')
            if f<3 or f==6: add(c,f,0,0,S,'nc')
            if f<3: add(c,f,0,0,S,'nd')
            for n in ('full1','full1000'): add(c,f,1 if n=='full1' else 0,0,S,n)
            add(c,f,0,0,S,'nodir')
    for f in range(9): add('nc3',f,0,0,S,'full8000' if f>1 else 'full4000')
    J.append(Job('io','nc5nd3',[7,0,0,17,2,2,2,'full0'],timeout=300))
    FL=('--bounds-check','--pointer-check','--sat-solver','cadical')
    J.append(CJob('io','nc3',['Utils/GLU_bswap.c'],['PART=0'],unwind=40,timeout=300,flags=FL))
    J.append(CJob('io','nc3',['IO/crc.c'],['PART=1','LEN=9' if q else 'LEN=17'],unwind=40,timeout=400 if q else 900,flags=FL))
    J.append(CJob('io','nc3',['IO/crc.c'],['PART=2','LEN=2' if q else 'LEN=3'],unwind=40,timeout=400 if q else 900,flags=FL))
    return J
