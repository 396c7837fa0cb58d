"""Driver of the solver-based checks: builds the symbolic engine and the
symbolic build of /repo's current sources, runs harnesses, replays
counterexamples against the natively compiled code, writes evidence."""
import os,sys,re,json,time,shutil,subprocess,tempfile,hashlib,concurrent.futures as cf,signal
VER=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get('VP_REPO','/repo')
SRC=REPO+'/src'
NCPU=min(8,os.cpu_count() or 4)
def sh(cmd,**k):
    return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',**k)
class EngineError(Exception): pass
_tmp=None
def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp=tempfile.mkdtemp(prefix="vpchk_")
    return _tmp
def cleanup():
    if _tmp: shutil.rmtree(_tmp,ignore_errors=True)
def must(cmd,env=None):
    e=dict(os.environ); e.update(env or {})
    r=sh(cmd,env=e)
    if r.returncode: raise EngineError(' '.join(cmd[:3])+' ... '+cmd[-1]+'\n'+r.stdout[-3000:])
    return r.stdout
# ------------------------------------------------------------------ engine
_engine=None
def engine():
    """pass plug-in and runtime objects; cached in /verif/build by content"""
    global _engine
    if _engine: return _engine
    fs=['sxpass.cpp','sxrt.cpp','sxomp.cpp','sxmem.cpp']
    h=hashlib.sha256(b''.join(open(f'{VER}/engine/{f}','rb').read() for f in fs)).hexdigest()[:16]
    d=f'{VER}/build/engine-{h}'
    if not os.path.exists(d+'/ok'):
        os.makedirs(d,exist_ok=True)
        cx=sh(['llvm-config-18','--cxxflags']).stdout.split()
        cmds=[['clang++-18','-std=c++17','-fPIC','-shared','-fno-rtti','-O1']+[c for c in cx if not c.startswith('-std')]+[f'{VER}/engine/sxpass.cpp','-o',d+'/sxpass.so']]
        cmds.append(['clang++-18','-std=c++17','-O2','-DSX_NATIVE_MEM','-c',f'{VER}/engine/sxmem.cpp','-o',f'{d}/sxmemn.o'])
        for f in fs[1:]: cmds.append(['clang++-18','-std=c++17','-O2','-g','-c',f'{VER}/engine/{f}','-o',f'{d}/{f[:-4]}.o'])
        with cf.ThreadPoolExecutor(4) as ex: list(ex.map(must,cmds))
        open(d+'/ok','w').write('ok')
    _engine=d; return d
def sources():
    t=open(SRC+'/Makefile.am').read()
    s=re.findall(r'\./([A-Za-z0-9_]+(?:/[A-Za-z0-9_]+)+\.c)',t)
    return sorted({x for x in s if not x.startswith('Run/') and os.path.exists(f'{SRC}/{x}')})
def cfgflags(cfg,sym):
    base=cfg.split('+')[0]; extra=[]
    for m in cfg.split('+')[1:]: 
        if m=='generic': extra+=['-UHAVE_IMMINTRIN_H']
        else: extra+=['-D'+m]
    # a private copy of config.h lets a variant switch features off
    d=f'{tmpdir()}/cfg_{cfg}'
    if not os.path.isdir(d):
        os.makedirs(d,exist_ok=True); t=open(f'{VER}/cfg/{base}/config.h').read()
        if '+generic' in cfg: t=re.sub(r'#define HAVE_IMMINTRIN_H.*','/* off */',t)
        if '+nofftw' in cfg: t=re.sub(r'#define HAVE_FFTW3_H.*','/* off */',t)
        t=re.sub(r'#define HAVE_PREFIX .*','#define HAVE_PREFIX "."',t)   # whatever the code stores goes to the scratch folder of the run
        open(d+'/config.h','w').write(t)
    f=['-DHAVE_CONFIG_H','-I'+d,'-I'+SRC+'/Headers']+[x for x in extra if x!='-UHAVE_IMMINTRIN_H' and x!='-Dnofftw']
    return f
SYM=['-O1','-w','-fno-vectorize','-fno-slp-vectorize','-ffp-contract=off','-fno-strict-aliasing','-fno-builtin','-fopenmp','-msse2','-mlong-double-64','-gline-tables-only']
_objs={}
def cc_sym(src,out,cfg,mem,extra=()):
    e=engine()
    must(['clang-18',*SYM,'-I'+VER+'/models','-I'+VER+'/engine','-I'+VER+'/harness',*cfgflags(cfg,True),*extra,f'-fpass-plugin={e}/sxpass.so','-c',src,'-o',out],
         env=dict(SX_FN='1' if src.startswith(SRC) else '0',**({'SX_MEM':'1'} if mem else {})))
import threading
_lock=threading.Lock()
def symlib(cfg,mem=False):
    key=(cfg,mem)
    with _lock:
        if key in _objs: return _objs[key]
        engine(); cfgflags(cfg,True)
        d=f'{tmpdir()}/sym_{cfg}_{int(mem)}'; os.makedirs(d,exist_ok=True)
        jobs=[]
        for s in sources(): jobs.append((f'{SRC}/{s}',f'{d}/'+s.replace('/','_')[:-2]+'.o'))
        if not cfg.startswith('nc4') or cfg.startswith('nc4gsl'): jobs.append((VER+'/models/fftw.c',d+'/model_fftw.o'))
        with cf.ThreadPoolExecutor(NCPU) as ex: list(ex.map(lambda j:cc_sym(j[0],j[1],cfg,mem),jobs))
        lib=d+'/lib.a'
        must(['ar','rcs',lib]+[j[1] for j in jobs])
        _objs[key]=lib; return lib
_exe={}
def symexe(h,cfg,mem=False,defs=()):
    key=(h,cfg,mem,tuple(defs))
    lib=symlib(cfg,mem)
    with _lock:
        if key in _exe: return _exe[key]
        e=engine(); o=f'{tmpdir()}/h_{h}_{cfg}_{int(mem)}_{abs(hash(tuple(defs)))%99999}'
        cc_sym(f'{VER}/harness/{h}.c',o+'.o',cfg,mem,list(defs))
        g=['-lgsl','-lgslcblas'] if cfg.startswith('nc4gsl') else []
        must(['clang++-18','-Wl,--allow-multiple-definition','-o',o,o+'.o',lib,e+'/sxrt.o',e+'/sxomp.o',e+'/sxmem.o',lib,*g,'-Wl,--wrap=free','-lz3','-lgmpxx','-lgmp','-lm','-lpthread'])
        _exe[key]=o; return o
_nat={}; _natlock=threading.Lock()
def natlib(cfg,san=False):
    with _natlock:
        if (cfg,san) in _nat: return _nat[(cfg,san)]
        d=f'{tmpdir()}/nat_{cfg}_{int(san)}'; os.makedirs(d,exist_ok=True); fl=cfgflags(cfg,False)
        opt=['-O1','-g','-fsanitize=address,undefined','-fno-sanitize-recover=undefined'] if san else ['-O2']
        js=[(f'{SRC}/{s}',f'{d}/'+s.replace('/','_')[:-2]+'.o') for s in sources()]
        with cf.ThreadPoolExecutor(NCPU) as ex: list(ex.map(lambda j:must(['gcc',*opt,'-w','-msse2','-fopenmp',*fl,'-c',j[0],'-o',j[1]]),js))
        must(['ar','rcs',d+'/lib.a']+[j[1] for j in js]); _nat[(cfg,san)]=d+'/lib.a'; return d+'/lib.a'
def natexe(h,cfg,defs=(),san=False):
    lib=natlib(cfg,san); o=f'{tmpdir()}/n_{h}_{cfg}_{int(san)}_{abs(hash(tuple(defs)))%99999}'
    with _natlock:
        if os.path.exists(o): return o
        opt=['-O1','-g','-fsanitize=address,undefined','-fno-sanitize-recover=undefined'] if san else ['-O2']
        g=['-lgsl','-lgslcblas'] if cfg.startswith('nc4gsl') else []
        ff=[] if (cfg.startswith('nc4') and not cfg.startswith('nc4gsl')) else ['-lfftw3_threads','-lfftw3']
        if ff and not any(os.path.exists(p+'/libfftw3_threads.so') for p in ('/usr/lib/x86_64-linux-gnu','/usr/lib')): ff=['-lfftw3']
        must(['gcc',*opt,'-w','-Wl,--allow-multiple-definition','-DSX_NATIVE','-msse2','-fopenmp',*cfgflags(cfg,False),'-I'+VER+'/engine','-I'+VER+'/harness',*defs,f'{VER}/harness/{h}.c',f'{VER}/engine/sxreplay.c',lib,*g,*ff,'-lm','-o',o])
        return o
def natmem(h,cfg,defs=()):
    """native build with the access log and the deterministic team only: replays conflicts"""
    e=engine(); cfgflags(cfg,False); o=f'{tmpdir()}/m_{h}_{cfg}_{abs(hash(tuple(defs)))%99999}'
    with _natlock:
        if os.path.exists(o): return o
        d=f'{tmpdir()}/natm_{cfg}'; env=dict(SX_MEM='1',SX_NOFLOAT='1',SX_FN='0')
        def cc(j,extra=()): must(['clang-18','-O1','-w','-fno-vectorize','-fno-slp-vectorize','-ffp-contract=off','-fno-strict-aliasing','-fno-builtin','-fopenmp','-msse2','-DSX_NATIVE','-I'+VER+'/models','-I'+VER+'/engine','-I'+VER+'/harness',*cfgflags(cfg,True),*extra,f'-fpass-plugin={e}/sxpass.so','-c',j[0],'-o',j[1]],env=env)
        if not os.path.exists(d+'/lib.a'):
            os.makedirs(d,exist_ok=True); js=[(f'{SRC}/{s}',f'{d}/'+s.replace('/','_')[:-2]+'.o') for s in sources()]
            with cf.ThreadPoolExecutor(NCPU) as ex: list(ex.map(cc,js))
            must(['ar','rcs',d+'/lib.a']+[j[1] for j in js])
        cc((f'{VER}/harness/{h}.c',o+'.o'),list(defs)); must(['clang-18','-O1','-w','-I'+VER+'/engine','-c',f'{VER}/engine/sxreplay.c','-o',o+'_r.o'])
        g=['-lgsl','-lgslcblas'] if cfg.startswith('nc4gsl') else []
        ff=[] if (cfg.startswith('nc4') and not cfg.startswith('nc4gsl')) else ['-lfftw3_threads','-lfftw3']
        if ff and not any(os.path.exists(p+'/libfftw3_threads.so') for p in ('/usr/lib/x86_64-linux-gnu','/usr/lib')): ff=['-lfftw3']
        must(['clang++-18','-Wl,--allow-multiple-definition','-Wl,--wrap=free','-o',o,o+'.o',o+'_r.o',d+'/lib.a',e+'/sxomp.o',e+'/sxmemn.o',d+'/lib.a',*g,*ff,'-lm','-lpthread']); return o
# ------------------------------------------------------------------ jobs
class Job:
    """one harness run: symbolic execution over all values of its variables"""
    def __init__(s,h,cfg,args=(),mem=False,timeout=600,qto=20000,defs=(),maxpaths=4000,label=None,threads=1,env=None):
        s.h,s.cfg,s.args,s.mem,s.timeout,s.qto,s.defs,s.maxpaths=h,cfg,[str(a) for a in args],mem,timeout,qto,tuple(defs),maxpaths
        s.env=env or {}; s.name=label or f"{h}[{cfg}]("+','.join(s.args)+')'
class Res:
    def __init__(s): s.q=[];s.cex=[];s.und=[];s.fn=set();s.notes=[];s.end=None;s.err=None;s.wall=0;s.replays=[];s.viol=[];s.spurious=[];s.log='';s.timeout=False
def runjob(job,seed=1,stop=(None,)):
    r=Res(); t0=time.time()
    try: exe=symexe(job.h,job.cfg,job.mem,job.defs)
    except EngineError as x: r.err='build: '+str(x); return r
    wd=tempfile.mkdtemp(prefix='run_',dir=tmpdir()); out=wd+'/out'
    env=dict(os.environ); env.update(SX_OUT=out,SX_CEXDIR=wd,SX_TIMEOUT=str(job.qto),SX_MAXPATHS=str(job.maxpaths),VERIF_SEED=str(seed),SX_QUIET='1'); env.update(job.env)
    os.makedirs(wd+'/cwd')
    try:
        lf=open(wd+'/log','w')
        p=subprocess.Popen([exe]+job.args,cwd=wd+'/cwd',env=env,stdout=lf,stderr=subprocess.STDOUT,start_new_session=True)
        rc='timeout'; tend=time.time()+job.timeout
        while time.time()<tend:
            try: rc=p.wait(min(2,max(0.05,tend-time.time()))); break
            except subprocess.TimeoutExpired: pass
            if stop[0] and time.time()>stop[0]+20: break
            if os.path.exists(out) and time.time()-t0>20 and sum(1 for l in open(out,errors='replace') if l.startswith('CEX'))>=5 and time.time()-t0>40: break
        try: os.killpg(p.pid,signal.SIGKILL)
        except ProcessLookupError: pass
        p.wait()
    finally: lf.close()
    r.log=open(wd+'/log',errors='replace').read()[-int(os.environ.get('VP_LOG','1500')):]
    for l in (open(out,errors='replace') if os.path.exists(out) else []):
        w=l.split()
        if not w: continue
        if w[0]=='Q': r.q.append((w[1],w[2],w[3] if len(w)>3 else ''))
        elif w[0]=='CEX': r.cex.append((w[1],w[2],l.strip()))
        elif w[0]=='UNDECIDED': r.und.append(' '.join(w[1:]))
        elif w[0]=='FN': r.fn.add(w[1])
        elif w[0]=='NOTE': r.notes.append(' '.join(w[1:]))
        elif w[0]=='END': r.end=dict(x.split('=') for x in w[1:])
    r.wall=time.time()-t0; r.rc=rc
    if rc=='timeout': r.und.append('the run exceeded its time limit'); r.timeout=True
    elif r.end is None and not r.cex: r.err=f'rc={rc} {r.log[-400:]}'
    # replay counterexamples on the natively compiled code
    seen={}
    for f,lab,_ in r.cex:
        if len(r.viol)>=3 and lab in seen: continue
        if seen.get(lab,0)>=3: continue
        seen[lab]=seen.get(lab,0)+1
        ok,txt=replay(job,f)
        r.replays.append((lab,ok))
        if ok: r.viol.append((lab,f,txt))
        else: r.spurious.append((lab,txt[-300:]))
    if r.err and not r.cex:
        # an abnormal end: is it the code's own (crash / hang) on the native build too?
        ok,txt=replay(job,None)
        if ok=='crash': r.viol.append(('abnormal-termination',None,txt)); r.err=None
    return r
def replay(job,cexfile):
    try: exe=natmem(job.h,job.cfg,job.defs) if job.mem else natexe(job.h,job.cfg,job.defs)
    except EngineError as x: return False,'native build: '+str(x)
    env=dict(os.environ); env.pop('SX_CEX',None)
    if cexfile: env['SX_CEX']=cexfile
    env['OMP_NUM_THREADS']=job.env.get('OMP_NUM_THREADS','2')
    wd=tempfile.mkdtemp(prefix='rep_',dir=tmpdir())
    try: p=subprocess.run([exe]+job.args,cwd=wd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=120)
    except subprocess.TimeoutExpired: return 'crash','native replay did not terminate in 120 s'
    t=p.stdout.decode(errors='replace'); fails='\n'.join([l for l in t.splitlines() if l.startswith('REPLAY')][:25])
    if p.returncode<0 or p.returncode in (134,139): return 'crash',f'native replay ended by signal {p.returncode}\n'+t[-500:]
    return (p.returncode==1 and 'REPLAY FAIL' in t),fails
class Item:
    pass
def runall(jobs,seed=1,par=None,isviol=None):
    """isviol(job,res): a violation that is to be reported; once there is one, what has not started is skipped"""
    stop=[None]
    # build the symbolic libraries first (each build is parallel inside), then run
    for k in sorted({(j.cfg,j.mem) for j in jobs if isinstance(j,Job)}):
        try: symlib(*k)
        except EngineError as x: print('ENGINE-ERROR',x)
    t0=time.time(); budget=float(os.environ.get('VP_BUDGET','700'))
    def one(j):
        left=budget-(time.time()-t0)
        if left<5: r=Res(); r.und.append('not started: time budget of the run used up'); r.timeout=True; return r
        if stop[0]: r=Res(); r.und.append('not started: a violation was already found'); r.timeout=True; return r
        if hasattr(j,'timeout'): j.timeout=min(j.timeout,left)
        try: r=runjob(j,seed,stop) if isinstance(j,Job) else j.run(seed)
        except EngineError as x: r=Res(); r.err=str(x)
        if r.viol and (isviol is None or isviol(j,r)) and not stop[0]: stop[0]=time.time()
        return r
    with cf.ThreadPoolExecutor(par or NCPU) as ex: return list(ex.map(one,jobs))
def runjobs(jobs,par=None): return runall(jobs,1,par)
