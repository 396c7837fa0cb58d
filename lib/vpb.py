"""CBMC jobs: real sources of /repo through goto-cc, one harness, SAT verdict,
counterexamples replayed on a native sanitizer build."""
import os,re,json,time,tempfile,subprocess,resource
import vp
from vp import Res,VER,SRC,cfgflags,tmpdir
class CJob:
    """h: harness cbmc/<h>.c; srcs: files of /repo/src compiled in; args: -D defines; unwind; checks: extra cbmc flags"""
    def __init__(s,h,cfg,srcs,defs=(),unwind=10,unwindset=(),timeout=300,flags=('--bounds-check','--pointer-check'),mem=6,label=None,stubs=(),undef=(),replay_srcs=None,cppflags=(),filt=None,validate=()):
        s.h,s.cfg,s.srcs,s.defs,s.unwind,s.uws,s.timeout,s.flags,s.mem=h,cfg,list(srcs),list(defs),unwind,list(unwindset),timeout,list(flags),mem
        s.stubs=list(stubs); s.undef=list(undef); s.name=label or f"{h}[{cfg}]("+','.join(d for d in s.defs)+')'; s.cpp=list(cppflags); s.replay_srcs=replay_srcs; s.filt=filt
    def cpp_flags(s): return ['-w','-I'+VER+'/engine','-I'+VER+'/harness',*cfgflags(s.cfg+('' if '+generic' in s.cfg else '+generic'),False),*['-D'+d for d in s.defs],*s.cpp]
    def run(s,seed=1):
        r=Res(); t0=time.time(); wd=tempfile.mkdtemp(prefix='cb_',dir=tmpdir()); 
        g=wd+'/h.goto'
        srcs=[f'{VER}/cbmc/{s.h}.c']+[x if x.startswith('/') else f'{SRC}/{x}' for x in s.srcs]+[f'{VER}/cbmc/{x}' for x in s.stubs]
        p=vp.sh(['goto-cc','-D__CPROVER_HARNESS','-fopenmp' if 0 else '-Wno-unknown-pragmas','--function','harness',*s.cpp_flags(),*srcs,'-o',g],cwd=wd)
        if p.returncode: r.err='goto-cc: '+p.stdout[-1500:]; return r
        lim=lambda: resource.setrlimit(resource.RLIMIT_AS,(s.mem<<30,s.mem<<30))
        cmd=['cbmc',g,'--function','harness','--unwind',str(s.unwind),'--unwinding-assertions','--no-malloc-may-fail','--drop-unused-functions','--verbosity','8','--object-bits','14','--json-ui','--trace','--no-standard-checks',*s.flags]
        for u in s.uws: cmd+=['--unwindset',u]
        try:
            q=subprocess.run(cmd,cwd=wd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=s.timeout,preexec_fn=lim)
            out=q.stdout.decode(errors='replace')
        except subprocess.TimeoutExpired: r.und.append('solver time limit'); r.timeout=True; r.wall=time.time()-t0; return r
        r.wall=time.time()-t0
        try: J=json.loads(out)
        except Exception: 
            if 'bad_alloc' in out or 'emory' in out[-500:]: r.und.append('solver memory limit'); r.timeout=True; return r
            r.err='cbmc output: '+out[-800:]; return r
        res=None; msg=''
        for x in J:
            if 'result' in x: res=x['result']
            if 'messageText' in x: msg+=x['messageText']+'\n'
        if res is None: r.err='cbmc: '+msg[-1200:]; return r
        m=re.search(r'(\d+) variables, (\d+) clauses',msg); st=re.findall(r'Runtime (?:Solver|decision procedure): ([\d.]+)s',msg,re.I)
        vcc=re.findall(r'Generated (\d+) VCC',msg)
        reach=None; fn=set(); fails=[]
        for x in res:
            d=x.get('description',''); stt=x.get('status'); sl=x.get('sourceLocation',{}); f=sl.get('file','')
            if f.startswith(SRC) and sl.get('function'): fn.add(sl['function'])
            if 'VBREACH' in d: reach=(stt=='FAILURE') or reach; continue
            if stt=='SUCCESS': r.q.append((d.replace(' ','_') or x.get('property'),'unsat','cbmc'))
            elif stt=='FAILURE': fails.append(x)
            else: r.und.append(f"{d} {stt}")
        r.fn=fn|set(re.findall(r'file '+re.escape(SRC)+r'/\S+ line \d+ function (\w+)',msg))
        r.end=dict(paths=1,queries=len(res),unsat=len(r.q),unknown=0,witness=1 if reach else 0,solver_s=sum(map(float,st[-1:])) if st else 0,nodes=int(m.group(1)) if m else 0)
        if reach is None or not reach: r.err='the end of the harness is not reachable (vacuous)' if not fails else None
        for x in fails:
            d=x.get('description',''); lab=(d[3:] if d.startswith('VB ') else d)+' @'+x.get('sourceLocation',{}).get('function','?')
            if 'unwinding assertion' in d or 'recursion unwinding' in d: r.und.append('loop bound reached: '+lab+' '+str(x.get('sourceLocation',{}).get('line',''))); continue
            vals={}
            for stp in x.get('trace',[]):
                if stp.get('stepType')=='assignment':
                    mm=re.match(r'VB_IN\[(\d+)l*\]',stp.get('lhs',''))
                    if mm and 'data' in stp.get('value',{}): 
                        try: vals[int(mm.group(1))]=int(re.sub(r'[uUlL]+$','',stp['value']['data']))
                        except ValueError: pass
            f=f'{wd}/cex_{len(r.cex)}.txt'
            with open(f,'w') as o:
                o.write('label '+lab+'\n'); [o.write(f'in {k} {v}\n') for k,v in sorted(vals.items())]
            r.cex.append((f,lab,''))
            if len(r.viol)>=5: continue
            ok,txt=s.replay(f,wd); r.replays.append((lab,ok))
            if ok: r.viol.append((lab,f,txt))
            else: r.spurious.append((lab,txt[-300:]))
        return r
    def replay(s,f,wd):
        exe=wd+'/native'
        if not os.path.exists(exe):
            srcs=[f'{VER}/cbmc/{s.h}.c',f'{VER}/engine/vbreplay.c']+[x if x.startswith('/') else f'{SRC}/{x}' for x in (s.replay_srcs if s.replay_srcs is not None else s.srcs)]+[f'{VER}/cbmc/{x}' for x in s.stubs]
            p=vp.sh(['gcc','-g','-O1','-fsanitize=address,undefined','-fno-sanitize-recover=undefined','-DVB_NATIVE',*s.cpp_flags(),*srcs,'-lm','-o',exe])
            if p.returncode: return False,'native build: '+p.stdout[-500:]
        e=dict(os.environ,VB_CEX=f,ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1')
        d=tempfile.mkdtemp(dir=wd)
        try: p=subprocess.run([exe],cwd=d,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=60)
        except subprocess.TimeoutExpired: return 'crash','native replay did not terminate in 60 s'
        t=p.stdout.decode(errors='replace')
        if 'assume-violated' in t: return False,t[-200:]
        fl=[l for l in t.splitlines() if l.startswith('REPLAY FAIL') or 'ERROR: AddressSanitizer' in l or 'runtime error' in l]
        if p.returncode==0 and not fl: return False,t[-200:]
        return (True if fl else (p.returncode<0 or p.returncode>=128) ),'\n'.join(fl)[:1500] or f'native exit status {p.returncode}'
