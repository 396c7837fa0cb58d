"""development helper: seed(id,prop,cfg,file,[(old,new)..],demo,needs,breaks) writes seeded/<id>"""
import subprocess,os,json
R='/repo'
DEMO=open('/tmp/sd/demo.sh').read() if os.path.exists('/tmp/sd/demo.sh') else ''
def seed(id,prop,cfg,f,reps,demo,needs,breaks,sh=None):
    edits=reps if isinstance(f,list) else [(f,o,n) for o,n in reps]
    for g,o,n in edits:
        p=f'{R}/src/{g}'; s=open(p).read(); assert s.count(o)==1,(id,g,s.count(o),o); open(p,'w').write(s.replace(o,n))
    d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(subprocess.check_output(['git','-C',R,'diff'],text=True)); subprocess.check_call(['git','-C',R,'checkout','-q','--','.'])
    open(d+'/demo.sh','w').write(sh or DEMO.replace('@CFG@',cfg))
    if demo: open(d+'/demo.c','w').write(demo)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
