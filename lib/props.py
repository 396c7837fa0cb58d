#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: one entry per property."""
import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SX='symbolic execution of the compiled LLVM IR over exact reals, z3 / polynomial identity decision, native replay of counterexamples'
CB='bounded model checking of the real C sources (CBMC, SAT), native replay of counterexamples'
P=[]
def prop(id,title,statement,over,text,why,files,mech,tech=SX,note='',claim=True,reason='',design=''):
    P.append(dict(id=id,title=title,statement=statement,over=over,text=text,why=why,files=files,mech=mech,tech=tech,note=note,claim=claim,reason=reason,design=design))
exec(open(V+'/lib/proplist.py').read())
def design(m):
    import glob,importlib,sys
    sys.path[:0]=[V+'/lib',V+'/checks']
    o=open(V+'/lib/design_head.md').read().rstrip()+'\n\n## Properties\n'
    for p in P:
        o+=f"\n### {p['id']} {p['title']}\n\n{p['statement']}\n\n"
        if not p['claim']: o+='Not applicable: '+p['reason']+'\n'; continue
        mod=importlib.import_module(p['id'])
        o+=(p['design']+'\n\n' if p['design'] else '')+f"Method: {p['tech']}.\n\nBounds: {mod.BOUNDS}.\n\nOutside / assumed: {'; '.join(mod.ASSUME)}.\n\nWhy tests cannot: {p['why']}\n"
        try: e=json.load(open(f"{V}/evidence/{p['id']}.json")); o+=f"\nCost ({e['tier']}, 8 cores): {e['coverage']['jobs']} runs, {e['coverage']['obligations']} obligations, about {e['wall_s']:.0f} s.\n"
        except Exception: pass
    o+='\n## Planted changes\n\n| id | property | what it breaks | needs | caught |\n|---|---|---|---|---|\n'
    res=json.load(open(V+'/lib/seedres.json')) if os.path.exists(V+'/lib/seedres.json') else {}
    for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
        k=f.split('/')[-2]; d=json.load(open(f)); o+=f"| {k} | {d['property']} | {d['what_it_breaks']} | {d['needs']} | {res.get(k,'not run')} |\n"
    o+='\n## Genuine defects found\n\n'
    for k in json.load(open(V+'/known_findings.json'))['findings']: o+=f"- {k['property']} {'fixed in '+k['commit'] if k['status']=='fixed' else 'KNOWN FINDING (recorded, not repaired)'}: {k['what']}\n"
    open(V+'/DESIGN.md','w').write(o)
def main():
    with open(V+'/properties.jsonl','w') as f:
        for p in P:
            f.write(json.dumps(dict(id=p['id'],title=p['title'],statement=p['statement'],quantifier=dict(over=p['over'],text=p['text']),why_tests_cant=p['why'],
              anchors=dict(files=p['files'],mechanism=[dict(name=n,where=w) for n,w in p['mech']])))+'\n')
    m=dict(version=1,setup_cmd='python3 -c "import sys;sys.path.insert(0,\'lib\');import vp;vp.engine()"',checks=[],not_applicable=[],
      notes='Every check regenerates its encoding from /repo/src on each run; no hooks in /repo are needed.')
    for p in P:
        if p['claim']: m['checks'].append(dict(property=p['id'],quick_cmd=f"python3 lib/check.py {p['id']} quick",thorough_cmd=f"python3 lib/check.py {p['id']} thorough",technique=p['tech'],level='model_checking',level_note=p['note']))
        else: m['not_applicable'].append(dict(property=p['id'],reason=p['reason']))
    json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')
    design(m)
    import jsonschema
    S=json.load(open('/root/.vp/PROPERTIES.schema.json')); 
    for l in open(V+'/properties.jsonl'):
        try: jsonschema.validate(json.loads(l),S)
        except jsonschema.ValidationError as e: print(l[:60],e.message,list(e.path))
    jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
    for p in P:
        if len(p['title'])>80: print('title',p['id'])
    print(len(P),'properties',len(m['checks']),'checks')
if __name__=='__main__': main()
