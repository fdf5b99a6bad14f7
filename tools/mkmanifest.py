#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl, harness/units.py and tools/notes.json."""
import json,os,sys
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,R+'/harness'); sys.dont_write_bytecode=True
import units as U
props=[json.loads(l) for l in open(R+'/properties.jsonl')]
have=sorted(set(u['prop'] for u in U.UNITS)); notes=getattr(U,'NOTES',{}); na=getattr(U,'NOT_APPLICABLE',{})
checks=[];nal=[]
for p in props:
    i=p['id']
    if i in have and i not in na:
        b='; '.join('%s: %s'%(u['name'],u['bounds']) for u in U.UNITS if u['prop']==i)
        checks.append({'property':i,'quick_cmd':'python3 check.py %s --tier quick'%i,'thorough_cmd':'python3 check.py %s --tier thorough'%i,'evidence_file':'evidence/%s.json'%i,
          'technique':'symbolic execution of the compiled sources (LLVM IR) with Z3 deciding every branch, address and assertion; native replay of counterexamples','level':'model_checking',
          'level_note':(notes.get(i,'')+' ' if i in notes else '')+'Bounded: '+b+'. Environment (memory, files, time, futex) is modelled; see DESIGN.md.'})
    else: nal.append({'property':i,'reason':na.get(i,'no check built for it yet')})
m={'version':1,'setup_cmd':'make -C engine -j4','hooks':{'guard':'none','enable':'no hooks: the checks compile the unmodified sources with a force-included header that redirects libc calls to a model','source_commits':[]},'checks':checks,'not_applicable':nal,'notes':'check.py is the driver, engine/ the symbolic executor, harness/ the property harnesses and environment models; known-findings.json lists defects recorded and fixed.'}
json.dump(m,open(R+'/MANIFEST.json','w'),indent=1); print(len(checks),'checks',len(nal),'not applicable')
