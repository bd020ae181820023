#!/usr/bin/env python3
import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,V+'/tools')
from props import PROPS
ids=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
NA={}
m={'version':1,'setup_cmd':'bash harness/build.sh plain','checks':[],'not_applicable':[]}
for i in ids:
    if i in PROPS:
        d=PROPS[i]
        m['checks'].append({'property':i,'quick_cmd':'python3 tools/check.py %s --tier quick'%i,'thorough_cmd':'python3 tools/check.py %s --tier thorough'%i,'evidence_file':'evidence/%s.json'%i,
          'technique':'deterministic simulation of the real server with fault injection, seeded search, oracle over the recorded history','level':'exploration','level_note':d.get('note','Seeded sampling of schedules, configurations and faults; not exhaustive.')})
    else:
        m['not_applicable'].append({'property':i,'reason':NA.get(i,'the simulated scenario for this property is not built yet')})
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')
