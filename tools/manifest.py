#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json and properties.jsonl."""
import json, os
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
C=json.load(open(V+'/checks.json')); props=[json.loads(l) for l in open(V+'/properties.jsonl')]
NA={}
naf=V+'/tools/not_applicable.json'
if os.path.exists(naf): NA=json.load(open(naf))
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in C['properties']:
        c=C['properties'][i]
        checks.append(dict(property=i,quick_cmd='python3 check.py %s quick'%i,thorough_cmd='python3 check.py %s thorough'%i,
            technique='deterministic simulation with fault injection: seeded schedules, faults and workloads over the real code',level='exploration',
            level_note=c.get('level_note','Seeded search over schedules, faults and workloads; says nothing about executions not sampled. ')+' Real code: '+', '.join(c['real'])+'. Trusts the simulator (threads, locks, clock, heap, files), the declaration-level port of the headers and the reference models in the harness.'))
    else: na.append(dict(property=i,reason=NA.get(i,'check not built yet')))
m=dict(version=1,setup_cmd='python3 check.py --setup',checks=checks,not_applicable=na,
 notes='No hooks are added to /repo: the seams used are the operating system and standard library interfaces (threads, locks, clocks, heap, files) and the template parameters of the library. Each check ports and rebuilds /repo/nntl from the working tree.')
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')
