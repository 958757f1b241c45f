#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/properties_src.py and props.py."""
import json, os, sys
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0]=[H,os.path.join(H,'tools')]; sys.dont_write_bytecode=True
from properties_src import P
from props import PROPS
P.sort(key=lambda p:p['id'])
with open(H+'/properties.jsonl','w') as f:
    for p in P:
        assert len(p['title'])<=80,p['id']
        f.write(json.dumps(dict(id=p['id'],title=p['title'],statement=p['statement'],quantifier=dict(over=p['over'],text=p['text']),why_tests_cant=p['why'],
          anchors=dict(files=p['files'],mechanism=[dict(name=a,where=b) for a,b in p['mech']])))+'\n')
checks=[dict(property=p['id'],quick_cmd='python3 check.py %s quick'%p['id'],thorough_cmd='python3 check.py %s thorough'%p['id'],technique=p['technique'],level='exploration',
  level_note=p['note']+' Sampling, not proof: %d generated cases quick, %d thorough.'%(PROPS[p['id']]['quick'],PROPS[p['id']]['thorough'])) for p in P if p['id'] in PROPS]
na=[dict(property=p['id'],reason=p.get('na','no check yet')) for p in P if p['id'] not in PROPS]
json.dump(dict(version=1,setup_cmd='python3 check.py build',checks=checks,not_applicable=na,
  notes='No hooks: the harnesses link /repo sources unmodified, compiled with sanitizers.'),open(H+'/MANIFEST.json','w'),indent=1)
open(H+'/MANIFEST.json','a').write('\n')
