#!/usr/bin/env python3-vt
"""Writes MANIFEST.json from tools/props.py and properties.jsonl."""
import json, os, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,V+'/tools')
import props
ids=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
checks=[]
for i in ids:
    if i not in props.PROPS: continue
    p=props.PROPS[i]
    c=dict(property=i,quick_cmd='python3 check.py '+i,thorough_cmd='VERIF_TIER=thorough python3 check.py '+i,technique=p.get('technique','contracts on the extracted functions of /repo, discharged by Verus; failed obligations replayed on the real crate'),
           level=p['level'],level_note=p.get('note') or ('All obligations generated from /repo\'s current functions are discharged by Verus for all inputs. '+' '.join(p['assumptions'])))
    if p['level']=='proof' and p.get('theorems'): c['theorems']=p['theorems']
    checks.append(c)
na=[dict(property=i,reason=props.NA.get(i,'not built yet')) for i in ids if i not in props.PROPS]
m=dict(version=1,setup_cmd='python3 setup.py',checks=checks,not_applicable=na,
       notes='No hooks in /repo: the functions are extracted from the source (or the macro-expanded source) on every run. Repairs of genuine defects are the fix: commits listed in known-findings.txt.')
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
