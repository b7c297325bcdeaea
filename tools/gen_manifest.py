#!/usr/bin/env python3
import json, os, sys
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,H)
from checks import CHECKS
props=[json.loads(l) for l in open(H+'/properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p['id']
    if i in CHECKS:
        c=CHECKS[i]
        checks.append(dict(property=i,quick_cmd='python3 run.py %s quick'%i,thorough_cmd='python3 run.py %s thorough'%i,
          technique=c.get('technique','runtime monitoring: ASan/UBSan build of the real templates under generated workloads, online reference-model oracle in higher precision, footprint/const monitors on guarded operands'),
          level='exploration',level_note=c.get('note','held on the generated executions listed in the evidence file (count, configurations, worst observed ratio to the oracle limit); inputs not generated are not covered; scalar types float, double and their complex versions, layouts column/row-major (strided user type in thorough)')))
    else: na.append(dict(property=i,reason='no check built yet'))
json.dump(dict(version=1,setup_cmd='python3 -m py_compile run.py checks.py && clang++ --version >/dev/null && python3 -c "import json;json.load(open(\'known_findings.json\'))"',
  checks=checks,not_applicable=na),open(H+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'na')
