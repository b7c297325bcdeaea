#!/usr/bin/env python3
# addfix.py PROPERTY COMMIT "what failed"
import json,sys
p='/verif/known_findings.json'; d=json.load(open(p))
n='F%02d'%(len(d['findings'])+1)
d['findings'].append(dict(id=n,property=sys.argv[1],status='fixed',commit=sys.argv[2],what='fixed: property=%s %s %s'%tuple(sys.argv[1:4])))
json.dump(d,open(p,'w'),indent=1)
