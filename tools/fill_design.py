#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md (between <!--NAME--> markers): defect counts, table of planted bugs."""
import json, os, re, collections
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = json.load(open(H + '/known_findings.json'))['findings']
fx = [f for f in F if f.get('status') == 'fixed']; kn = [f for f in F if f.get('status') == 'known']
by = collections.Counter(f['property'] for f in fx)
rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
C = json.load(open(H + '/tools/caught.json')) if os.path.exists(H + '/tools/caught.json') else {}
for s in sorted(os.listdir(H + '/seeded')):
    m = json.load(open(H + '/seeded/%s/meta.json' % s))
    rows.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'], C.get(s, '?')))
sub = dict(DEFECTS='%d fixed, %d known. By property (fixed): %s.' % (len(fx), len(kn), ', '.join('%s %d' % x for x in sorted(by.items()))), SEEDS='\n'.join(rows))
p = H + '/DESIGN.md'
t = open(p).read()
for k, v in sub.items():
    t, n = re.subn(r'<!--%s-->.*?<!--/%s-->' % (k, k), lambda m: '<!--%s-->\n%s\n<!--/%s-->' % (k, v, k), t, flags=re.S)
    assert n == 1, k
open(p, 'w').write(t)
