#!/usr/bin/env python3
"""mkseed.py SPEC.py : create seeded/<id>/ from a spec (python file defining a list SEEDS of dicts
id, property, edits=[(file, old, new)], needs, breaks, demo (C++ main body file text), std, libs)."""
import sys, os, subprocess, json, shutil, runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
DEMO_SH = '''#!/bin/bash
# builds the demonstration against the headers of the current tree and runs it
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 %s -I "$R/include" "$D/demo.cpp" -o "$T/demo" %s || exit 99
timeout 120 "$T/demo"
'''
for s in runpy.run_path(sys.argv[1])['SEEDS']:
    d = os.path.join(HERE, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    tmp = '/tmp/pl/mk'
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp + '/a'); os.makedirs(tmp + '/b')
    diff = ''
    files = {}
    for ed in s['edits']:   # (file, old, new) with old unique, or (file, old, new, occurrence index)
        f, old, new = ed[:3]
        t = files.get(f) or open(os.path.join(REPO, f)).read()
        if len(ed) == 3:
            assert t.count(old) == 1, (s['id'], f, t.count(old))
            files[f] = t.replace(old, new)
        else:
            parts = t.split(old)
            assert len(parts) > ed[3] + 1, (s['id'], f, len(parts) - 1)
            files[f] = old.join(parts[:ed[3] + 1]) + new + old.join(parts[ed[3] + 1:])
    for f, t in files.items():
        for side, txt in (('a', open(os.path.join(REPO, f)).read()), ('b', t)):
            p = os.path.join(tmp, side, f); os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, 'w').write(txt)
        r = subprocess.run(['diff', '-u', 'a/' + f, 'b/' + f], cwd=tmp, capture_output=True, text=True).stdout
        r = '\n'.join(l.split('\t')[0] if l.startswith(('--- ', '+++ ')) else l for l in r.split('\n'))
        diff += r
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cpp', 'w').write(s['demo'])
    open(d + '/demo.sh', 'w').write(DEMO_SH % (s.get('flags', ''), s.get('libs', '')))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    subprocess.run(['git', '-C', REPO, 'apply', '--check', d + '/patch.diff'], check=True)
    print('made', s['id'])
