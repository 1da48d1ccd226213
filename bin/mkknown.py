#!/usr/bin/env python3-vt
"""Rewrites the "fixed" list of known_findings.json from the fix commits of /repo."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = json.load(open(os.path.join(HERE, 'bin', 'fixprops.json')))
p = os.path.join(HERE, 'known_findings.json')
d = json.load(open(p)) if os.path.exists(p) else {'findings': []}
d['fixed'] = []
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'],
                                 text=True).splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    s = s[5:]
    props = PROPS.get(s)
    if props is None:
        print('no property for', h, s)
        continue
    for q in props:
        d['fixed'].append('fixed: property=%s %s %s' % (q, h, s))
json.dump(d, open(p, 'w'), indent=1)
