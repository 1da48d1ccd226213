#!/opt/venv/bin/python
"""Writes MANIFEST.json from the scenario modules and properties.jsonl."""
import json
import os
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
files = {f.split('_')[0].upper(): f for f in os.listdir(os.path.join(V, 'sim', 'props'))
         if f.endswith('.py') and f[0] in 'cn' and f[1:3].isdigit()}
NA = json.load(open(os.path.join(V, 'not_applicable.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if i in files:
        doc = open(os.path.join(V, 'sim', 'props', files[i])).read().split('"""')[1]
        checks.append({
            'property': i,
            'quick_cmd': 'bin/check.py %s' % i,
            'thorough_cmd': 'bin/check.py %s --thorough' % i,
            'technique': 'deterministic simulation with fault injection: seeded search over '
                         'inputs, schedules and fault sequences on the real code, checked against '
                         'a reference model; every violation minimised and replayed',
            'level': 'exploration',
            'level_note': ' '.join(doc.split()),
            'evidence_file': 'evidence/%s.json' % i})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check yet')})
src = subprocess.check_output(['git', '-C', os.environ.get('VERIF_REPO', '/repo'), 'log',
                               '--format=%h %s'], text=True).splitlines()
hooks = [l.split()[0] for l in src if l.split(' ', 1)[1].startswith('hook:')]
doc = {'version': 1, 'setup_cmd': 'bin/setup.sh',
       'hooks': {'guard': 'none: every seam is reached from outside (see DESIGN.md)',
                 'enable': 'true', 'source_commits': hooks},
       'checks': checks, 'not_applicable': na,
       'notes': 'Run commands from /verif. bin/replay.py FILE re-executes a recorded violation. '
                'known_findings.json lists genuine defects: repaired ones and open ones.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(doc, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
