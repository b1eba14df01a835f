#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the property modules present."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
exec(open(os.path.join(ROOT, 'tools', 'notes.py')).read())
checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    prop = json.loads(line)
    pid = prop['id']
    if os.path.exists(os.path.join(ROOT, 'pbt', 'props', pid.lower() + '.py')):
        tech, note = NOTES[pid]
        checks.append({
            'property': pid,
            'quick_cmd': '/opt/venv/bin/python -B run.py %s quick' % pid,
            'thorough_cmd': '/opt/venv/bin/python -B run.py %s thorough' % pid,
            'technique': 'property-based testing: ' + tech,
            'level': 'exploration', 'level_note': note})
    else:
        na.append({'property': pid, 'reason': 'check not built yet'})
m = {'version': 1,
     'setup_cmd': '/opt/venv/bin/python -B run.py --selftest',
     'checks': checks, 'not_applicable': na,
     'notes': 'The checks import the code from /repo at run time: there is '
     'nothing to build. No hooks in /repo.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
