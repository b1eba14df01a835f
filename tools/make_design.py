"""make_design.py   write DESIGN.md"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [VERIF, HERE]
sys.dont_write_bytecode = True
from pbt import core
import notes, seeds, design_notes


def properties():
    out = []
    for line in open(os.path.join(VERIF, 'properties.jsonl')):
        p = json.loads(line)
        mod = core.load(p['id'])
        out.append('### %s %s\n' % (p['id'], p['title']))
        d = design_notes.NOTES[p['id']]
        out.append('*Decided by* %s.\n' % notes.NOTES[p['id']][0])
        out.append('*Oracle.* %s\n' % d[0])
        out.append('*Why tests cannot.* %s\n' % d[1])
        out.append('*Groups* (quick / thorough cases):\n')
        for g in mod.GROUPS:
            out.append('- `%s` (%d / %d): %s.' % (
                g.name, g.counts['quick'], g.counts['thorough'], g.rule))
        out.append('')
        out.append('*Bounds and assumptions.* %s\n' % '; '.join(
            mod.ASSUMPTIONS))
    return '\n'.join(out)


def findings():
    out = []
    for line in open(os.path.join(VERIF, 'known-findings.txt')):
        line = line.strip()
        if line.startswith('fixed: property='):
            prop, commit, what = line[len('fixed: property='):].split(' ', 2)
            out.append('- %s, repaired (%s): %s' % (prop, commit, what))
        elif line.startswith('{'):
            f = json.loads(line)
            out.append('- %s, **recorded**: %s' % (f['property'], f['what']))
    return '\n'.join(out)


def table():
    path = os.path.join(HERE, 'catches.json')
    got = json.load(open(path)) if os.path.exists(path) else {}
    out = ['| bug | property | needs | first | now |', '|---|---|---|---|---|']
    for s in seeds.SEEDS:
        r = got.get(s['id'], {})
        out.append('| %s | %s | %s | %s | %s |' % (
            s['id'], s['property'], s['needs'].replace('|', '\\|'),
            r.get('first', '?').lower(), r.get('now', '?').lower()))
    return '\n'.join(out)


text = open(os.path.join(HERE, 'design_template.md')).read()
for key, value in [('properties', properties()), ('findings', findings()),
                   ('seeds', table()),
                   ('strengthened', '\n'.join(
                       '- %s' % s for s in design_notes.STRENGTHENED))]:
    text = text.replace('{{%s}}' % key, value)
open(os.path.join(VERIF, 'DESIGN.md'), 'w').write(text)
