#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, one section per property from checks/*.py, tools/design_tail.md."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/checks', V + '/engine']
NA = {}; NOTE = {}; TECH = {}
exec(open(V + '/tools/notes.py').read())
out = [open(V + '/tools/design_head.md').read()]
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    if i in NA or not os.path.exists('%s/checks/%s.py' % (V, i)):
        out.append('Not applicable: %s\n' % NA.get(i, 'no check has been built.')); continue
    m = importlib.import_module(i)
    out.append(m.EXPLANATION + '\n')
    out.append('Anchors: ' + ', '.join('`%s`' % x['name'] for x in p['anchors']['mechanism']) + '. Assumptions: ' + '; '.join(m.ASSUMPTIONS) + '.\n')
    out.append('| job | engine | tier | bounds |\n|---|---|---|---|')
    for j in m.JOBS:
        out.append('| %s | %s | %s | %s |' % (j.name, j.engine if hasattr(j, 'engine') else j.kind, j.tier, str(j.bounds).replace('|', '/')))
    out.append('')
out.append(open(V + '/tools/design_tail.md').read())
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
