#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the checks present and NOT_APPLICABLE below."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
NOTE = {}
TECH = {}
exec(open(V + '/tools/notes.py').read())
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/checks/%s.py' % (V, i)) and i not in NA:
        checks.append(dict(property=i, quick_cmd='python3-vt engine/vp.py ' + i,
                           thorough_cmd='VERIF_TIER=thorough python3-vt engine/vp.py ' + i,
                           evidence_file='evidence/%s.json' % i,
                           technique=TECH.get(i, 'symbolic execution of the LLVM IR of the real code, z3 decides each assertion; '
                                              'counterexamples replayed natively'),
                           level='other',
                           level_note=NOTE.get(i, 'Every path within the stated bounds is decided by z3 for all values; nothing is '
                                               'claimed outside the bounds listed in the evidence file. Trusts clang, the IR '
                                               'executor, its libc/libm models and z3; doubles are exact reals in the encoding, '
                                               'so rounding is outside the claim.')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'No check has been built for this property yet.')))
json.dump(dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks, not_applicable=na,
               notes='See DESIGN.md. All checks run engine/vp.py, which regenerates every encoding from /repo on each run.'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
