#!/usr/bin/env python3
"""Assembles properties.jsonl and MANIFEST.json from units/<ID>/prop.json (one
record per property) so that the two stay in step."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, na = [], [], []
for f in sorted(glob.glob(os.path.join(V, 'units', 'C*', 'prop.json')) + glob.glob(os.path.join(V, 'units', 'N*', 'prop.json'))):
    p = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    a = p['anchors']
    a['mechanism'] = [{'name': n, 'where': w} for n, w in a['mechanism']]
    props.append({'id': i, 'title': p['title'], 'statement': p['statement'],
                  'quantifier': {'over': p['over'], 'text': p['forall']},
                  'why_tests_cant': p['why'], 'anchors': a})
    if 'not_applicable' in p:
        na.append({'property': i, 'reason': p['not_applicable']})
    else:
        checks.append({'property': i, 'quick_cmd': 'python3 bin/vpcheck.py %s' % i,
                       'thorough_cmd': 'python3 bin/vpcheck.py %s --tier=thorough' % i,
                       'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
open(os.path.join(V, 'properties.jsonl'), 'w').write(''.join(json.dumps(p) + '\n' for p in props))
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: contracts live in /verif/units and are attached to a scratch copy of the current sources on every run.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
