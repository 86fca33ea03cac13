#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property with a harness directory, the rest not applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(V + '/tools/not_applicable.json'))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    d = V + '/harness/' + i
    if os.path.isdir(d) and i not in NA:
        m = {}
        if os.path.exists(d + '/meta.json'):
            m = json.load(open(d + '/meta.json'))
        checks.append({
            'property': i,
            'quick_cmd': 'bash run.sh %s quick' % i,
            'thorough_cmd': 'bash run.sh %s thorough' % i,
            'technique': m.get('technique', 'symbolic execution of the Go SSA of the real functions; assertions discharged by z3; counterexamples replayed natively'),
            'level': m.get('level', 'other'),
            'level_note': m.get('note', 'Solver verdict over all values of the symbolic inputs within the stated bounds: ' + '; '.join(m.get('bounds') or ['see DESIGN.md'])),
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
out = {'version': 1, 'setup_cmd': 'bash run.sh setup',
       'hooks': {'guard': 'verif', 'enable': 'no hooks are needed: the harness files enter through an overlay', 'source_commits': []},
       'checks': checks, 'not_applicable': na}
json.dump(out, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
