#!/usr/bin/env python3
"""Writes DESIGN.md from the text below, the harness metadata, the last evidence and the seeded changes."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = open(V + '/tools/design_head.md').read()
TAIL = open(V + '/tools/design_tail.md').read()
HOW = {}
cur = None
for l in open(V + '/tools/design_how.md'):
    m = re.match(r'## (C\d+)', l)
    if m:
        cur = m.group(1); HOW[cur] = ''
    elif cur:
        HOW[cur] += l
NA = json.load(open(V + '/tools/not_applicable.json'))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
out = [HEAD]
out.append('## 5. Property by property\n')
out.append('For every property: what is decided and against what, the bounds, what stays outside, and the cost of the '
           'quick check on the 8 cores of this sandbox (queries = assertion instances the solver refuted).\n')
for p in props:
    i = p['id']
    out.append('### %s — %s\n' % (i, p['title']))
    if i in NA:
        out.append('*Not applicable:* ' + NA[i] + '\n')
        continue
    out.append(HOW[i].strip() + '\n')
    m = json.load(open(V + '/harness/%s/meta.json' % i))
    out.append('* Bounds: ' + '; '.join(m['bounds']) + '.')
    if m.get('outside'):
        out.append('* Outside: ' + m['outside'])
    if m.get('assumptions'):
        out.append('* Assumes: ' + '; '.join(m['assumptions']) + '.')
    e = V + '/evidence/%s.json' % i
    if os.path.exists(e):
        d = json.load(open(e))
        c = d.get('coverage', {})
        fs = len(c.get('functions_encoded', []))
        w = d.get('wall_seconds') or d.get('wall_s') or d.get('duration_s') or 0
        out.append('* Cost (%s): %s functions encoded, %s queries%s.' % (d.get('tier', 'quick'), fs, c.get('discharged', '?'), ', %.0f s' % w if w else ''))
    out.append('')
out.append(TAIL)
out.append('## 8. Seeded changes and the checks that catch them\n')
C = json.load(open(V + '/tools/seeds/caught.json')) if os.path.exists(V + '/tools/seeds/caught.json') else {}
out.append('| change | property | breaks | needs | caught by (quick) |\n|---|---|---|---|---|')
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    n = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    out.append('| %s | %s | %s | %s | %s |' % (n, m['property'], m['what_it_breaks'], m['needs'], ', '.join(C.get(n, [])) or 'not caught'))
out.append('')
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
