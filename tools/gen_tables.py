#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md: per property (props.py, evidence/), and which check catches which seeded bug
(tools/caught.txt, written by tools/trybugs.sh)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
from props_text import TEXT
rows = ['| id | property | bounds (quick) | deeper (thorough) | outside | paths, queries, time |', '|---|---|---|---|---|---|']
for p in sorted(PROPS):
    e = PROPS[p]['entries']
    q = '; '.join(v['bounds'] for v in e.values() if v.get('tier') != 'thorough')
    t = '; '.join(v['bounds'] for v in e.values() if v.get('tier') == 'thorough')
    c = ''
    try:
        c = json.load(open(V + '/evidence/%s.json' % p))['coverage']
        c = '%d paths, %d queries, %d s' % (sum(r['paths'] for r in c['runs']), c['queries_discharged'], sum(r['wall_s'] for r in c['runs']))
    except (OSError, KeyError):
        pass
    rows.append('| %s | %s | %s | %s | %s | %s |' % (p, TEXT[p]['title'], q, t, PROPS[p].get('outside', ''), c))
bugs = ['| bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
caught = {}
if os.path.exists(V + '/tools/caught.txt'):
    for l in open(V + '/tools/caught.txt'):
        b, p, r = l.split()
        caught[b] = p if r == '1' else '**missed**'
for b in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % b))
    bugs.append('| %s | %s | %s | %s | %s |' % (b, m['property'], m['what_it_breaks'], m['needs'], caught.get(b, '?')))
s = open(V + '/DESIGN.md').read()
for k, t in (('table', rows), ('bugs', bugs)):
    s = re.sub(r'<!-- %s -->.*?<!-- /%s -->' % (k, k), lambda m: '<!-- %s -->\n%s\n<!-- /%s -->' % (k, '\n'.join(t), k), s, flags=re.S)
open(V + '/DESIGN.md', 'w').write(s)
