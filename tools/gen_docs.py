#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from PROPERTY_TEXT below and props.py (committed outputs)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
from props_text import TEXT
S = 'stl-to-ps/'
out, checks = [], []
for pid in sorted(TEXT):
    t = TEXT[pid]
    if pid not in PROPS:
        continue
    out.append({
        'id': pid, 'title': t['title'], 'statement': t['statement'],
        'quantifier': {'over': t.get('over', ['inputs']), 'text': t['quant']},
        'why_tests_cant': t['why'],
        'anchors': {'files': [S + f for f in t['files']],
                    'mechanism': [{'name': n, 'where': S + w} for n, w in t['mech']],
                    'observe_at': t.get('observe', ['the return value and the written PostScript of the script-to-PostScript call']),
                    'hook_needed': None},
    })
    e = PROPS[pid]['entries']
    checks.append({
        'property': pid,
        'quick_cmd': 'python3 run.py %s --tier quick' % pid,
        'thorough_cmd': 'python3 run.py %s --tier thorough' % pid,
        'technique': 'symbolic execution of the LLVM IR of the real sources, assertions decided by Z3, counterexamples replayed natively',
        'level': 'model_checking',
        'level_note': 'Within: ' + '; '.join('%s (%s)' % (v['bounds'], k) for k, v in e.items())[:900] +
                      '. Outside: ' + PROPS[pid].get('outside', '') +
                      '. Trusts the library models in /verif/models and /verif/shim (cross-checked natively on sampled paths)'
                      + ('' if any(v.get('opts', {}).get('fp') for v in e.values()) else ' and reals for doubles') + '.',
    })
with open(V + '/properties.jsonl', 'w') as f:
    for o in out:
        assert len(o['title']) <= 80, o['title']
        f.write(json.dumps(o) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': [],
     'notes': 'No hooks in /repo. Checks rebuild the engine, the encoding and the native replay from /repo\'s working tree (cached by content under /verif/build).'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(out), 'properties')
