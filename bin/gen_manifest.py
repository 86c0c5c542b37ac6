#!/usr/bin/env python3
"""Writes MANIFEST.json from contracts/properties.json and properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(H + '/contracts/properties.json'))
props = [json.loads(l) for l in open(H + '/properties.jsonl') if l.strip()]
checks, na = [], []
for p in props:
    i = p['id']
    c = cfg.get(i)
    if not c or c.get('not_applicable'):
        na.append({'property': i, 'reason': (c or {}).get('not_applicable', 'contracts not written yet')})
        continue
    checks.append({
        'property': i,
        'quick_cmd': 'python3 bin/check.py %s --tier quick' % i,
        'thorough_cmd': 'python3 bin/check.py %s --tier thorough' % i,
        'technique': c.get('technique', 'Verus contracts on the functions extracted from /repo at each run; failing obligations replayed on the real crate'),
        'level': c.get('level', 'proof'),
        'level_note': c['level_note'],
        **({'theorems': c['theorems']} if c.get('theorems') else {}),
    })
m = {'version': 1, 'setup_cmd': 'python3 bin/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: everything is reached through the public API or by extracting the source. See DESIGN.md.'}
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
open(H + '/MANIFEST.json', 'a').write('\n')
ids = {p['id'] for p in props}
assert set(cfg) <= ids, set(cfg) - ids
