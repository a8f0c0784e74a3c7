#!/usr/bin/env python3
"""DESIGN.md from tools/DESIGN.in.md, properties, known findings and seeded/*/meta.json"""
import glob
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, HERE+'/tools')
from props import PROPS
import vc.core, vc.ctx  # noqa

rows = []
for p in PROPS:
    i = p['id']
    rows.append(f"### {i} {p['title']}\n")
    if p['_na']:
        rows.append('Not applicable: '+p['_na']+'.\n')
        continue
    if not os.path.exists(f'{HERE}/vc/contracts/{i.lower()}.py'):
        rows.append('Contracts not built yet.\n')
        continue
    m = importlib.import_module('vc.contracts.'+i.lower())
    rows.append((m.__doc__ or '').strip()+'\n')
    if p['_note']:
        rows.append(p['_note']+'\n')
    for u in m.UNITS:
        pr = '; '.join(l for l, _ in u.proofs) or 'runtime contract only'
        rows.append(f"* `{u.name}` ({pr}): {u.clauses or 'value'}")
    rows.append('')
fx, fd = [], []
for l in open(HERE+'/known-findings.jsonl'):
    d = json.loads(l)
    if d['kind'] == 'fixed':
        fx.append('* '+d['text'])
    else:
        fd.append(f"* KNOWN-FINDING {d['property']} ({d['unit']} / {d['key']}): {d['what']}")
sd = []
for f in sorted(glob.glob(HERE+'/seeded/*/meta.json')):
    d = json.load(open(f))
    sd.append(f"* `{os.path.basename(os.path.dirname(f))}` ({d['property']}): {d['what_it_breaks']} Needs: {d['needs']} "
              + (f"Caught by: {d['caught_by']}" if d.get('caught_by') else ''))
s = open(HERE+'/tools/DESIGN.in.md').read()
s = s.replace('@@TABLE@@', '\n'.join(rows)).replace('@@FIXED@@', '\n'.join(fx+fd)).replace('@@SEEDED@@', '\n'.join(sd) or 'none yet')
open(HERE+'/DESIGN.md', 'w').write(s)
