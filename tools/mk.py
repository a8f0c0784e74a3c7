#!/usr/bin/env python3
"""properties.jsonl and MANIFEST.json from tools/props.py: python3 tools/mk.py"""
import json
import os
from props import PROPS, NOTES

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ('contract-based deductive verification: obligations generated from the real Python source (symbolic execution of each '
        'function against its contract and its callees\' contracts), discharged by exact algebra and z3')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}, ensure_ascii=False)+'\n')
    checks, na = [], []
    for p in PROPS:
        i = p['id']
        if p['_na'] or not os.path.exists(os.path.join(HERE, 'vc', 'contracts', i.lower()+'.py')):
            na.append(dict(property=i, reason=p['_na'] or 'no contracts built yet (work in progress)'))
            continue
        checks.append(dict(property=i, quick_cmd=f'./check {i}', thorough_cmd=f'VERIF_TIER=thorough ./check {i}',
                           evidence_file=f'evidence/{i}.json', technique=TECH, level=p['_level'], level_note=p['_note']))
    man = dict(version=1, setup_cmd='./tools/setup.sh', checks=checks, not_applicable=na, notes=NOTES)
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write('\n')
    print(len(checks), 'claimed', [x['property'] for x in na])


main()
