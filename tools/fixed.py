"""prints 'fixed' lines of known-findings.jsonl from /repo's fix: commits (property chosen by file)"""
import json, subprocess
M = {'Shape.': 'C17', 'shapes not': 'C17', 'read_': 'C16', 'force_basis': 'C12', 'torque': 'C13', 'glibShapes': 'C14', 'gShapeGL': 'C15', 'pg2Multi': 'C04', 'inner moments of point': 'C04', 'imoments': 'C23', 'qlmACH': 'C07', 'bigQlm': 'C08',
     'translat': 'C10', 'transl_newt': 'C10', 'rotate_H': 'C09', 'qlm.': 'C18', 'shapes': 'C17', 'read_': 'C16', 'qlmNum': 'C22'}
out = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
for l in out.splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix:'):
        continue
    p = next((v for k, v in M.items() if k in s), 'C17')
    print(json.dumps(dict(kind='fixed', property=p, text=f'fixed: property={p} {h} {s[5:]}')))
print(open(__file__.rsplit('/', 1)[0]+'/findings.jsonl' if '/' in __file__ else 'findings.jsonl').read(), end='')
