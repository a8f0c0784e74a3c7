#!/usr/bin/env python3
"""make and confirm planted bugs:  plant.py FILE [id...]
FILE defines PLANTS = [dict(id, property, edits=[(file, old, new[, nth])], demo=python text, needs, breaks)].
Everything happens in scratch copies of /repo; a bug is kept in seeded/<id>/ only if the tests still pass,
the demonstration passes on the unchanged tree and fails on the changed one.  Then the property's check is
run on the changed copy (VC_REPO) and the outcome is noted in meta.json."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0')
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']


def sh(cmd, cwd, t=900, env=ENV):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)
        return p.returncode, p.stdout+p.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def tests(d):
    x = d+'/.junit.xml'
    sh(f'{PY} -m pytest -q -p no:cacheprovider --randomly-seed=1 --randomly-dont-reorganize -n 2 --timeout=300 -o junit_family=xunit2 --junitxml={x} newt', d, 1500)
    ok = set()
    for c in ET.parse(x).getroot().iter('testcase'):
        if not any(k.tag in ('failure', 'error', 'skipped') for k in c):
            ok.add(c.get('classname')+'::'+c.get('name'))
    return [s for s in STABLE if s.startswith('newt.') and s not in ok]


def one(p, runtests=True):
    d = tempfile.mkdtemp(prefix='plant-')+'/repo'
    out = []
    try:
        shutil.copytree('/repo', d, symlinks=True)
        for e in p['edits']:
            f, old, new = e[:3]
            s = open(d+'/'+f).read()
            n = s.count(old)
            k = e[3] if len(e) > 3 else 0
            if n == 0 or (n > 1 and len(e) < 4):
                return p['id'], False, f'{f}: {n} matches of {old!r}'
            i = -1
            for _ in range(k+1):
                i = s.index(old, i+1)
            s = s[:i]+new+s[i+len(old):]
            open(d+'/'+f, 'w').write(s)
        rc, diff = sh('git diff', d)
        dst = f"{HERE}/seeded/{p['id']}"
        os.makedirs(dst, exist_ok=True)
        open(dst+'/patch.diff', 'w').write(diff)
        if 'demo' in p:
            open(dst+'/demo.py', 'w').write('import os, sys\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\nimport matplotlib\nmatplotlib.use("Agg")\nimport numpy as np\n'+p['demo'])
            open(dst+'/demo.sh', 'w').write('#!/bin/bash\nexport MPLBACKEND=Agg MPLCONFIGDIR="${TMPDIR:-/tmp}/demo-mpl"\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        else:
            open(dst+'/demo.sh', 'w').write(p['demo_sh'])
        os.chmod(dst+'/demo.sh', 0o755)
        a = sh(f'bash {dst}/demo.sh', '/repo', 300)
        b = sh(f'bash {dst}/demo.sh', d, 300)
        if a[0] != 0 or b[0] == 0:
            shutil.rmtree(dst)
            return p['id'], False, f'demo: clean {a}, changed {b}'
        if runtests:
            bad = tests(d)
            if bad:
                shutil.rmtree(dst)
                return p['id'], False, f'tests fail: {bad}'
        ck = []
        for pid in [p['property']]+p.get('also', []):
            rc, o = sh(f'./check {pid}', HERE, 1500, dict(ENV, VC_REPO=d, VC_JOBS='4', VC_EVIDENCE=d+'/ev'))
            v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
            u = [l.split()[1] for l in o.splitlines() if l.startswith(('  FAILED', '  UNDISCHARGED'))]
            ck.append((pid, rc, v, sorted(set(u)), o[-300:] if rc not in (0, 1) else ''))
        meta = dict(property=p['property'], needs=p['needs'], what_it_breaks=p['breaks'],
                    caught_by='; '.join(f"{c[0]} units {', '.join(c[3])}" + (' (no-failing-input-found)' if 'no-failing' in ''.join(c[2]) else '')
                                        for c in ck if c[1] == 1) or 'missed')
        json.dump(meta, open(dst+'/meta.json', 'w'), indent=1)
        return p['id'], True, str(ck)
    finally:
        shutil.rmtree(os.path.dirname(d), ignore_errors=True)


if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    sel = [p for p in ns['PLANTS'] if len(sys.argv) < 3 or p['id'] in sys.argv[2:]]
    with cf.ThreadPoolExecutor(2) as ex:
        for r in ex.map(one, sel):
            print(*r, flush=True)
