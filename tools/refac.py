#!/usr/bin/env python3
"""behaviour-preserving edits: refac.py FILE [id...]
FILE defines REFACS = [dict(id, props=[...], edits=[(file, old, new[, nth | 'all'])])].  Each is applied in a scratch copy of /repo,
the stable tests are run and the named checks must stay quiet."""
import os
import shutil
import sys
import tempfile
import concurrent.futures as cf
from plant import sh, tests, ENV, HERE


def one(p, runtests=True):
    d = tempfile.mkdtemp(prefix='refac-')+'/repo'
    try:
        shutil.copytree('/repo', d, symlinks=True)
        for e in p['edits']:
            f, old, new = e[:3]
            s = open(d+'/'+f).read()
            n = s.count(old)
            if n == 0 or (n > 1 and len(e) < 4):
                return p['id'], f'{f}: {n} matches of {old!r}'
            if len(e) > 3 and e[3] == 'all':
                s = s.replace(old, new)
            else:
                i = -1
                for _ in range((e[3] if len(e) > 3 else 0)+1):
                    i = s.index(old, i+1)
                s = s[:i]+new+s[i+len(old):]
            open(d+'/'+f, 'w').write(s)
        bad = tests(d) if runtests else []
        out = [f'TESTS FAIL {bad[:3]}'] if bad else []
        for pid in p['props']:
            rc, o = sh(f'./check {pid}', HERE, 1500, dict(ENV, VC_REPO=d, VC_JOBS='4', VC_EVIDENCE=d+'/ev'))
            if rc:
                out.append(f'{pid} rc={rc}: '+' | '.join(l[:230] for l in o.splitlines() if l.startswith(('VIOLATION', '  FAILED', '  UNDISCH', 'Trace'))) + (o[-300:] if rc != 1 else ''))
            else:
                b = [l for l in o.splitlines() if 'fallback' in l or 'Structure' in l]
                out.append(f'{pid} quiet' + (' '+str(b[:2]) if b else ''))
        return p['id'], out
    finally:
        shutil.rmtree(os.path.dirname(d), ignore_errors=True)


if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    sel = [p for p in ns['REFACS'] if len(sys.argv) < 3 or p['id'] in sys.argv[2:]]
    with cf.ThreadPoolExecutor(2) as ex:
        for r in ex.map(lambda p: one(p, not os.environ.get('NOTESTS')), sel):
            print(r[0], *(r[1] if isinstance(r[1], list) else [r[1]]), sep='\n   ', flush=True)
