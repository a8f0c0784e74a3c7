"""driver:  python -m vc.run C06   (VERIF_TIER, VERIF_SEED from the environment)"""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vc import core            # noqa

TRUST = [
    'vc: the symbolic executor / obligation generator for numpy code and its exact algebra (written here; cross-checked by running every contract against CPython on the same tree)',
    'z3 5.3 (path feasibility, index bounds, frame conditions)',
    'contracts assumed for numpy / scipy.special primitives (elementwise arithmetic, slicing, broadcasting, sum, dot, gammaln, comb, factorial, sph_harm, leggauss, toeplitz ...)',
    'IEEE-754 doubles are treated as mathematical reals, int64 as integers, float literals as the decimal they are written as',
    'CPython semantics of the interpreted subset (names, calls, for/if/while, augmented assignment, exceptions)',
]


def load(pid):
    return importlib.import_module('vc.contracts.'+pid.lower())


def _work(a):
    pid, i, tier, seed, q, soft = a
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
    sys.setrecursionlimit(6000)
    sys.stdout = open(os.devnull, 'w')
    try:
        u = load(pid).UNITS[i]
        rep = core.run_unit(u, tier, seed, soft)
    except BaseException as e:
        import traceback
        rep = dict(name=str(i), crash=traceback.format_exc()[-2000:])
    q.put((i, rep))


def run_units(pid, sel, tier, seed, limit):
    ctx = mp.get_context('fork')
    todo = list(sel)
    live = {}
    out = {}
    q = ctx.Queue()
    t0 = time.time()
    jobs = int(os.environ.get('VC_JOBS', '8'))
    while todo or live:
        while todo and len(live) < jobs:
            i = todo.pop(0)
            p = ctx.Process(target=_work, args=((pid, i, tier, seed, q, t0+620 if tier == 'quick' else None),))
            p.start()
            live[i] = (p, time.time())
        try:
            while True:
                i, rep = q.get(timeout=0.1)
                out[i] = rep
        except Exception:
            pass
        for i, (p, t) in list(live.items()):
            if i in out:
                p.join(5)
                if p.is_alive():
                    p.kill()
                del live[i]
            elif not p.is_alive():
                try:
                    while True:
                        j, rep = q.get(timeout=0.5)
                        out[j] = rep
                except Exception:
                    pass
                if i not in out:
                    out[i] = dict(name=str(i), crash=f'worker ended with {p.exitcode}')
                del live[i]
            elif time.time()-t0 > limit:
                p.kill()
                out[i] = dict(name=str(i), crash='out of time')
                del live[i]
    return out


def known(pid):
    out = []
    f = os.path.join(HERE, 'known-findings.jsonl')
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if not line:
                continue
            d = json.loads(line)
            if d.get('kind') == 'finding' and d['property'] == pid:
                out.append(d)
    return out


def main(argv=None):
    argv = argv or sys.argv[1:]
    pid = argv[0]
    only = argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = load(pid)
    units = mod.UNITS
    sel = [i for i, u in enumerate(units) if not only or u.name in only]
    sel.sort(key=lambda i: -units[i].budget)
    reps = run_units(pid, sel, tier, seed, 780 if tier == 'quick' else 3*3600)
    rl = [reps[i] for i in sorted(reps)]
    ev = os.environ.get('VC_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    kn = known(pid)
    violations, findings, crashed = [], [], []
    obl = dis = bnd = cases = 0
    solver = 0.0
    for i in sorted(reps):
        r = reps[i]
        if 'crash' in r:
            crashed.append((units[i].name, r['crash']))
            continue
        obl += r['obligations']
        dis += r['discharged']
        bnd += r['bounded_obligations']
        cases += r['cases']
        solver += r['solver_s']
        if r.get('runtime_error'):
            crashed.append((r['name'], r['runtime_error']))
        hit = set()
        r['found'] = 0
        for f in r['failures']:
            k = next((d for d in kn if d['unit'] == r['name'] and d['key'] == f['key']), None)
            if k is not None:
                if (k['unit'], k['key']) not in hit:
                    hit.add((k['unit'], k['key']))
                    findings.append(k)
                continue
            r['found'] += 1
            violations.append((r, f))
    undis = [r for r in reps.values() if 'crash' not in r and not r['accepted']
             and not r['found']]
    lines = []
    for k in findings:
        lines.append(f"KNOWN-FINDING: property={pid} {k['what']}")
    if violations:
        path = os.path.join(ev, f'replay-{pid}.json')
        with open(path, 'w') as fh:
            json.dump([dict(property=pid, unit=r['name'], targets=r['targets'],
                            contract=f['key'], inputs=f['inputs'],
                            detail=f['detail'],
                            verifier=r['attempts'],
                            how='inputs are the arguments of a call of the real code in /repo under CPython; detail compares its result with the contract; rerun: cd /verif && python -m vc.run %s %s' % (pid, r['name']))
                       for r, f in violations[:20]], fh, indent=1)
        lines.append(f'VIOLATION property={pid} replay={path}')
    elif undis or crashed:
        path = os.path.join(ev, f'replay-{pid}.json')
        with open(path, 'w') as fh:
            json.dump([dict(property=pid, unit=r['name'], targets=r['targets'],
                            failed_obligations=[f for a in r['attempts'] for f in a['failed']],
                            verifier=r['attempts'],
                            searched=f"{r['cases']} evaluations of the contract on the real code found no failing input",
                            how='the verifier did not discharge these obligations on the current source; rerun: cd /verif && python -m vc.run %s %s' % (pid, r['name']))
                       for r in undis] +
                      [dict(property=pid, unit=n, failed_obligations=['the contract of this unit'], verifier=c,
                            how='the check of this unit ended without an answer on the current source') for n, c in crashed], fh, indent=1)
        lines.append(f'VIOLATION property={pid} replay={path} no-failing-input-found')
    level = getattr(mod, 'LEVEL', 'proof')
    done = [r for r in rl if 'crash' not in r]
    cov = dict(
        obligations=obl, discharged=dis,
        checker_cmd=f'cd /verif && VERIF_TIER={tier} /opt/venv/bin/python -m vc.run {pid}',
        trusted_base=TRUST+list(getattr(mod, 'TRUSTED', [])),
        back_end='vc exact algebra + z3', solver_s=round(solver, 2),
        z3_queries=sum(r['queries'] for r in done),
        functions_under_contract=sorted({t for r in done for t in r['targets']}),
        units_proved=[r['name'] for r in done if r['status'] == 'proved'],
        units_bounded=[dict(unit=r['name'], bound=r['level'] or 'runtime contract only')
                       for r in done if r['status'] != 'proved'],
        bounded_obligations=bnd,
        runtime_contract_evaluations=cases,
        evaluations=max(cases, 1),
        units=[{k: r[k] for k in ('name', 'targets', 'status', 'level', 'obligations',
                                  'discharged', 'bounded_obligations', 'labels', 'attempts',
                                  'cases', 'keys', 'samples', 'wall_s', 'clauses')} for r in done],
        samples=[s for r in done for s in r['samples']][:6] or ['none'],
        explanation='obligations/discharged count only unbounded obligations; bounded ones are counted apart; runtime contract evaluations are neither')
    evd = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
               assumptions=TRUST[2:]+list(getattr(mod, 'ASSUMPTIONS', [])),
               wall_s=round(time.time()-t0, 2), violations=len(violations)+len(undis))
    if not only:
        with open(os.path.join(ev, f'{pid}.json'), 'w') as fh:
            json.dump(evd, fh, indent=1, default=str)
    for r in done:
        at = r['attempts']
        print(f"  {r['name']}: {r['status']} [{r['level'] or '-'}] "
              f"{r['discharged']}/{r['obligations']} (+{r['bounded_obligations']} bounded) "
              f"obligations, {r['cases']} runtime cases, {r['wall_s']} s"
              + (f" ; first attempt: {at[0]['error'] or at[0]['failed'][:1]}"[:400]
                 if at and not at[0]['ok'] else ''))
    for f in violations[:10]:
        print('  FAILED', f[0]['name'], f[1]['key'], f[1]['inputs'][:300], f[1]['detail'][:300])
    for r in undis:
        print('  UNDISCHARGED', r['name'], [(a['label'], a['error'] or a['failed'][:2]) for a in r['attempts']])
    for n, c in crashed:
        print('  ERROR in unit', n, ':', c)
    print(f'{pid}: {dis}/{obl} obligations discharged, {bnd} bounded, {cases} runtime '
          f'contract evaluations, {len(violations)} violations, {time.time()-t0:.1f} s')
    for ln in lines:
        print(ln)
    if violations or undis or crashed:
        return 1
    if obl+bnd+cases == 0:
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
