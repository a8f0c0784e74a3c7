"""Obligations, units and the driver's data types.

A property is a list of units.  A unit puts one or more functions of /repo
under contract:

  proofs   list of (label, thunk).  thunk(ob) generates the obligations from
           the current source and discharges them (ob.check / ob.zero ...).
           The first one whose obligations are all discharged decides the
           unit.  label 'all' means no bound; 'bounded: ...' states a bound.
  runtime  generator function of (rng, n, hints) yielding Case objects: the
           same contract evaluated on the real code under CPython.  It is the
           replay of counterexamples and the stand-in where an obligation is
           out of the verifier's reach; never counted as proved.
"""
import os
import sys
import time
import traceback

VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path:
    sys.path.append(VT)

REPO = os.environ.get('VC_REPO', '/repo')


class Case:
    def __init__(self, key, inputs, ok, detail=''):
        self.key = key          # identifies call site / input class
        self.inputs = inputs
        self.ok = bool(ok)
        self.detail = detail


class Unit:
    def __init__(self, name, targets, proofs=(), runtime=None, budget=150, n=12,
                 clauses='', thorough=()):
        self.name = name
        self.targets = list(targets)
        self.proofs = list(proofs)
        self.thorough = list(thorough)
        self.runtime = runtime
        self.budget = budget
        self.n = n
        self.clauses = clauses


class Undischarged(Exception):
    pass


class Obs:
    """collects the obligations of one proof attempt"""

    def __init__(self):
        self.total = 0
        self.done = 0
        self.labels = {}
        self.failed = []
        self.covers = 0

    def record(self, label, ok, info=''):
        self.total += 1
        a = self.labels.setdefault(label, [0, 0])
        a[0] += 1
        if ok:
            self.done += 1
            a[1] += 1
        else:
            self.failed.append((label, str(info)[:600]))
            self.hurry()
        return ok

    def hurry(self):
        pass


class Prover(Obs):
    """obligations over the symbolic engine"""

    def hurry(self):
        """the proof has failed: a little time for further failing paths"""
        from . import ctx
        if ctx.DEADLINE[0] is not None:
            ctx.DEADLINE[0] = min(ctx.DEADLINE[0], time.time()+60)

    def __init__(self, deadline=None):
        super().__init__()
        self.deadline = deadline
        self.models = []

    # every path of `thunk` must be fine; thunk itself records obligations
    def paths(self, label, thunk, pre=(), want=None):
        """explore thunk under the preconditions.  thunk returns True/False or
        a list of (sublabel, bool).  want: expected exception type"""
        from .ctx import CTX

        def run():
            for c in pre:
                CTX.assume(c)
            return thunk()
        res = CTX.explore(run)
        n = 0
        for pc, r, syms in res:
            CTX_infeasible = _infeasible(pc)
            if CTX_infeasible:
                continue
            n += 1
            if r[0] == 'raise':
                ok = want is not None and isinstance(r[1], want)
                self.record(label, ok, f'{pc}: raises {r[1]!r}')
                if not ok:
                    self.models.append(list(pc))
                continue
            if want is not None:
                self.record(label, False, f'{pc}: returns instead of raising')
                self.models.append(list(pc))
                continue
            v = r[1]
            if isinstance(v, bool):
                v = [('', v)]
            for sub, ok in v:
                self.record(label+(':' + sub if sub else ''), ok,
                            f'{pc}')
                if not ok:
                    self.models.append(list(pc))
        # reachability: the precondition admits at least one path
        self.record(label+':reachable', n > 0, 'no feasible path')
        return n


def _infeasible(pc):
    from . import ctx
    return ctx.check_sat(pc) == 'unsat'


def close(got, want, scale=None, tol=1e-8):
    """numeric agreement relative to the size of the quantity"""
    import numpy as np
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        return False, f'shape {got.shape} != {want.shape}'
    if got.size == 0:
        return True, ''
    if not np.all(np.isfinite(got)):
        return False, 'non-finite result'
    d = np.abs(got-want)
    s = np.max(np.abs(want)) if scale is None else np.asarray(scale)
    bad = d > tol*s + 1e-300
    if np.any(bad):
        i = np.unravel_index(np.argmax(np.where(bad, d/(s+1e-300), 0)), d.shape)
        return False, f'at {tuple(int(k) for k in i)}: got {got[i]!r}, contract {want[i]!r}'
    return True, ''


_mods = {}


def real(name):
    """the real module, as CPython runs it"""
    if name not in _mods:
        import importlib
        import warnings
        warnings.simplefilter('ignore')
        import matplotlib
        matplotlib.use('Agg')
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        m = importlib.import_module('newt.'+name)
        if not os.path.realpath(m.__file__).startswith(os.path.realpath(REPO)):
            raise RuntimeError('wrong newt: '+m.__file__)
        _mods[name] = m
    return _mods[name]


def attempt(f, *a, **k):
    """('ok', value) or ('raise', exception) of a real call, quietly"""
    import contextlib
    import io
    import numpy as np
    try:
        with contextlib.redirect_stdout(io.StringIO()), \
                np.errstate(all='ignore'):
            return 'ok', f(*a, **k)
    except Exception as e:     # noqa
        return 'raise', e


def eq_case(key, inputs, f, args, want, tol=1e-8, scale=None, kw=None):
    st, got = attempt(f, *args, **(kw or {}))
    if st == 'raise':
        return Case(key, inputs, False, f'raises {got!r}')
    try:
        ok, d = close(got, want, scale, tol)
    except Exception as e:
        ok, d = False, f'incomparable result {e!r}'
    return Case(key, inputs, ok, d)


def rej_case(key, inputs, f, args, exc=(ValueError,), kw=None):
    st, got = attempt(f, *args, **(kw or {}))
    if st == 'raise' and isinstance(got, exc):
        return Case(key, inputs, True)
    return Case(key, inputs, False, f'expected {exc}, got {st}: {got!r}'[:300])


def _alarm(*a):
    from . import ctx
    if ctx.DEADLINE[0] is not None and time.time() > ctx.DEADLINE[0]:
        raise ctx.OutOfTime()


def arm():
    """interrupt the proof when its time is up, whatever it is doing"""
    import signal
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, 3, 3)


def disarm():
    import signal
    signal.setitimer(signal.ITIMER_REAL, 0, 0)


def run_unit(unit, tier, seed, soft=None):
    """execute one unit; returns a JSON-able report"""
    import random
    from . import ctx, sarr, ex
    rep = dict(name=unit.name, targets=unit.targets, status='undischarged',
               level=None, obligations=0, discharged=0, bounded_obligations=0,
               labels={}, attempts=[], cases=0, keys=[], failures=[],
               samples=[], clauses=unit.clauses)
    t0 = time.time()
    hints = []
    proofs = list(unit.proofs)+(list(unit.thorough) if tier == 'thorough' else [])
    budget = unit.budget*(6 if tier == 'thorough' else 1)
    decided = False
    for label, thunk in proofs:
        if tier == 'quick' and not label.startswith('all') and any(
                a['label'].startswith('all') and not a['form'] for a in rep['attempts']):
            continue            # a demanded proof has failed
        ctx.DEADLINE[0] = time.time()+budget
        if soft is not None:
            # the whole check has to answer in time
            ctx.DEADLINE[0] = min(ctx.DEADLINE[0], max(soft, time.time()+5))
        s0, q0 = ctx.STATS['solver_s'], ctx.STATS['queries']
        o0 = sarr.STAT['obl']
        ob = Prover()
        t1 = time.time()
        err, form = '', False
        try:
            try:
                arm()
                thunk(ob)
            finally:
                disarm()
        except (Exception, ctx.OutOfTime) as e:
            form = isinstance(e, ex.Structure)
            err = f'{type(e).__name__}: {e}'[:300]
            if os.environ.get('VC_TRACE'):
                traceback.print_exc()
        finally:
            ctx.DEADLINE[0] = None
            del ctx.CTX.frames[:]
        side = sarr.STAT['obl']-o0
        ok = not err and ob.total > 0 and ob.done == ob.total
        a = dict(label=label, ok=ok, obligations=ob.total+side,
                 discharged=ob.done+side, error=err, form=form,
                 failed=ob.failed[:5], wall_s=round(time.time()-t1, 2),
                 solver_s=round(ctx.STATS['solver_s']-s0, 2),
                 queries=ctx.STATS['queries']-q0)
        rep['attempts'].append(a)
        for pc in ob.models[:8]:
            try:
                m = ctx.model_of(pc)
                if m:
                    hints.append({k: v for k, v in m.items() if isinstance(k, str)})
            except Exception:
                pass
        if ok and not decided:
            decided = True
            rep['status'] = 'proved' if label.startswith('all') else 'bounded'
            rep['level'] = label
            rep['labels'] = {k: v[1] for k, v in ob.labels.items()}
        if ok and label.startswith('all'):
            rep['obligations'] += a['obligations']
            rep['discharged'] += a['discharged']
        elif ok:
            rep['bounded_obligations'] += a['obligations']
        if ok and tier == 'quick':
            break
    # the strongest level this unit's contract demands of the verifier
    demand = 'all' if any(l.startswith('all') for l, _ in proofs) else \
        'bounded' if any(l.startswith('bounded') for l, _ in proofs) else None
    rep['demand'] = demand
    rep['accepted'] = demand is None or rep['status'] == 'proved' or \
        (demand == 'bounded' and decided) or \
        (decided and all(a['form'] for a in rep['attempts'] if a['label'].startswith('all')))
    if not rep['accepted']:
        a = next(x for x in rep['attempts'] if x['label'].startswith(demand))
        rep['obligations'] += max(a['obligations'], 1)
        rep['discharged'] += min(a['discharged'], rep['obligations']-1)
    if unit.runtime is not None:
        n = unit.n*(10 if tier == 'thorough' else 1)
        # look for the failing input, also where only a bounded proof was found
        deep = not rep['accepted'] or demand == 'all' and rep['status'] == 'bounded' or bool(os.environ.get('VC_DEEP'))
        if not rep['accepted'] or deep and not os.environ.get('VC_DEEP'):
            n *= 8
        rng = random.Random(seed*1000003+sum(map(ord, unit.name)))
        keys = {}
        limit = time.time()+(600 if tier == 'thorough' else 90 if soft is None or time.time() < soft else 30)
        try:
            from .contracts import common
            common.DEEP[0] = deep
            gen = unit.runtime(rng, n, hints)
            while True:
                common.next_case()
                c = next(gen, None)
                if c is None:
                    break
                rep['cases'] += 1
                keys[c.key] = keys.get(c.key, 0)+1
                if len(rep['samples']) < 2:
                    rep['samples'].append(repr(c.inputs)[:200])
                if not c.ok:
                    if sum(1 for f in rep['failures'] if f['key'] == c.key) < 3:
                        rep['failures'].append(dict(
                            key=c.key, inputs=repr(c.inputs)[:3000],
                            detail=str(c.detail)[:600]))
                if time.time() > limit:
                    break
        except Exception as e:
            rep['runtime_error'] = traceback.format_exc()[-1500:]
        rep['keys'] = sorted(keys)
    rep['wall_s'] = round(time.time()-t0, 2)
    rep['solver_s'] = round(ctx.STATS['solver_s'], 2)
    rep['queries'] = ctx.STATS['queries']
    rep['unknown'] = ctx.STATS['unknown']
    return rep
