from .. import ex as E, ctx as C, sums as S, funcs as F, sarr as A, load, shim, spec, core  # noqa
from .. import numspec as N          # noqa
from ..ctx import CTX, mk_cmp        # noqa
from ..ex import Ex, to_ex, Q        # noqa
from ..core import Unit, Case, real, attempt, eq_case, rej_case, close   # noqa
import numpy as np                   # noqa
import math                          # noqa


def pos(*names):
    return [E.sym(n, 'pos') for n in names]


def reals(*names):
    return [E.sym(n, 'real') for n in names]


def nat(*names):
    return [E.sym(n, 'nat') for n in names]


def lt(a, b):
    return mk_cmp('lt', to_ex(a)-to_ex(b))


def le(a, b):
    return mk_cmp('le', to_ex(a)-to_ex(b))


def eq(a, b):
    return mk_cmp('eq', to_ex(a)-to_ex(b))


def ne(a, b):
    return C.c_not(eq(a, b))


def src(mod, contracts=None, **kw):
    return load.Loader(contracts or {}, **kw).load(mod)


# ------------------------------------------------------------ symbolic arrays
def arr_in(name, *shape, kind='f'):
    """an arbitrary input array: element [i, j] is the unconstrained value
    name[i, j]"""
    def base(q):
        return E.atom_ex(E.atom('el', name, tuple(E.to_exp(to_ex(i)) for i in q),
                                kind == 'c', False), 1)
    return A.SArr(shape, base, kind, name=name)


def untouched(*arrs):
    """frame condition: no store reached the input"""
    return all(not a.recs and a.cells is None for a in arrs)


def fresh_result(r, *arrs):
    """the result is no view of an input"""
    return all(r.root() is not a for a in arrs)


def same_array(r, shape, entry, zero=S.prove_zero):
    """[(obligation, discharged)]: shape, and every entry equals entry(q)"""
    out = []
    sh = [to_ex(s) for s in r.shape]
    ok = len(sh) == len(shape) and all(S.prove_zero(a-to_ex(b)) for a, b in zip(sh, shape))
    out.append(('shape', bool(ok)))
    if not ok:
        return out
    import itertools
    ns = [A.con(to_ex(n)) for n in shape]
    for q in itertools.product(*[range(n) if isinstance(n, int) and n <= 8 else [None] for n in ns]):
        def f():
            ix = []
            for i, n in zip(q, ns):
                if i is None:
                    # an arbitrary index, known to this obligation only
                    v = CTX.fresh('q', 'nat')
                    CTX.assume(lt(v, n))
                    ix.append(v)
                else:
                    ix.append(Ex.const(i))
            return zero(to_ex(r.read(list(ix)))-to_ex(entry(*ix)))
        nm = 'entry'+','.join('*' if i is None else str(i) for i in q)
        for pc, rr, _ in CTX.explore(f):
            good = rr[0] == 'ok' and bool(rr[1])
            if not good and C.check_sat(CTX.pcs()+pc) == 'unsat':
                continue
            out.append((nm, good))
    return out


def ssum(n, f, name='s'):
    return A.sum_over(n, f, name)


# ----------------------------------------------------------- numeric helpers
def rvec(rng, s=3.):
    return [rng.uniform(-s, s) for _ in range(3)]


def cloud(rng, n, s=3., off=(0, 0, 0)):
    """n point masses of either sign"""
    return np.array([[rng.choice([1, 1, -1])*rng.uniform(.1, 3)]
                     + [c+o for c, o in zip(rvec(rng, s), off)] for _ in range(n)]).reshape(n, 4)


def both(key, inputs, st_got, want, scale=None, tol=1e-9):
    """compare an attempt() of a tuple-valued call with a tuple"""
    st, got = st_got
    if st == 'raise':
        return Case(key, inputs, False, f'raises {got!r}')
    for i, (g, w) in enumerate(zip(got, want)):
        try:
            ok, d = close(g, w, None if scale is None else scale[i], tol)
        except Exception as e:
            ok, d = False, f'incomparable {e!r}'
        if not ok:
            return Case(key, inputs, False, f'part {i}: {d}')
    return Case(key, inputs, len(got) == len(want))


# ------------------------------------------------- choosing inputs at runtime
DEEP = [False]          # looking for the failing input of a failed obligation
CASE = dict(scale=1., same=False)
_deep = __import__('random').Random(7)


def next_case():
    """the deeper search also tries other units of length and equal lengths"""
    CASE['scale'] = 10**_deep.uniform(-9, 9) if DEEP[0] and _deep.random() < .4 else 1.
    CASE['same'] = DEEP[0] and _deep.random() < .25


def dim(g, lo, hi, eq=True):
    """a length, or several of one case with dim() each"""
    if CASE['same'] and eq:
        v = [x for x in (-2., -1., -.5, .25, .5, 1., 2., 3.) if lo <= x <= hi]
        if v:
            return g.choice(v)*CASE['scale']
    return g.uniform(lo, hi)*CASE['scale']


def degree(g, usual, top=16):
    """a maximum degree; higher ones too in the deeper search"""
    if DEEP[0] and g.random() < .2:
        return min(top, g.choice([7, 9, 10, 11, 12, 13, 14, 16]))
    return usual
