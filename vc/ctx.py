"""Path exploration and decision procedure.

`explore(thunk)` runs `thunk` once per feasible path: every branch on a symbolic
condition asks `decide`, which answers from the path condition (syntactically or
with z3) or forks; forks are replayed from the start (deterministic thunks).
A condition that mentions no symbol introduced inside the current exploration is
decided in the enclosing one, so a branch is always taken at the outermost level
that can take it.
"""
import math
import os
import time
from fractions import Fraction as Q
import z3

from . import ex as E
from .ex import Ex, LF, ATOMS, DECL, Unsupported, to_ex, atom, lf, is_num, elin, econst

STATS = {'queries': 0, 'solver_s': 0.0, 'paths': 0, 'unknown': 0}
TIMEOUT_MS = 20000
RLIMIT = 12000000
MAX_PATHS = 600
DEADLINE = [None]


class OutOfTime(BaseException):
    pass


class Cond:
    """condition: ('lt'|'le'|'eq', Ex) compares with 0; 'not','and','or','op'"""
    __slots__ = ('k', 'a', '_h')

    def __init__(self, k, *a):
        self.k = k
        self.a = a
        self._h = None

    def key(self):
        if self._h is None:
            self._h = (self.k,)+tuple(
                v.key() if isinstance(v, (Cond, Ex)) else v for v in self.a)
        return self._h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        if isinstance(o, Cond):
            return self.key() == o.key()
        return NotImplemented

    def __bool__(self):
        return CTX.decide(self)

    def __and__(self, o):
        return c_and(self, as_cond(o))
    __rand__ = __and__

    def __or__(self, o):
        return c_or(self, as_cond(o))
    __ror__ = __or__

    def __invert__(self):
        return c_not(self)

    def __mul__(self, o):
        return cond_to_int(self)*o
    __rmul__ = __mul__

    def __imul__(self, o):
        return cond_to_int(self)*o

    def __add__(self, o):
        return cond_to_int(self)+o
    __radd__ = __add__

    def __sub__(self, o):
        return cond_to_int(self)-o

    def __rsub__(self, o):
        return o-cond_to_int(self)

    def __neg__(self):
        return -cond_to_int(self)

    def any(self):
        return self

    def all(self):
        return self

    def to_ex(self):
        return to_ex(int(bool(self)))

    def __repr__(self):
        if self.k in ('lt', 'le', 'eq'):
            return f'{E.show(self.a[0])} {dict(lt="<", le="<=", eq="==")[self.k]} 0'
        if self.k == 'not':
            return f'!({self.a[0]})'
        return f'{self.k}{self.a}'


def cond_to_int(c):
    return 1 if bool(c) else 0


TRUE, FALSE = Cond('true'), Cond('false')


def as_cond(v):
    if isinstance(v, Cond):
        return v
    if isinstance(v, Ex):
        return v != 0
    return TRUE if v else FALSE


def c_not(c):
    if c.k == 'true':
        return FALSE
    if c.k == 'false':
        return TRUE
    if c.k == 'not':
        return c.a[0]
    if c.k == 'lt':
        return mk_cmp('le', -c.a[0])
    if c.k == 'le':
        return mk_cmp('lt', -c.a[0])
    return Cond('not', c)


def c_and(*cs):
    out = []
    for c in cs:
        if c.k == 'false':
            return FALSE
        if c.k == 'true':
            continue
        out.extend(c.a if c.k == 'and' else [c])
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else Cond('and', *out)


def c_or(*cs):
    out = []
    for c in cs:
        if c.k == 'true':
            return TRUE
        if c.k == 'false':
            continue
        out.extend(c.a if c.k == 'or' else [c])
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else Cond('or', *out)


def mk_cmp(k, d):
    if d.is_const():
        v = d.cval()
        r = {'lt': v < 0, 'le': v <= 0, 'eq': v == 0}[k]
        return TRUE if r else FALSE
    if k == 'eq' and len(d.d) == 1:
        (m, _), = d.d.items()           # a product with positive factors
        rest = tuple(f for f in m if not E.positive_atom(f[0]))
        if len(rest) == 1 and rest[0][1] == 1 and len(rest) < len(m) and all(ATOMS[a][0] == 's' for a, _ in m):
            d = Ex({rest: Q(1)})
    if k == 'lt' and is_int_ex(d):
        k, d = 'le', d+1
    if k in ('eq', 'le') and is_int_ex(d):
        # coefficients without a common factor
        g = 0
        for m, c in d.d.items():
            if m:
                g = math.gcd(g, c.numerator)
        if g > 1:
            c0 = d.d.get((), Q(0))
            if k == 'eq' and c0.numerator % g:
                return FALSE
            d = Ex({**{m: c/g for m, c in d.d.items() if m}, **({(): Q(-(-c0.numerator//g))} if -(-c0.numerator//g) else {})})
    if k == 'eq':
        # canonical sign
        lead = max(d.d, key=E._order)
        if d.d[lead] < 0:
            d = -d
    return Cond(k, d)


def is_int_ex(d):
    for m, c in d.d.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            k = ATOMS[a]
            if not (k[0] == 's' and DECL[k[1]]['int'] and is_num(e)
                    and Q(e).denominator == 1 and e > 0):
                return False
    return True


def conds_of(c):
    return list(c.a) if c.k == 'and' else ([] if c.k == 'true' else [c])


def cond_atoms(c):
    out = set()
    for v in c.a:
        if isinstance(v, Ex):
            out |= E.deep_atoms(v)
        elif isinstance(v, Cond):
            out |= cond_atoms(v)
    # definitions of quotient symbols
    more = set()
    for a in out:
        d = QDEF.get(a)
        if d is not None:
            more |= E.deep_atoms(d[0])
    return out | more


def cond_subs(c, mp):
    if c.k in ('lt', 'le', 'eq'):
        x = E.subs(c.a[0], mp)
        return c if x is c.a[0] else mk_cmp(c.k, x)
    if c.k == 'not':
        return c_not(cond_subs(c.a[0], mp))
    if c.k == 'and':
        return c_and(*[cond_subs(v, mp) for v in c.a])
    if c.k == 'or':
        return c_or(*[cond_subs(v, mp) for v in c.a])
    if c.k == 'op':
        return mk_op(c.a[0], *[E.subs(v, mp) if isinstance(v, Ex) else v
                               for v in c.a[1:]])
    return c


def mk_op(name, *args):
    if name == 'divides':
        d, m = args
        if not m.d or m.same(d):
            return TRUE
        if d.is_const() and m.is_const():
            return TRUE if m.cval() % d.cval() == 0 else FALSE
    return Cond('op', name, *args)


# ------------------------------------------------------------ quotient symbols
QDEF = {}     # symbol atom id -> (Ex x, int d):  d*q <= x < d*q + d
_QKEY = {}


def floordiv(x, d):
    if isinstance(x, Ex) and x.is_const():
        x = x.cval()
    if isinstance(d, Ex) and d.is_const():
        d = d.cval()
    if isinstance(d, Q) and d.denominator == 1:
        d = int(d)
    if not isinstance(x, Ex) and not isinstance(d, Ex):
        r = Q(x)//Q(d) if not isinstance(x, float) else x//d
        return to_ex(r)
    x = to_ex(x)
    if isinstance(d, Ex) or not isinstance(d, int) or d <= 0:
        return _floor_sym(x, to_ex(d))
    e = E.to_exp(x)
    if is_num(e):
        return to_ex(Q(e)//d)
    if any(Q(v).denominator != 1 for _, v in e.t) or Q(e.c).denominator != 1:
        raise Unsupported('floor of a non-integer form')
    whole, rest = {}, {}
    for a, v in e.t:
        whole[a] = v//d
        if v % d:
            rest[a] = v % d
    wc, rc = e.c//d, e.c % d
    W = E.lf_to_ex(lf(whole, wc))
    if not rest:
        return W + (rc//d)
    r = E.lf_to_ex(lf(rest, rc))
    return W+_quot(r, d)


def _quot(r, d):
    k = (r.key(), d)
    if k not in _QKEY:
        nm = f'q{len(_QKEY)}'
        s = E.sym(nm, 'int')
        a = atom('s', nm)
        QDEF[a] = (r, d)
        E._deep_cache.pop(a, None)
        _QKEY[k] = s
    return _QKEY[k]


def _floor_sym(x, d):
    return E.fn('floordiv', x, d)


def mod(x, d):
    from . import funcs
    r = funcs.mod_hook(x, d)
    if r is not None:
        return r
    return to_ex(x)-to_ex(d)*floordiv(x, d)


def ext_map(mp):
    """extend a substitution to the quotient symbols defined from its keys"""
    out = dict(mp)
    for q, (x, d) in list(QDEF.items()):
        if q not in out and not E.deep_atoms(x).isdisjoint(out):
            out[q] = floordiv(E.raw_subs(x, out), d)
    return out


# ---------------------------------------------------------------- z3 encoding
class Enc:
    def __init__(self):
        self.vars = {}
        self.facts = []
        self.todo_q = set()

    def var(self, key, sort):
        v = self.vars.get(key)
        if v is None:
            nm = f'v{len(self.vars)}_{str(key)[:40]}'
            v = z3.Int(nm) if sort == 'int' else z3.Real(nm)
            self.vars[key] = v
            return v, True
        return v, False

    def symvar(self, a):
        nm = ATOMS[a][1]
        d = DECL[nm]
        v, new = self.var(a, 'int' if d['int'] else 'real')
        if new:
            if d['pos']:
                self.facts.append(v > 0)
            elif d['nonneg']:
                self.facts.append(v >= 0)
            if a in QDEF:
                x, dd = QDEF[a]
                t = self.real(x)
                self.facts.append(z3.And(dd*v <= t, t <= dd*v+dd-1))
        return v

    def atom_pow(self, a, e):
        """z3 (re, im) of atom^e"""
        k = ATOMS[a]
        if k[0] == 'I':
            if isinstance(e, LF):
                return self.opaque(a, e, cplx=True)
            return [(1, 0), (0, 1), (-1, 0), (0, -1)][int(e) % 4]
        if k[0] in ('u',):
            if isinstance(e, LF) or (2*Q(e)).denominator != 1:
                return self.opaque(a, e, cplx=True)
            c, new = self.var(('cos', a), 'real')
            s, _ = self.var(('sin', a), 'real')
            if new:
                self.facts.append(c*c+s*s == 1)
            n = int(2*Q(e))
            re, im = z3.RealVal(1), z3.RealVal(0)
            ss = s if n > 0 else -s
            for _ in range(abs(n)):
                re, im = re*c-im*ss, re*ss+im*c
            return re, im
        if k[0] == 'upi':
            return self.opaque(a, e, cplx=True)
        if k[0] == 'el' and k[3] or k[0] in ('hv', 'fnc', 'sum') or \
                (k[0] == 's' and not DECL[k[1]]['real']):
            return self.opaque(a, e, cplx=True)
        if isinstance(e, LF):
            v, _ = self.opaque(a, e, cplx=False)
            if E.positive_atom(a):
                self.facts.append(v >= 0)
            return v, 0
        e = Q(e)
        if k[0] == 'p':
            b = z3.RealVal(k[1])
        elif k[0] == 's':
            b = self.symvar(a)
        elif k[0] == 'pi':
            b, new = self.var(a, 'real')
            if new:
                self.facts.append(z3.And(b > z3.Q(314159265, 100000000),
                                         b < z3.Q(314159266, 100000000)))
        elif k[0] == 'P':
            re, im = self.cplx(E.EX_OF[a])
            if not _is0(im):
                return self.opaque(a, e, cplx=True)
            b = re
        else:
            b, new = self.var(a, 'real')
            if new:
                if E.positive_atom(a):
                    self.facts.append(b >= 0)
                self.fn_facts(a, b)
        if e.denominator == 1:
            n = int(e)
            if n > 0:
                return _prod([b]*n), 0
            v, new = self.var(('inv', a), 'real')
            if new:
                bb = b
                self.facts.append(z3.Implies(bb != 0, v*bb == 1))
            return _prod([v]*(-n)), 0
        # root
        n = e.denominator
        v, new = self.var(('root', a, n), 'real')
        if new:
            self.facts.append(v >= 0)
            self.facts.append(z3.Implies(b >= 0, _prod([v]*n) == b))
        p = e.numerator
        if p > 0:
            return _prod([v]*p), 0
        w, new = self.var(('rootinv', a, n), 'real')
        if new:
            self.facts.append(z3.Implies(v != 0, w*v == 1))
            self.facts.append(w >= 0)
        return _prod([w]*(-p)), 0

    def fn_facts(self, a, v):
        k = ATOMS[a]
        if k[0] != 'fn':
            return
        pi, new = self.var(E.A_PI, 'real')
        if new:
            self.facts.append(z3.And(pi > z3.Q(314159265, 100000000),
                                     pi < z3.Q(314159266, 100000000)))
        if k[1] == 'atan':
            self.facts.append(z3.And(v > -pi/2, v < pi/2))
        elif k[1] in ('atan2',):
            self.facts.append(z3.And(v >= -pi, v <= pi))
        elif k[1] in ('acos',):
            self.facts.append(z3.And(v >= 0, v <= pi))
        elif k[1] in ('mod2pi',):
            self.facts.append(z3.And(v >= 0, v < 2*pi))
            sv = self.real(E.sin(E.EX_OF[a][0]))    # 0 <= v <= pi: sin >= 0
            self.facts.append(z3.And(
                z3.Implies(z3.And(v > 0, v < pi), sv > 0), z3.Implies(v > pi, sv < 0),
                z3.Implies(z3.Or(v == 0, v == pi), sv == 0)))
        elif k[1] == 'abs':
            x = self.real(E.EX_OF[a][0])
            self.facts.append(z3.Or(v == x, v == -x))

    def opaque(self, a, e, cplx):
        v, _ = self.var(('op', a, e), 'real')
        if not cplx:
            return v, 0
        w, _ = self.var(('opi', a, e), 'real')
        return v, w

    def cplx(self, x):
        re, im = [], []
        for m, c in x.d.items():
            a, b = z3.RealVal(1), None
            cr = z3.Q(c.numerator, c.denominator)
            ints = []
            tr, ti = None, 0
            fac = []
            for at, e in m:
                pr, pi_ = self.atom_pow(at, e)
                if _is0(pi_):
                    fac.append(pr)
                else:
                    if tr is None:
                        tr, ti = pr, pi_
                    else:
                        tr, ti = tr*pr-ti*pi_, tr*pi_+ti*pr
            f = None
            for v in fac:
                if isinstance(v, int):
                    v = z3.RealVal(v)
                if z3.is_int(v):
                    v = z3.ToReal(v)
                f = v if f is None else f*v
            f = cr if f is None else (cr*f if c != 1 else f)
            if tr is None:
                re.append(f)
            else:
                if not _is0(tr):
                    re.append(f*tr)
                if not _is0(ti):
                    im.append(f*ti)
        return _sum(re), _sum(im)

    def real(self, x):
        # integer forms stay in the integers
        if is_int_ex(x):
            t = []
            for m, c in x.d.items():
                f = [self.symvar(a) for a, e in m for _ in range(int(e))]
                p = _prod(f) if f else None
                cc = int(c)
                t.append(z3.IntVal(cc) if p is None else (p if cc == 1 else cc*p))
            return _sum(t) if t else z3.IntVal(0)
        return self.cplx(x)[0]

    def cond(self, c):
        if c.k == 'true':
            return z3.BoolVal(True)
        if c.k == 'false':
            return z3.BoolVal(False)
        if c.k in ('lt', 'le', 'eq'):
            if is_int_ex(c.a[0]):
                t = self.real(c.a[0])
                return {'lt': t < 0, 'le': t <= 0, 'eq': t == 0}[c.k]
            re, im = self.cplx(c.a[0])
            if c.k == 'eq' and not _is0(im):
                return z3.And(re == 0, im == 0)
            return {'lt': re < 0, 'le': re <= 0, 'eq': re == 0}[c.k]
        if c.k == 'not':
            return z3.Not(self.cond(c.a[0]))
        if c.k == 'and':
            return z3.And([self.cond(v) for v in c.a])
        if c.k == 'or':
            return z3.Or([self.cond(v) for v in c.a])
        v, _ = self.vars.get(('b', c.key())), None
        if v is None:
            v = z3.Bool(f'b{len(self.vars)}')
            self.vars[('b', c.key())] = v
        return v


def _is0(v):
    if isinstance(v, int):
        return v == 0
    return z3.is_rational_value(v) and v.as_fraction() == 0


def _prod(xs):
    r = xs[0]
    for v in xs[1:]:
        r = r*v
    return r


def _sum(xs):
    if not xs:
        return z3.RealVal(0)
    if len(xs) == 1:
        return xs[0]
    return z3.Sum(xs)


_cache = {}


def check_sat(conds):
    """'sat' / 'unsat' / 'unknown' of a conjunction"""
    key = frozenset(c.key() for c in conds)
    r = _cache.get(key)
    if r is not None:
        return r
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        raise OutOfTime()
    enc = Enc()
    fs = [enc.cond(c) for c in conds]
    s = z3.Solver()
    s.set('timeout', TIMEOUT_MS)
    s.set('rlimit', RLIMIT)
    for f in enc.facts:
        s.add(f)
    for f in fs:
        s.add(f)
    t = time.time()
    try:
        r = str(s.check())
    except z3.Z3Exception:
        r = 'unknown'
    STATS['queries'] += 1
    STATS['solver_s'] += time.time()-t
    if r == 'unknown':
        STATS['unknown'] += 1
    _cache[key] = r
    return r


def model_of(conds, extra=()):
    """values of the symbols in a model of the conjunction (or None)"""
    enc = Enc()
    fs = [enc.cond(c) for c in conds]
    s = z3.Solver()
    s.set('timeout', TIMEOUT_MS)
    s.set('rlimit', RLIMIT)
    for f in enc.facts+fs+[g(enc) for g in extra]:
        s.add(f)
    if s.check() != z3.sat:
        return None
    m = s.model()
    out = {}
    for k, v in enc.vars.items():
        if isinstance(k, int) and ATOMS[k][0] == 's':
            val = m.eval(v, model_completion=True)
            try:
                if z3.is_int_value(val):
                    out[ATOMS[k][1]] = val.as_long()
                elif z3.is_rational_value(val):
                    out[ATOMS[k][1]] = float(val.as_fraction())
                else:
                    out[ATOMS[k][1]] = float(val.approx(20).as_fraction())
            except Exception:
                pass
        if isinstance(k, tuple) and k[0] in ('cos', 'sin'):
            val = m.eval(v, model_completion=True)
            try:
                f = float(val.as_fraction()) if z3.is_rational_value(val) else \
                    float(val.approx(20).as_fraction())
                out[(k[0], ATOMS[k[1]][1])] = f
            except Exception:
                pass
    return out


# ------------------------------------------------------------------ the context
class Frame:
    def __init__(self, parent):
        self.trace = []
        self.pos = 0
        self.pc = []
        self.keys = set()
        self.pending = []
        self.syms = set()
        self.parent = parent


class Context:
    def __init__(self):
        self.frames = []
        self.cnt = 0
        self.obligations = []

    # ---- path condition
    def pcs(self):
        out = []
        for f in self.frames:
            out.extend(f.pc)
        return out

    def known(self, c):
        k = c.key()
        nk = c_not(c).key()
        for f in self.frames:
            if k in f.keys:
                return True
            if nk in f.keys:
                return False
        return None

    def assume(self, c, frame=None):
        c = as_cond(c)
        f = frame or self.frames[-1]
        for p in conds_of(c):
            k = p.key()
            if k not in f.keys:
                f.pc.append(p)
                f.keys.add(k)

    def fresh(self, name, kind='int'):
        self.cnt += 1
        s = E.sym(f'{name}#{self.cnt}:{kind}', kind)
        if self.frames:
            self.frames[-1].syms.add(atom('s', f'{name}#{self.cnt}:{kind}'))
        return s

    def _owner(self, c):
        ats = cond_atoms(c)
        for f in reversed(self.frames):
            if f.syms & ats or f.parent is None:
                return f
        return self.frames[0]

    def implied(self, c):
        """True only if the path condition entails c"""
        c = as_cond(c)
        if c.k == 'true':
            return True
        if c.k == 'false':
            return self.infeasible()
        r = self.known(c)
        if r is not None:
            return r
        if c.k == 'and':
            return all(self.implied(v) for v in c.a)
        return check_sat(self.relevant(c)+[c_not(c)]) == 'unsat'

    def infeasible(self):
        pcs = self.pcs()
        if check_sat(pcs) == 'unsat':
            return True
        ops = [c for c in pcs if c.k == 'op' or c.k == 'not' and c.a[0].k == 'op']
        mp = self.equations() if ops else None
        return bool(mp) and any(cond_subs(c, mp).k == 'false' for c in ops)

    def relevant(self, c):
        """conditions of the path sharing symbols (transitively) with c"""
        pcs = self.pcs()
        ats = set(cond_atoms(c))
        left = [(p, cond_atoms(p)) for p in pcs]
        out = []
        changed = True
        while changed:
            changed = False
            rest = []
            for p, a in left:
                if a & ats:
                    out.append(p)
                    ats |= a
                    changed = True
                else:
                    rest.append((p, a))
            left = rest
        return out

    def decide(self, c):
        c = as_cond(c)
        if c.k == 'true':
            return True
        if c.k == 'false':
            return False
        if c.k == 'not':
            return not self.decide(c.a[0])
        if c.k == 'and':
            for v in c.a:
                if not self.decide(v):
                    return False
            return True
        if c.k == 'or':
            for v in c.a:
                if self.decide(v):
                    return True
            return False
        r = self.known(c)
        if r is not None:
            return r
        if c.k == 'eq' and len(c.a[0].d) == 1:
            y = self._factor(c.a[0], self.pcs())
            if y is not c.a[0]:
                return self.decide(mk_cmp('eq', y))
        if c.k in ('eq', 'le', 'lt'):
            y = self.normal(c.a[0])
            if y is not c.a[0]:
                c2 = mk_cmp(c.k, y)
                if c2.k in ('true', 'false'):
                    return c2.k == 'true'
        if c.k == 'op':
            mp = self.equations()
            if mp:
                c2 = cond_subs(c, mp)
                if c2.k in ('true', 'false'):
                    return c2.k == 'true'
        if not self.frames:
            raise Unsupported('symbolic branch outside an exploration: '+repr(c))
        rel = self.relevant(c)
        if c.k != 'op':
            if check_sat(rel+[c_not(c)]) == 'unsat':
                return True
            if check_sat(rel+[c]) == 'unsat':
                return False
        if c.k == 'op' and c.a[0] == 'exists':
            # the same set under another description
            for p in self.pcs():
                q = p.a[0] if p.k == 'not' else p
                if q.k == 'op' and q.a[0] == 'exists' and \
                        check_sat([q.a[1], c_not(c.a[1])]) == 'unsat' and \
                        check_sat([c.a[1], c_not(q.a[1])]) == 'unsat' and \
                        E.is_zero(q.a[2]-c.a[2]):
                    return p.k != 'not'
        elif any(
                ATOMS[a][0] == 's' and ATOMS[a][1][0] == '@' for a in cond_atoms(c)):
            raise Unsupported('decision on a bound variable')
        f = self._owner(c)
        if f.pos < len(f.trace):
            v = f.trace[f.pos]
        else:
            v = True
            f.trace.append(True)
            f.pending.append(f.trace[:-1]+[False])
        f.pos += 1
        self.assume(c if v else c_not(c), f)
        return v

    # ---- equalities
    def equations(self):
        """substitution from the linear equalities of the path condition"""
        pcs = self.pcs()
        key = tuple(c.key() for c in pcs if c.k in ('eq', 'le'))
        if getattr(self, '_eqkey', None) == (len(QDEF), key):
            return self._eqmap
        mp = {}
        for _ in range(4):
            n = len(QDEF)
            mp = self._equations(pcs)
            if len(QDEF) == n:
                break
        self._eqkey, self._eqmap = (len(QDEF), key), mp
        return mp

    def _equations(self, pcs):
        eqs = [c.a[0] for c in pcs if c.k == 'eq']
        # x <= c and x >= c
        les = {c.a[0].key(): c.a[0] for c in pcs if c.k == 'le'}
        for v in list(les.values()):
            if (-v).key() in les:
                eqs.append(v)
        for v in list(les.values()):
            if len(v.d) <= 4 and is_int_ex(v) and all(
                    len(m) <= 2 for m in v.d) and check_sat(pcs+[mk_cmp('lt', v)]) == 'unsat':
                eqs.append(v)
        mp = {}
        for d in eqs:
            d = E.subs(d, mp) if mp else d
            s = _solve_one(self._factor(d, pcs))
            if s is None:
                continue
            a, r = s
            base = {k: E.raw_subs(v, {a: r}) for k, v in mp.items() if k not in QDEF}
            base[a] = r
            mp = ext_map(base)
        for _ in range(4):
            new = {k: E.raw_subs(v, mp) for k, v in mp.items()}
            same = all(new[k].same(mp[k]) for k in mp)
            mp = new
            if same:
                break
        mp = {k: v for k, v in mp.items() if not v.same(E.atom_ex(k, 1))}
        return mp

    def _factor(self, d, pcs):
        """a product that vanishes: its only factor that may vanish"""
        if len(d.d) != 1:
            return d
        (m, c), = d.d.items()
        if len(m) < 2 and c == 1:
            return d
        left = []
        for a, e in m:
            if not E.is_num(e):
                return d
            y = E.atom_ex(a, 1)
            if e < 0 or ATOMS[a][0] == 'pi':
                continue
            if mk_cmp('eq', y).k == 'false' or any(
                    c.k == 'lt' and (c.a[0].same(-y) or c.a[0].same(y)) for c in pcs):
                continue
            left.append(y)
        return left[0] if len(left) == 1 else d

    def normal(self, x):
        mp = self.equations()
        if not mp:
            return x
        y = E.subs(x, mp)
        return y

    # ---- exploration
    def explore(self, thunk, limit=None):
        """[(path condition list, outcome)], outcome=('ok',v)|('raise',exc)"""
        parent = self.frames[-1] if self.frames else None
        out = []
        todo = [[]]
        cnt0 = self.cnt
        top = cnt0
        n = 0
        while todo:
            tr = todo.pop()
            f = Frame(parent)
            f.trace = list(tr)
            self.frames.append(f)
            self.cnt = cnt0
            try:
                try:
                    r = ('ok', thunk())
                except Unsupported:
                    raise
                except (ValueError, IndexError, TypeError, KeyError,
                        AttributeError, NameError, ZeroDivisionError,
                        UnboundLocalError) as exc:
                    if isinstance(exc, (AttributeError, NameError, KeyError)) and _own(exc):
                        raise Unsupported(f'in the verifier: {exc!r}')
                    r = ('raise', exc)
            finally:
                self.frames.pop()
            top = max(top, self.cnt)
            todo.extend(f.pending)
            n += 1
            STATS['paths'] += 1
            if n > (limit or MAX_PATHS):
                raise Unsupported('too many paths')
            if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
                raise OutOfTime()
            out.append((list(f.pc), r, f.syms))
        self.cnt = top
        return out


_HERE = os.path.dirname(os.path.abspath(__file__))


def _own(exc):
    """the exception was raised by the verifier, not by the interpreted code"""
    tb = exc.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    return tb.tb_frame.f_code.co_filename.startswith(_HERE)


FORMAL = set()      # symbols kept in expressions even where their value is known


def _solve_one(d):
    """solve d == 0 for one symbol: (atom, Ex)"""
    best = None
    occ = {}
    for m in d.d:
        for a, e in m:
            occ.setdefault(a, []).append((m, e))
            if isinstance(e, LF):
                for s, _ in e.t:
                    occ.setdefault(s, []).append((m, None))
    inside = set()
    for m in d.d:
        for a, e in m:
            inside |= E.deep_atom_atoms(a)-{a}
    for a, lst in occ.items():
        k = ATOMS[a]
        # an array element known to be a number
        el = k[0] == 'el' and not k[3] and all(m in ((), ((a, 1),)) for m in d.d)
        if not (k[0] == 's' or el) or len(lst) != 1 or a in inside or a in FORMAL:
            continue
        m, e = lst[0]
        if el:
            if e == 1 and best is None:
                best = (-1, a, m, d.d[m])
            continue
        if e != 1 or len(m) != 1:
            continue
        c = d.d[m]
        if DECL[k[1]]['int']:
            if abs(c) != 1 or not is_int_ex(d):
                continue
        if a in QDEF:
            rank = 0
        else:
            rank = 1
            if any(a in E.deep_atoms(x) for q, (x, dd) in QDEF.items()):
                # prefer eliminating symbols, not what quotients are made of
                rank = 1
        # never solve for a quotient in terms of its own definition
        if a in QDEF and any(mm != () for mm in d.d if mm != m):
            continue
        cand = (rank, a, m, c)
        if best is None or cand[:2] > best[:2]:
            best = cand
    if best is None:
        return None
    _, a, m, c = best
    r = Ex({mm: -cc/c for mm, cc in d.d.items() if mm != m})
    # a quotient in r that is defined from a: l = 2q - m with q = (l+m)//2.
    # Keep it as an independent symbol: that is sound because ext_map is only
    # used for symbols it can rewrite, so drop such candidates from rewriting.
    return a, r


CTX = Context()


def cmp_hook(op, a, b):
    d = to_ex(a)-to_ex(b)
    if op == '<':
        return mk_cmp('lt', d)
    if op == '<=':
        return mk_cmp('le', d)
    if op == '>':
        return mk_cmp('lt', -d)
    if op == '>=':
        return mk_cmp('le', -d)
    if op == '==':
        return mk_cmp('eq', d)
    return c_not(mk_cmp('eq', d))


def sign(x):
    """-1, 0, 1, forking"""
    x = to_ex(x)
    if x.is_const():
        v = x.cval()
        return (v > 0)-(v < 0)
    if len(x.d) == 1:
        (m, c), = x.d.items()
        if all(E.positive_atom(a) for a, _ in m) and all(
                _strict(a) for a, _ in m):
            return 1 if c > 0 else -1
    if CTX.decide(mk_cmp('lt', -x)):
        return 1
    if CTX.decide(mk_cmp('eq', x)):
        return 0
    return -1


def _strict(a):
    k = ATOMS[a]
    if k[0] == 's':
        return DECL[k[1]]['pos']
    return k[0] in ('pi', 'p', 'f', 'e')


def is_real(x):
    d = E.conj(x)-x
    return not d.d


def absolute(x):
    x = to_ex(x)
    if x.is_const():
        return Ex.const(abs(x.cval()))
    if not is_real(x):
        return E.power(x*E.conj(x), Q(1, 2))
    if len(x.d) == 1:
        (m, c), = x.d.items()
        if all(E.positive_atom(a) for a, _ in m):
            return x if c > 0 else -x
    return -x if CTX.decide(mk_cmp('lt', x)) else x


def zeropow(e):
    """0 ** e for a symbolic integer exponent"""
    x = E.lf_to_ex(e)
    if CTX.implied(mk_cmp('lt', -x)):
        return E.ZERO
    if any(ATOMS[s][1][0] == '@' for s, _ in e.t):
        if CTX.implied(mk_cmp('le', -x)):
            from . import sums
            return sums.iv(mk_cmp('eq', x))
        raise Unsupported('0 ** bound variable')
    if CTX.decide(mk_cmp('eq', x)):
        return E.ONE
    if CTX.decide(mk_cmp('lt', -x)):
        return E.ZERO
    raise Unsupported('0 ** negative')


E.HOOKS.update(floordiv=floordiv, mod=mod, abs=absolute, cmp=cmp_hook,
               sign=sign, zeropow=zeropow, ext_map=ext_map)
