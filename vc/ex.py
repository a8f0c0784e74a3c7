"""Exact scalar terms: finite sums  c * prod base**exponent.

Coefficients are rationals; exponents are rationals or linear forms in integer
symbols.  Bases ("atoms") are interned:

  ('I',)            imaginary unit                 exponent mod 4
  ('p', n)          a prime number
  ('pi',)
  ('s', name)       a symbol (see declare())
  ('u', name)       exp(i*name), conj inverts
  ('upi',)          exp(i*pi), exponent mod 2
  ('P', key)        a polynomial with several terms
  ('f', LF)         factorial of a linear form
  ('e', mono)       exp(real monomial)
  ('fn', name, args)  uninterpreted function of Ex arguments (real)
  ('el', name, idx, cplx, conjflag)   array element
  ('iv', key)       Iverson bracket of a condition
  ('hv', ...)       havocked value (loop havoc)
  ('sum', ...)      bounded sum (see sums.py)

Soundness: `is_zero` answers True only when the expression vanishes identically
for all admissible values of the atoms.  A False means "not shown".
"""
from fractions import Fraction as Q
import math
import cmath

ATOMS = []
_ATOM_ID = {}
EX_OF = {}           # atom id -> payload (for 'P': Ex ; for 'fn': args ...)
DECL = {}            # symbol name -> dict(kind='real'|'int'|'pos'|'nonneg')


ANG = {}


class Unsupported(Exception):
    """the construct is outside the verifier's reach (never a violation)"""


class Structure(Unsupported):
    """the code is not written in the form that a contract speaks of (a loop it is
    attached to is gone, a variable has another name): the next proof is tried"""


def atom(*data):
    i = _ATOM_ID.get(data)
    if i is None:
        i = len(ATOMS)
        ATOMS.append(data)
        _ATOM_ID[data] = i
    return i


A_I = atom('I')
A_PI = atom('pi')
A_UPI = atom('upi')


# ------------------------------------------------------------- linear forms
class LF:
    """linear form sum coef*sym + const over integer symbols, immutable"""
    __slots__ = ('t', 'c', '_h')

    def __init__(self, t, c):
        self.t = t          # tuple of (symbol atom id, Fraction/int) sorted
        self.c = c
        self._h = hash((t, c))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, LF) and self.t == o.t and self.c == o.c

    def __repr__(self):
        s = ' + '.join((f'{c}*' if c != 1 else '')+str(ATOMS[a][1]) for a, c in self.t)
        return f'({s} + {self.c})' if self.c else f'({s})'


def _norm(q):
    if isinstance(q, Q) and q.denominator == 1:
        return q.numerator
    return q


def lf(t, c):
    """build exponent: a plain number when constant"""
    t = tuple(sorted((a, _norm(v)) for a, v in t.items() if v != 0))
    c = _norm(c)
    return LF(t, c) if t else c


def eadd(a, b):
    if not isinstance(a, LF) and not isinstance(b, LF):
        return _norm(a+b)
    t = dict(a.t) if isinstance(a, LF) else {}
    c = a.c if isinstance(a, LF) else a
    if isinstance(b, LF):
        for s, v in b.t:
            t[s] = t.get(s, 0)+v
        c = c+b.c
    else:
        c = c+b
    return lf(t, c)


def escale(a, k):
    if isinstance(a, LF):
        return lf({s: v*k for s, v in a.t}, a.c*k)
    return _norm(a*k)


def emul(a, b):
    if isinstance(b, LF):
        a, b = b, a
    if isinstance(b, LF):
        raise Unsupported('product of symbolic exponents')
    return escale(a, b)


def econst(a):
    return a.c if isinstance(a, LF) else a


def elin(a):
    return a.t if isinstance(a, LF) else ()


def is_num(e):
    return not isinstance(e, LF)


# --------------------------------------------------------------- monomials
def _mono_key(d):
    return tuple(sorted(d.items()))


def primes_of(n):
    out = {}
    p = 2
    while p*p <= n:
        while n % p == 0:
            out[p] = out.get(p, 0)+1
            n //= p
        p += 1 if p == 2 else 2
    if n > 1:
        out[n] = out.get(n, 0)+1
    return out


class Ex:
    __slots__ = ('d', '_h')
    __array_priority__ = 1000
    __array_ufunc__ = None      # numpy must defer to us

    def __init__(self, d=None):
        self.d = d if d is not None else {}
        self._h = None

    # ---- construction
    @staticmethod
    def const(c):
        c = Q(c)
        return Ex({(): c}) if c else Ex()

    @staticmethod
    def of(v):
        return to_ex(v)

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def key(self):
        return frozenset(self.d.items())

    def same(self, o):
        return self.d == o.d

    # ---- predicates
    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def cval(self):
        return self.d.get((), Q(0))

    def atoms(self):
        out = set()
        for m in self.d:
            for a, e in m:
                out.add(a)
                if isinstance(e, LF):
                    out.update(s for s, _ in e.t)
        return out

    # ---- arithmetic
    def __add__(self, o):
        o = to_ex(o, soft=True)
        if o is None:
            return NotImplemented
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m, 0)+c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return Ex(d)
    __radd__ = __add__

    def __neg__(self):
        return Ex({m: -c for m, c in self.d.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = to_ex(o, soft=True)
        if o is None:
            return NotImplemented
        return self+(-o)

    def __rsub__(self, o):
        o = to_ex(o, soft=True)
        if o is None:
            return NotImplemented
        return o+(-self)

    def __mul__(self, o):
        o = to_ex(o, soft=True)
        if o is None:
            return NotImplemented
        if len(self.d) > len(o.d):
            self, o = o, self
        if not self.d:
            return ZERO
        if len(self.d) == 1 and () in self.d:
            c0 = self.d[()]
            if c0 == 1:
                return o
            return Ex({m: c*c0 for m, c in o.d.items()})
        out = {}
        extra = None
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m, c, polys = _mul_mono(m1, m2)
                c = c*c1*c2
                if polys is None:
                    v = out.get(m, 0)+c
                    if v:
                        out[m] = v
                    else:
                        out.pop(m, None)
                else:
                    t = Ex({m: c})
                    for P in polys:
                        t = t*P
                    extra = t if extra is None else extra+t
        r = Ex(out)
        return r if extra is None else r+extra
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = to_ex(o, soft=True)
        if o is None:
            return NotImplemented
        return self*power(o, -1)

    def __rtruediv__(self, o):
        o = to_ex(o, soft=True)
        if o is None:
            return NotImplemented
        return o*power(self, -1)

    def __pow__(self, e):
        if isinstance(e, (int, float, Q)) or isinstance(e, Ex):
            return power(self, to_exp(e))
        return NotImplemented

    def __rpow__(self, b):
        b = to_ex(b, soft=True)
        if b is None:
            return NotImplemented
        return power(b, to_exp(self))

    def conjugate(self):
        return conj(self)
    conj = conjugate

    @property
    def real(self):
        return (self+conj(self))*Q(1, 2)

    @property
    def imag(self):
        return (self-conj(self))*Q(1, 2)*power(I, -1)

    # ---- integer operations and comparisons are delegated to the context
    def __floordiv__(self, o):
        return HOOKS['floordiv'](self, o)

    def __rfloordiv__(self, o):
        return HOOKS['floordiv'](to_ex(o), self)

    def __mod__(self, o):
        return HOOKS['mod'](self, o)

    def __rmod__(self, o):
        return HOOKS['mod'](to_ex(o), self)

    def __abs__(self):
        return HOOKS['abs'](self)

    def __lt__(self, o):
        return HOOKS['cmp']('<', self, o)

    def __le__(self, o):
        return HOOKS['cmp']('<=', self, o)

    def __gt__(self, o):
        return HOOKS['cmp']('>', self, o)

    def __ge__(self, o):
        return HOOKS['cmp']('>=', self, o)

    def __eq__(self, o):
        return HOOKS['cmp']('==', self, o)

    def __ne__(self, o):
        return HOOKS['cmp']('!=', self, o)

    def __bool__(self):
        return bool(HOOKS['cmp']('!=', self, 0))

    def __int__(self):
        if self.is_const() and self.cval().denominator == 1:
            return int(self.cval())
        raise Unsupported('int() of a symbolic value')

    def __index__(self):
        return self.__int__()

    def __float__(self):
        raise Unsupported('float() of a symbolic value')

    def __complex__(self):
        raise Unsupported('complex() of a symbolic value')

    def __round__(self, n=None):
        raise Unsupported('round() of a symbolic value')

    def __repr__(self):
        return show(self)


HOOKS = {}


def to_ex(v, soft=False):
    if isinstance(v, Ex):
        return v
    if isinstance(v, bool):
        return Ex.const(int(v))
    if isinstance(v, (int, Q)):
        return Ex.const(v)
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            raise Unsupported('non-finite float')
        return Ex.const(Q(repr(v)))
    if isinstance(v, complex):
        return to_ex(v.real)+to_ex(v.imag)*I
    tn = type(v).__module__
    if tn == 'numpy' and getattr(v, 'ndim', 1) == 0:
        return to_ex(v.item())
    if hasattr(v, 'to_ex'):
        return v.to_ex()
    if soft:
        return None
    raise Unsupported(f'cannot lift {type(v).__name__}')


def to_exp(e):
    """convert to an exponent (number or LF)"""
    if isinstance(e, (int, Q)):
        return _norm(e)
    if isinstance(e, float):
        return _norm(Q(repr(e)))
    e = to_ex(e)
    if e.is_const():
        return _norm(e.cval())
    return ex_to_lf(e)


def ex_to_lf(e):
    """Ex that is linear in integer symbols -> exponent"""
    t = {}
    c = Q(0)
    for m, k in e.d.items():
        if m == ():
            c += k
        elif len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]][0] == 's' and \
                DECL.get(ATOMS[m[0][0]][1], {}).get('int'):
            t[m[0][0]] = t.get(m[0][0], 0)+k
        else:
            raise Unsupported(f'non-linear integer expression {e}')
    return lf(t, c)


def lf_to_ex(e):
    if not isinstance(e, LF):
        return Ex.const(e)
    d = {((a, 1),): Q(v) for a, v in e.t}
    if e.c:
        d[()] = Q(e.c)
    return Ex(d)


def _wrap(a, e):
    """(coef, atom exponent or None, integer polynomial power or None)"""
    k = ATOMS[a][0]
    if k == 'I':
        if isinstance(e, LF):
            t = {}
            for s, v in e.t:
                if Q(v).denominator != 1:
                    raise Unsupported('fractional power of i')
                t[s] = v % 4
            c = e.c
            if Q(c).denominator != 1:
                raise Unsupported('fractional power of i')
            r = lf(t, 0)
            c = c % 4
            if isinstance(r, LF):
                # fold sign of the constant
                if c >= 2:
                    return -1, eadd(r, c-2), None
                return 1, eadd(r, c), None
            e = c
        if Q(e).denominator != 1:
            raise Unsupported('fractional power of i')
        e = e % 4
        return (1, -1)[e >= 2], e % 2, None
    if k == 'p':
        c = econst(e)
        fl = math.floor(c)
        if fl:
            return Q(ATOMS[a][1])**fl, eadd(e, -fl), None
        return 1, e, None
    if k == 'upi':
        if isinstance(e, LF):
            raise Unsupported('symbolic power of exp(i pi)')
        e = _norm(Q(e) % 2)
        # reduce to [0,1): exp(i pi e)
        s = 1
        if e >= 1:
            s = -1
            e = _norm(e-1)
        if e == Q(1, 2):
            return s, 0, 'I'
        return s, e, None
    if k == 'P' and not isinstance(e, LF):
        fl = math.floor(e)
        if e != fl and fl < 0:
            return 1, e, None       # keep negative fractional power
        if fl >= 1:
            return 1, _norm(e-fl), fl
        return 1, e, None
    if k == 'iv':
        return 1, (1 if e != 0 else 0), None
    return 1, e, None


def _mul_mono(m1, m2):
    """returns mono, coefficient, list of Ex factors or None"""
    if not m1:
        return m2, 1, None
    if not m2:
        return m1, 1, None
    d = dict(m1)
    touched = []
    for a, e in m2:
        if a in d:
            d[a] = eadd(d[a], e)
            touched.append(a)
        else:
            d[a] = e
    c = 1
    polys = None
    for a in touched:
        cc, e, pw = _wrap(a, d[a])
        c = c*cc
        if e == 0 and not isinstance(e, LF):
            del d[a]
        else:
            d[a] = e
        if pw == 'I':
            polys = (polys or [])+[I]
        elif pw is not None:
            polys = (polys or [])+[EX_OF[a]]*pw
    return tuple(sorted(d.items())), c, polys


def sym(name, kind='real'):
    """kind: real, pos (>0), nonneg, int, nat (int >= 0), posint, cplx"""
    dd = {'real': kind != 'cplx', 'int': kind in ('int', 'nat', 'posint'),
          'pos': kind in ('pos', 'posint'),
          'nonneg': kind in ('pos', 'nonneg', 'nat', 'posint')}
    if name in DECL and DECL[name] != dd:
        # another contract module uses the name for a value of another kind
        name = f'{name}_{kind}'
        if name in DECL and DECL[name] != dd:
            raise ValueError('symbol redeclared '+name)
    DECL[name] = dd
    return Ex({((atom('s', name), 1),): Q(1)})


def atom_ex(a, e=1):
    c, e, pw = _wrap(a, e)
    r = Ex({(((a, e),) if e != 0 else ()): Q(c)})
    if pw == 'I':
        return r*I
    if pw is not None:
        for _ in range(pw):
            r = r*EX_OF[a]
    return r


ZERO = Ex()
ONE = Ex.const(1)
I = Ex({((A_I, 1),): Q(1)})
PI = Ex({((A_PI, 1),): Q(1)})


def angle(name):
    """real symbol used as an angle"""
    return sym(name, 'real')


# -------------------------------------------------------------------- powers
def num_power(c, e):
    """rational c ** exponent"""
    c = Q(c)
    if is_num(e) and Q(e).denominator == 1:
        if c == 0:
            if e > 0:
                return ZERO
            if e == 0:
                return ONE
            raise Unsupported('division by zero')
        return Ex.const(c**int(e))
    if c == 0:
        if is_num(e):
            if e > 0:
                return ZERO
            raise Unsupported('0 ** negative')
        return HOOKS['zeropow'](e)
    r = ONE
    if c < 0:
        if is_num(e):
            raise Unsupported('root of a negative number')
        r = atom_ex(A_I, escale(e, 2))
        c = -c
    for p, k in primes_of(c.numerator).items():
        r = r*atom_ex(atom('p', p), escale(e, k))
    for p, k in primes_of(c.denominator).items():
        r = r*atom_ex(atom('p', p), escale(e, -k))
    return r


def _is_int_exp(e):
    """exponent known to be an integer"""
    if is_num(e):
        return Q(e).denominator == 1
    return all(Q(v).denominator == 1 for _, v in e.t) and \
        Q(e.c).denominator == 1


def positive_atom(a):
    k = ATOMS[a]
    if k[0] == 's':
        return DECL[k[1]]['pos'] or DECL[k[1]]['nonneg']
    if k[0] in ('pi', 'p', 'f', 'e', 'iv'):
        return True
    if k[0] == 'fn':
        return k[1] in ('abs',)
    return False


def power(b, e):
    """b ** e for an exponent (number / LF)"""
    if is_num(e):
        e = _norm(Q(e))
        if e == 1:
            return b
        if e == 0:
            return ONE
        if isinstance(e, int) and 0 < e <= 40 and len(b.d) > 1:
            r = None
            base = b
            n = e
            while n:
                if n & 1:
                    r = base if r is None else r*base
                n >>= 1
                if n:
                    base = base*base
            return r
    if not b.d:
        return num_power(0, e)
    intexp = _is_int_exp(e)
    if len(b.d) == 1:
        (m, c), = b.d.items()
        if not intexp:
            return _root_mono(m, c, e)
        r = num_power(c, e)
        for a, x in m:
            r = r*_pow_atom(a, x, e)
        return r
    cont, mono, prim = content(b, intexp)
    r = num_power(cont, e)
    if intexp:
        for a, x in mono:
            r = r*_pow_atom(a, x, e)
    elif mono:
        r = r*_root_mono(mono, Q(1), e)
    if len(prim.d) == 1:
        return r*power(prim, e)
    if not intexp:
        sq = HOOKS.get('perfect')
        if sq is not None and is_num(e) and (2*e).denominator == 1:
            s = sq(prim)
            if s is not None:
                return r*power(s, _norm(2*Q(e)))
    a = poly_atom(prim)
    return r*atom_ex(a, e)


def _pow_atom(a, x, e):
    if ATOMS[a][0] == 'P' and not isinstance(x, LF) and x == 1:
        return atom_ex(a, e)
    return atom_ex(a, emul(x, e))


def _root_mono(m, c, e):
    """(c * prod a^x) ** e with a non-integer number e"""
    if c < 0:
        # allow i^2 style: negative real under a root is outside reals
        raise Unsupported('root of a negative monomial')
    r = num_power(c, e)
    for a, x in m:
        k = ATOMS[a]
        if positive_atom(a):
            r = r*atom_ex(a, emul(x, e))
        elif k[0] == 'I':
            raise Unsupported('root of an imaginary value')
        elif k[0] == 'P':
            # even integer powers need the sign, odd ones stay inside the root
            if is_num(x) and Q(x).denominator == 1 and x % 2 == 0:
                s = HOOKS['sign'](EX_OF[a])
                r = r*atom_ex(a, emul(x, e))*_signpow(s, emul(x, e))
            else:
                r = r*atom_ex(a, emul(x, e))
        elif is_num(x) and Q(x).denominator == 1 and x % 2 == 0 and \
                isinstance(e, LF) and _is_int_exp(emul(x, e)):
            y = emul(x, e)
            s = HOOKS['sign'](atom_ex(a, 1))
            r = r*atom_ex(a, y)*(power(Ex.const(-1), y) if s < 0 else ONE)
        elif is_num(x) and Q(x).denominator == 1 and x % 2 == 0 and \
                not isinstance(e, LF):
            y = emul(x, e)
            if Q(y).denominator == 1 and y % 2 == 0:
                r = r*atom_ex(a, y)
            else:
                s = HOOKS['sign'](atom_ex(a, 1))
                r = r*atom_ex(a, y)*_signpow(s, y)
        else:
            s = HOOKS['sign'](atom_ex(a, 1))
            if s < 0:
                raise Unsupported('root of a negative value')
            r = r*atom_ex(a, emul(x, e))
    return r


def _signpow(s, y):
    if s >= 0:
        return ONE
    if is_num(y) and Q(y).denominator == 1:
        return Ex.const((-1)**int(y))
    raise Unsupported('root of a value of negative sign')


def content(b, intexp):
    """b = cont * mono * prim ; cont > 0 unless intexp"""
    from math import gcd
    num = 0
    den = 1
    for c in b.d.values():
        num = gcd(num, c.numerator)
        den = den*c.denominator//gcd(den, c.denominator)
    cont = Q(num, den)
    common = None
    for m in b.d:
        dm = dict(m)
        if common is None:
            common = dm
        else:
            for a in list(common):
                if a not in dm:
                    x = common[a]
                    if is_num(x) and x < 0:
                        pass    # min(x, 0)
                    else:
                        if isinstance(x, LF):
                            del common[a]
                        else:
                            common[a] = 0
                else:
                    x, y = common[a], dm[a]
                    if is_num(x) and is_num(y):
                        common[a] = min(x, y)
                    elif elin(x) == elin(y):
                        common[a] = x if econst(x) <= econst(y) else y
                    else:
                        del common[a]
            for a in dm:
                if a not in common and is_num(dm[a]) and dm[a] < 0 and \
                        all(True for _ in ()):
                    common[a] = dm[a]
    # atoms missing from some monomials count as exponent 0
    for a in list(common):
        for m in b.d:
            x = dict(m).get(a, 0)
            y = common[a]
            if is_num(x) and is_num(y):
                common[a] = min(x, y)
            elif elin(x) == elin(y):
                common[a] = x if econst(x) <= econst(y) else y
            else:
                common[a] = 0
    mono = {}
    for a, x in common.items():
        if x == 0 and not isinstance(x, LF):
            continue
        k = ATOMS[a][0]
        if k in ('I', 'iv'):
            continue
        if not intexp and not positive_atom(a) and k != 'P':
            if not (is_num(x) and Q(x).denominator == 1 and x % 2 == 0
                    and k in ('s', 'el', 'fn')):
                continue
        if not intexp and k == 'P' and not nonneg_poly(EX_OF[a]):
            continue
        mono[a] = x
    prim = b*(1/cont)
    for a, x in mono.items():
        prim = mul_atom(prim, a, escale(x, -1))
    if intexp and prim.d:
        lead = max(prim.d, key=_order)
        if prim.d[lead] < 0:
            prim = -prim
            cont = -cont
    return cont, tuple(sorted(mono.items())), prim


def mul_atom(b, a, x):
    """b * atom^x, adding exponents monomial by monomial"""
    out = ZERO
    for m, c in b.d.items():
        d = dict(m)
        e = eadd(d.pop(a, 0), x)
        rest = Ex({tuple(sorted(d.items())): c})
        if isinstance(e, LF) or e != 0:
            rest = rest*atom_ex(a, e)
        out = out+rest
    return out


def nonneg_poly(P):
    for m, c in P.d.items():
        if c < 0:
            return False
        for a, e in m:
            if positive_atom(a):
                continue
            k = ATOMS[a]
            if k[0] == 'P' and is_num(e) and nonneg_poly(EX_OF[a]):
                continue
            real = (k[0] == 's' and DECL[k[1]]['real']) or \
                (k[0] == 'el' and not k[3]) or k[0] == 'fn'
            if not (real and is_num(e) and Q(e).denominator == 1
                    and e % 2 == 0):
                return False
    return True


def _order(m):
    return tuple((a, econst(e), elin(e)) for a, e in m)


def poly_atom(P):
    a = atom('P', P.key())
    EX_OF[a] = P
    return a


# ---------------------------------------------------------------- conjugation
def conj(x):
    if not isinstance(x, Ex):
        x = to_ex(x)
    out = ZERO
    plain = {}
    for m, c in x.d.items():
        r = None
        for a, e in m:
            k = ATOMS[a][0]
            if k in ('I', 'u', 'upi', 'P', 'el', 'hv', 'sum', 'fnc') or (
                    k == 's' and not DECL[ATOMS[a][1]]['real']):
                r = True
                break
        if r is None:
            plain[m] = c
            continue
        t = Ex.const(c)
        for a, e in m:
            t = t*_conj_atom(a, e)
        out = out+t
    return out+Ex(plain)


def _conj_atom(a, e):
    k = ATOMS[a]
    if k[0] == 'I':
        return atom_ex(a, escale(e, -1))
    if k[0] in ('u', 'upi'):
        return atom_ex(a, escale(e, -1))
    if k[0] == 'P':
        P = EX_OF[a]
        Pc = conj(P)
        if Pc.same(P):
            return atom_ex(a, e)
        return power(Pc, e)
    if k[0] == 's' and not DECL[k[1]]['real']:
        if k[1].endswith('*'):
            n = k[1][:-1]
        else:
            n = k[1]+'*'
        DECL.setdefault(n, DECL[k[1]])
        return atom_ex(atom('s', n), e)
    if k[0] == 'el':
        if not k[3]:
            return atom_ex(a, e)
        return atom_ex(atom('el', k[1], k[2], k[3], not k[4]), e)
    if k[0] == 'hv':
        if not k[3]:
            return atom_ex(a, e)
        return atom_ex(atom('hv', *k[1:-1], not k[-1]), e)
    if k[0] == 'fnc':
        return atom_ex(atom('fnc', k[1], k[2], not k[3]), e)
    if k[0] == 'sum':
        return HOOKS['conjsum'](a, e)
    return atom_ex(a, e)


# --------------------------------------------------------------- substitution
def subs(x, mp):
    """mp: symbol atom id -> Ex.  Substitutes inside exponents as well."""
    if not isinstance(x, Ex):
        return x
    if not mp:
        return x
    return raw_subs(x, HOOKS['ext_map'](mp))


def raw_subs(x, mp):
    if not isinstance(x, Ex) or not mp or mp.keys().isdisjoint(deep_atoms(x)):
        return x
    out = ZERO
    for m, c in x.d.items():
        t = Ex.const(c)
        # brackets first: a false bracket annihilates the whole term
        for a, e in m:
            if ATOMS[a][0] == 'iv':
                t = t*_subs_atom(a, e, mp)
                if not t.d:
                    break
        if t.d:
            for a, e in m:
                if ATOMS[a][0] != 'iv':
                    t = t*_subs_atom(a, _subs_exp(e, mp), mp)
        out = out+t
    return out


def _subs_exp(e, mp):
    if not isinstance(e, LF):
        return e
    if not any(s in mp for s, _ in e.t):
        return e
    r = Ex.const(e.c)
    for s, v in e.t:
        r = r+(mp[s] if s in mp else Ex({((s, 1),): Q(1)}))*Q(v)
    return to_exp(r)


def subs_lf(e, mp):
    return _subs_exp(e, mp)


def _subs_atom(a, e, mp):
    if a in mp:
        return power(mp[a], e)
    k = ATOMS[a]
    if k[0] == 'P':
        P = EX_OF[a]
        P2 = raw_subs(P, mp)
        if P2 is P:
            return atom_ex(a, e)
        return power(P2, e)
    if k[0] == 'f':
        n = _subs_exp(k[1], mp)
        if n == k[1]:
            return atom_ex(a, e)
        return power(factorial_lf(n), e)
    if k[0] == 'fn':
        args = EX_OF[a]
        new = tuple(raw_subs(v, mp) if isinstance(v, Ex) else v for v in args)
        if all(p is q for p, q in zip(args, new)):
            return atom_ex(a, e)
        return power(HOOKS['refn'](k[1], new), e)
    if k[0] == 'e':
        mm = Ex({k[1]: Q(1)})
        new = raw_subs(mm, mp)
        if new is mm:
            return atom_ex(a, e)
        return exp_real(new*lf_to_ex(e))
    if k[0] == 'el':
        new = tuple(to_exp(raw_subs(lf_to_ex(i), mp)) if isinstance(i, (LF, int, Q))
                    else i for i in k[2])
        if new == k[2]:
            return atom_ex(a, e)
        return atom_ex(atom('el', k[1], new, k[3], k[4]), e)
    if k[0] == 'u' and k[1] in ANG:
        new = raw_subs(ANG[k[1]], mp)
        if new.same(ANG[k[1]]):
            return atom_ex(a, e)
        return exp_i(new*lf_to_ex(e))
    if k[0] == 'u':
        s = _ATOM_ID.get(('s', k[1]))
        if s is not None and s in mp:
            return exp_i(mp[s]*lf_to_ex(e))
        return atom_ex(a, e)
    if k[0] in ('iv', 'hv', 'sum', 'fnc'):
        return HOOKS['subs_'+k[0]](a, e, mp)
    return atom_ex(a, e)


_deep_cache = {}


def deep_atom_atoms(a):
    r = _deep_cache.get(a)
    if r is not None:
        return r
    k = ATOMS[a]
    out = {a}
    if k[0] == 'P':
        out |= deep_atoms(EX_OF[a])
    elif k[0] == 'f':
        out |= {s for s, _ in elin(k[1])}
    elif k[0] == 'fn':
        for v in EX_OF[a]:
            if isinstance(v, Ex):
                out |= deep_atoms(v)
    elif k[0] == 'e':
        out |= deep_atoms(Ex({k[1]: Q(1)}))
    elif k[0] == 'el':
        for i in k[2]:
            out |= {s for s, _ in elin(i)} if isinstance(i, LF) else set()
    elif k[0] == 'u' and k[1] in ANG:
        out |= deep_atoms(ANG[k[1]])
    elif k[0] == 'u':
        s = _ATOM_ID.get(('s', k[1]))
        if s is not None:
            out.add(s)
    elif k[0] in ('iv', 'hv', 'sum', 'fnc'):
        out |= HOOKS['deep_'+k[0]](a)
    _deep_cache[a] = out
    return out


def deep_atoms(x):
    out = set()
    for m in x.d:
        for a, e in m:
            out |= deep_atom_atoms(a)
            if isinstance(e, LF):
                out.update(s for s, _ in e.t)
    return out


# ----------------------------------------------------------- special functions
def factorial_lf(n):
    """n! for exponent n (number or LF); the caller guarantees n >= 0"""
    if is_num(n):
        if Q(n).denominator != 1 or n < 0:
            return gamma_half(n)
        return Ex.const(math.factorial(int(n)))
    return atom_ex(atom('f', n), 1)


def gamma_half(n):
    n = Q(n)
    if (2*n).denominator == 1 and n.denominator == 2 and n > -1:
        # Gamma(n+1) for half-integer
        r = Q(1)
        x = n
        while x > 0:
            r *= x
            x -= 1
        return Ex.const(r)*power(PI, Q(1, 2))
    raise Unsupported(f'gamma({n}+1)')


def exp_i(x):
    """exp(i*x), x real: linear in angle symbols with integer-form coefficients"""
    r = ONE
    for m, c in x.d.items():
        if m == ():
            if c == 0:
                continue
            raise Unsupported('exp(i * rational)')
        ang = None
        opaque = False
        coef = Ex.const(c)
        for a, e in m:
            k = ATOMS[a]
            if k[0] == 's' and DECL[k[1]]['int']:
                coef = coef*atom_ex(a, e)
            elif ang is None and e == 1 and (k[0] in ('s', 'pi', 'fn') or k[0] == 'el' and not k[3]):
                ang = a
            elif not (conj(atom_ex(a, 1))-atom_ex(a, 1)).d:
                opaque = True           # a product of real quantities is one angle
            else:
                raise Unsupported(f'phase exp(i {x})')
        if ang is None and not opaque:
            raise Unsupported(f'phase exp(i {x})')
        try:
            if opaque:
                raise Unsupported('opaque angle')
            ce = to_exp(coef)
            if ATOMS[ang][0] == 'el':
                nm = '~'+repr(((ang, 1),))
                ANG[nm] = atom_ex(ang, 1)
                r = r*atom_ex(atom('u', nm), ce)
                continue
        except Unsupported:
            # opaque angle: the non-linear monomial with an integer multiple
            ce = None
            mono = Ex({m: Q(1)})
            for a, e in m:      # pull out one integer symbol of degree one
                k = ATOMS[a]
                if k[0] == 's' and DECL[k[1]]['int'] and e == 1:
                    mono = mono/atom_ex(a, 1)
                    ce = atom_ex(a, 1)
                    break
            ce = to_exp((ce if ce is not None else ONE)*c)
            nm = '~'+repr(mono.key())
            ANG[nm] = mono
            r = r*atom_ex(atom('u', nm), ce)
            continue
        k = ATOMS[ang]
        if k[0] == 'pi':
            if isinstance(ce, LF):
                r = r*atom_ex(A_I, escale(ce, 2))
            else:
                r = r*atom_ex(A_UPI, ce)
        elif k[0] == 's':
            r = r*atom_ex(atom('u', k[1]), ce)
        else:
            r = r*HOOKS['expfn'](ang, ce)
    return r


def exp_real(x):
    r = ONE
    for m, c in x.d.items():
        if m == ():
            r = r*atom_ex(atom('e', ()), c)
        else:
            r = r*atom_ex(atom('e', m), _norm(c))
    return r


def fn(name, *args):
    args = tuple(args)
    a = atom('fn', name, tuple(v.key() if isinstance(v, Ex) else v
                               for v in args))
    EX_OF[a] = args
    return atom_ex(a, 1)


def cos(x):
    e = exp_i(to_ex(x))
    return (e+conj(e))*Q(1, 2)


def sin(x):
    e = exp_i(to_ex(x))
    return (e-conj(e))*Q(1, 2)*power(I, -1)


# ------------------------------------------------------------------ zero test
def rising(lin, lo, hi):
    """product (lin+lo+1)...(lin+hi) as Ex"""
    r = ONE
    base = lf_to_ex(lf(dict(lin), 0))
    for j in range(int(lo)+1, int(hi)+1):
        r = r*(base+j)
    return r


def is_zero(x, limit=400000):
    """True only if x is identically zero"""
    x = to_ex(x)
    for _ in range(12):
        if not x.d:
            return True
        y = _clear(x)
        if y is x or y is None:
            return not x.d
        x = y
        if len(x.d) > limit:
            raise Unsupported('expression too large')
    return not x.d


def _split_const(c):
    """integer part of an exponent constant"""
    return math.floor(c)


def _clear(x):
    """multiply through by a nonzero common factor so that factorials with the
    same linear part and polynomial atoms are expanded; returns new Ex"""
    # 1. factorials: group by (lin, exponent fraction)
    fmin = {}
    pmin = {}
    for m in x.d:
        for a, e in m:
            k = ATOMS[a]
            if k[0] == 'f':
                lin, c = elin(k[1]), econst(k[1])
                fr = Q(c) % 1
                key = (lin, fr)
                fmin[key] = min(fmin.get(key, c), c)
    need = False
    for m in x.d:
        for a, e in m:
            k = ATOMS[a]
            if k[0] == 'f' and econst(k[1]) != fmin[(elin(k[1]), Q(econst(k[1])) % 1)]:
                need = True
    if need:
        out = ZERO
        for m, c in x.d.items():
            t = Ex.const(c)
            rest = []
            for a, e in m:
                k = ATOMS[a]
                if k[0] == 'f':
                    lin, cc = elin(k[1]), econst(k[1])
                    lo = fmin[(lin, Q(cc) % 1)]
                    if cc != lo:
                        base = atom('f', lf(dict(lin), lo))
                        t = t*atom_ex(base, e)
                        for j in range(int(cc-lo)):
                            t = t*power(lf_to_ex(lf(dict(lin), lo+j+1)), e)
                        continue
                rest.append((a, e))
            t = t*Ex({tuple(rest): Q(1)})
            out = out+t
        return out
    # 2. polynomial atoms: per (atom, linear part, fractional part) minimal power
    occ = {}
    for m in x.d:
        for a, e in m:
            k = ATOMS[a]
            if k[0] in ('P', 'f'):
                key = (a, elin(e), Q(econst(e)) % 1)
                occ.setdefault(key, []).append(econst(e))
    mult = {}
    atoms_seen = {key[0] for key in occ}
    for a in atoms_seen:
        keys = [k for k in occ if k[0] == a]
        present_all = True
        mins = {}
        for m in x.d:
            e = dict(m).get(a, 0)
            key = (elin(e), Q(econst(e)) % 1)
            v = math.floor(econst(e))
            mins[key] = min(mins.get(key, v), v)
        # common integer shift: use the smallest floor over everything
        lo = min(mins.values())
        hi = max(max(math.floor(v) for v in occ[k]) for k in keys)
        if ATOMS[a][0] == 'f':
            if len(mins) == 1 and lo != 0:
                mult[a] = -lo
            continue
        if lo < 0:
            mult[a] = -lo
        elif lo > 0:
            mult[a] = -lo
    if not mult:
        # symbolic powers of P: expand integer constants
        out = None
        for m in x.d:
            for a, e in m:
                if ATOMS[a][0] == 'P' and isinstance(e, LF) and \
                        math.floor(econst(e)) > 0:
                    out = True
        if out is None:
            return x
    out = ZERO
    for m, c in x.d.items():
        t = Ex.const(c)
        dm = dict(m)
        for a, k in mult.items():
            dm[a] = eadd(dm.get(a, 0), k)
        rest = []
        pol = []
        for a, e in dm.items():
            if e == 0 and not isinstance(e, LF):
                continue
            if ATOMS[a][0] == 'P':
                fl = math.floor(econst(e))
                if fl > 0:
                    pol.append((EX_OF[a], fl))
                    e = eadd(e, -fl)
                    if e == 0 and not isinstance(e, LF):
                        continue
            rest.append((a, e))
        t = t*Ex({tuple(sorted(rest)): Q(1)})
        for P, k in pol:
            t = t*power(P, k)
        out = out+t
    return out


# ------------------------------------------------------------------- numerics
def evalf(x, env, aux=None):
    """numeric value; env: symbol name -> number; aux: atom -> number callback"""
    x = to_ex(x)
    tot = 0
    for m, c in x.d.items():
        v = float(c) if abs(c.numerator) < 10**300 else float(c)
        for a, e in m:
            v = v*_eval_atom(a, e, env, aux)
        tot = tot+v
    return tot


def eval_exp(e, env):
    if isinstance(e, LF):
        r = float(e.c)
        for s, v in e.t:
            r += float(v)*env[ATOMS[s][1]]
        return int(round(r)) if abs(r-round(r)) < 1e-9 else r
    return e if isinstance(e, int) else float(e)


def _eval_atom(a, e, env, aux):
    k = ATOMS[a]
    e = eval_exp(e, env)
    if k[0] == 'I':
        return 1j**int(e) if e == int(e) else 1j**e
    if k[0] == 'p':
        return float(k[1])**e
    if k[0] == 'pi':
        return math.pi**e
    if k[0] == 's':
        n = k[1]
        if n not in env and n.endswith('*'):
            return complex(env[n[:-1]]).conjugate()**e
        b = env[n]
        return b**e
    if k[0] == 'u':
        if k[1] in ANG:
            return cmath.exp(1j*evalf(ANG[k[1]], env, aux)*e)
        return cmath.exp(1j*env[k[1]]*e)
    if k[0] == 'upi':
        return cmath.exp(1j*math.pi*e)
    if k[0] == 'P':
        b = evalf(EX_OF[a], env, aux)
        if isinstance(b, complex) and abs(b.imag) < 1e-14*abs(b):
            b = b.real
        if e != int(e) and not isinstance(b, complex) and b < 0:
            b = complex(b)
        return b**e
    if k[0] == 'f':
        n = eval_exp(k[1], env)
        return math.gamma(n+1)**e
    if k[0] == 'e':
        b = evalf(Ex({k[1]: Q(1)}), env, aux)
        return cmath.exp(b*e) if isinstance(b, complex) else math.exp(b*e)
    return HOOKS['eval'](a, e, env, aux)


# ------------------------------------------------------------------- printing
def show_atom(a):
    k = ATOMS[a]
    if k[0] in ('s',):
        return k[1]
    if k[0] == 'p':
        return str(k[1])
    if k[0] == 'pi':
        return 'pi'
    if k[0] == 'I':
        return 'I'
    if k[0] == 'u':
        return f'e^i[{k[1]}]'
    if k[0] == 'upi':
        return 'e^i[pi]'
    if k[0] == 'P':
        return '('+show(EX_OF[a])+')'
    if k[0] == 'f':
        return f'{k[1]}!'
    if k[0] == 'fn':
        return f'{k[1]}({", ".join(map(str, EX_OF[a]))})'
    if k[0] == 'e':
        return f'exp[{show(Ex({k[1]: Q(1)}))}]'
    if k[0] == 'el':
        return f'{k[1]}{list(k[2])}'+('*' if k[4] else '')
    return str(k)


def show(x, maxn=12):
    if not x.d:
        return '0'
    out = []
    for m, c in list(x.d.items())[:maxn]:
        s = [] if c == 1 and m else [str(c)]
        for a, e in m:
            s.append(show_atom(a)+('' if e == 1 else f'^{e}'))
        out.append('*'.join(s))
    if len(x.d) > maxn:
        out.append(f'... ({len(x.d)} terms)')
    return ' + '.join(out)
