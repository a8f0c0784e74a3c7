"""closed forms against their defining integrals, by the fundamental theorem

G(H, r0, r1) = integral over r0 < r < r1, 0 < z < H of f(r, z) dz dr holds if
  (1) G = 0 at r1 = r0,
  (2) d^2 G/dr1 dH = f(r1, H),
  (3) dG/dr1 -> 0 as H -> 0+.
The expression the source computes is read as an element of the field
Q(H, a, b, u, v), u = sqrt(H^2+a^2), v = sqrt(H^2+b^2) plus a linear
combination of logarithms over it (a = r0, b = r1); differentiation is the
derivation of that field, and equality is decided on reduced numerators.
Logarithms are kept as log of the factors of their arguments; two claims
follow from equal arguments, so the answer is only ever too cautious."""
import functools
from fractions import Fraction
import sympy as sp
from sympy.polys.fields import field
from sympy import QQ
from . import ex as E
from .ex import ATOMS, EX_OF, to_ex

KF, H_, A_, B_, U_, V_ = field('H,a,b,u,v', QQ)
RG = KF.ring
REL = {3: lambda g: g[0]**2+g[1]**2, 4: lambda g: g[0]**2+g[2]**2}


def reduce_poly(p):
    """u^2, v^2 replaced until at most first powers remain"""
    g = RG.gens
    for i in (3, 4):
        out, sq, cache = RG.zero, REL[i](g), [RG.one]
        parts = {}
        for mon, c in p.terms():
            k, r = divmod(mon[i], 2)
            parts.setdefault(k, {})[mon[:i]+(r,)+mon[i+1:]] = c
        for k, d in sorted(parts.items()):
            while len(cache) <= k:
                cache.append(cache[-1]*sq)
            out += RG.from_dict(d)*cache[k]
        p = out
    return p


def red(x):
    n, d = reduce_poly(x.numer), reduce_poly(x.denom)
    if d == 0:
        raise E.Unsupported('division by zero')
    return KF(n)/KF(d)




def is_zero(x):
    return reduce_poly(x.numer) == 0


class Val:
    """r + sum of c_i log p_i, p_i polynomials (up to a constant factor)"""
    def __init__(self, r, logs=None):
        self.r, self.logs = r, logs or {}

    def add(self, o):
        lg = dict(self.logs)
        for k, c in o.logs.items():
            lg[k] = lg.get(k, KF.zero)+c
        return Val(self.r+o.r, lg)

    def scale(self, c):
        return Val(self.r*c, {k: v*c for k, v in self.logs.items()})

    def diff(self, i):
        r, lg = der(self.r, i), {}
        for k, c in self.logs.items():
            p = KF(k)
            r = r+c*der(p, i)/p
            dc = der(c, i)
            if not is_zero(dc):
                lg[k] = dc
        return Val(red(r), lg)

    def zero(self):
        return is_zero(self.r) and all(is_zero(c) for c in self.logs.values())


def der(x, i):
    """derivation by H (0) or b (2)"""
    out = x.diff(KF.gens[i])
    if i == 0:
        out = out+x.diff(U_)*H_/U_+x.diff(V_)*H_/V_
    elif i == 2:
        out = out+x.diff(V_)*B_/V_
    return out


def log_of(x):
    """log of a positive field element as a sum over factors (the constant
    factor is kept as a log of a number)"""
    out = {}
    x = red(x)
    for p, sg in ((x.numer, 1), (x.denom, -1)):
        c, fs = p.factor_list()
        if abs(c) != 1:
            k = RG(abs(c))
            out[k] = out.get(k, KF.zero)+sg
        for b, n in fs:
            if _neg(b):
                b = -b
            out[b] = out.get(b, KF.zero)+sg*n
    return Val(KF.zero, out)


def _neg(b):
    # 3-4-5 and 5-12-13: a point of the variety, H = 3/10, a = 4/10, b = 72/100
    t = QQ(0)
    for m, c in b.terms():
        w = c
        for e, q in zip(m, (QQ(3, 10), QQ(4, 10), QQ(72, 100), QQ(5, 10), QQ(78, 100))):
            w *= q**e
        t += w
    return t < 0


class Conv:
    def __init__(self, H, r0, r1):
        self.names = {}
        for v, g in ((H, H_), (r0, A_), (r1, B_)):
            (m, c), = to_ex(v).d.items()
            self.names[m[0][0]] = g
        h2 = to_ex(H)**2
        self.roots = [(h2+to_ex(r0)**2, U_), (h2+to_ex(r1)**2, V_)]

    def field(self, x):
        v = self.ex(x)
        if v.logs:
            raise E.Unsupported('a logarithm inside')
        return v.r

    def atom(self, a, e):
        k = ATOMS[a]
        if not isinstance(e, (int, Fraction)):
            raise E.Unsupported('symbolic exponent')
        e = Fraction(e)
        if a in self.names and e.denominator == 1:
            return Val(self.names[a]**int(e))
        if k[0] == 'P':
            base = to_ex(EX_OF[a])
            for b, g in self.roots:
                if not (b-base).d and (2*e).denominator == 1:
                    return Val(g**int(2*e))
            if e.denominator == 1:
                return Val(red(self.field(base))**int(e))
        if k[0] == 'fn' and k[1] == 'log' and e == 1:
            return log_of(self.field(EX_OF[a][0]))
        raise E.Unsupported(f'no calculus for {k}')

    def ex(self, x):
        t = Val(KF.zero)
        for m, c in to_ex(x).d.items():
            if not isinstance(c, (int, Fraction)):
                raise E.Unsupported('coefficient')
            c = Fraction(c)
            v = Val(KF(QQ(c.numerator, c.denominator)))
            for a, e in m:
                w = self.atom(a, e)
                if not w.logs:
                    v = v.scale(w.r)
                elif not v.logs:
                    v = w.scale(v.r)
                else:
                    raise E.Unsupported('nonlinear in the logarithms')
            t = t.add(v)
        return t


def at_equal(v):
    """b = a, v = u"""
    def sub(p):
        out = RG.zero
        d = {}
        for m, c in p.terms():
            k = (m[0], m[1]+m[2], 0, m[3]+m[4], 0)
            d[k] = d.get(k, 0)+c
        return reduce_poly(RG.from_dict({k: c for k, c in d.items() if c}) if d else out)

    def frac(x):
        n, d = sub(x.numer), sub(x.denom)
        if d == 0:
            raise E.Unsupported('pole at the empty body')
        return KF(n)/KF(d)
    out = Val(frac(v.r))
    for k, c in v.logs.items():
        out = out.add(log_of(KF(sub(k))).scale(frac(c)))
    return out


ORDER = 14


def series(p):
    """[coefficient of H^k] of a polynomial, u and v expanded; exact below ORDER"""
    one = KF.one

    def root(r):
        c, out = QQ(1), [KF.zero]*ORDER
        for k in range((ORDER+1)//2):
            out[2*k] = KF(c)*r**(1-2*k)
            c = c*(QQ(1, 2)-k)/(k+1)
        return out
    def mul(x, y):
        out = [KF.zero]*ORDER
        for i, s in enumerate(x):
            if s:
                for j, t in enumerate(y[:ORDER-i]):
                    if t:
                        out[i+j] = out[i+j]+s*t
        return out
    p = reduce_poly(p)
    ru, rv = root(A_), root(B_)
    ruv = mul(ru, rv)
    tot = [KF.zero]*ORDER
    for m, c in p.terms():
        base = {(0, 0): [one], (1, 0): ru, (0, 1): rv, (1, 1): ruv}[m[3], m[4]]
        f = KF(c)*A_**m[1]*B_**m[2]
        for j, t in enumerate(base):
            if j+m[0] < ORDER:
                tot[j+m[0]] = tot[j+m[0]]+f*t
    return tot


def vanishes(x):
    """x -> 0 as H -> 0+"""
    if is_zero(x):
        return True
    n, d = series(x.numer), series(x.denom)
    ln = next((i for i, t in enumerate(n) if t), ORDER)
    ld = next((i for i, t in enumerate(d) if t), None)
    if ld is None:
        raise E.Unsupported('order of a pole')
    return ln > ld


def log_vanishes(k, c):
    """c log k -> 0: k -> 1 with c bounded, or c -> 0 with k -> a nonzero limit,
    or c of order H with k of finite order"""
    if vanishes(c):
        # H log H -> 0 too
        return any(series(k))
    n, d = series(c.numer), series(c.denom)
    ln = next((i for i, t in enumerate(n) if t), ORDER)
    ld = next((i for i, t in enumerate(d) if t), ORDER)
    s = series(k)
    return ln >= ld and s[0] == 1


def small(v):
    """limit of r + sum c log p is 0.  Logs of positive order in H with
    coefficients that do not vanish are only accepted when they cancel"""
    if not vanishes(v.r):
        return False
    left = {k: c for k, c in v.logs.items() if not log_vanishes(k, c)}
    if not left:
        return True
    # coefficients proportional to a bounded c0: the product of the powers
    # has to tend to 1
    c0 = red(next(iter(left.values())))
    n, d = series(c0.numer), series(c0.denom)
    if next((i for i, t in enumerate(n) if t), ORDER) < next((i for i, t in enumerate(d) if t), ORDER):
        return False
    tot, order = KF.one, 0
    for k, c in left.items():
        q = red(c/c0)
        if not (q.numer.is_ground and q.denom.is_ground):
            return False
        q = Fraction(str(q))
        if q.denominator != 1:
            return False
        s = series(k)
        i = next((i for i, t in enumerate(s) if t), None)
        if i is None:
            return False
        order += i*int(q)
        tot = tot*s[i]**int(q)
    return order == 0 and tot == 1


def groups(x, own):
    """{monomial in the atoms free of the dimensions: rest}"""
    out = {}
    for m, c in to_ex(x).d.items():
        key = tuple((a, e) for a, e in m if not (E.deep_atoms(E.atom_ex(a, 1)) & own))
        rest = tuple((a, e) for a, e in m if E.deep_atoms(E.atom_ex(a, 1)) & own)
        out.setdefault(key, {})[rest] = c
    return {k: E.Ex(v) for k, v in out.items()}


_memo = {}


def double_integral(G, f, H, r0, r1):
    """[(obligation, bool)]; G, f engine expressions, H, r0, r1 their symbols
    (f in terms of H and r1 as z and r).  The factors that do not depend on the
    dimensions are kept apart: the claim is decided for each of them"""
    own = set().union(*[E.deep_atoms(v) for v in (H, r0, r1)])
    gs, fs = groups(G, own), groups(f, own)
    conv = Conv(H, r0, r1)
    res = {}
    for k in sorted(set(gs) | set(fs), key=str):
        g, w = gs.get(k, E.ZERO), fs.get(k, E.ZERO)
        mk = (str(g), str(w))
        if mk not in _memo:
            _memo[mk] = _double(conv.ex(g), conv.ex(w))
        for nm, ok in _memo[mk]:
            res[nm] = res.get(nm, True) and ok
    return list(res.items())


def _double(g, w):
    d1 = g.diff(2)
    return [('vanishes for an empty body', at_equal(g).zero()),
            ('mixed derivative is the integrand', d1.diff(0).add(w.scale(KF(-1))).zero()),
            ('vanishes for zero height', bool(small(d1)))]
