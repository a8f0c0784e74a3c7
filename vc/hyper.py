"""Identities between Wigner small-d functions of symbolic degree and orders.

    d(n, a, b) = N sum_k (-1)^(a-b+k) C^(2n+b-a-2k) S^(a-b+2k) / (k! (n+b-k)! (n-a-k)! (a-b+k)!)
    N = sqrt((n-b)! (n+b)! (n-a)! (n+a)!),   C = cos(beta/2), S = sin(beta/2)

with k over all integers and 1/x! = 0 for negative x.  A relation
    sum_i (-1)^g_i q_i sqrt(u_i) C^e_i S^f_i d(n_i, a_i, b_i) = 0
is proved power by power of S: with the index of every sum shifted so that the
powers agree, and every factorial 1/(x+s)! written over the largest one
(x+s+1)...(x+M)/(x+M)!  - which is right also when x+s < 0 <= x+M, both sides
being zero, and when x+M < 0 every term is zero - a polynomial identity in the
index, the degree and the orders is left.  Arguments are linear forms."""
import itertools

from . import ctx as C
from .ctx import mk_cmp
from .ex import Ex, to_ex, Q


class Lin:
    """integer linear form"""

    def __init__(self, c=None, k=0):
        self.c = {v: x for v, x in (c or {}).items() if x}
        self.k = k

    def __add__(self, o):
        o = lin(o)
        return Lin({v: self.c.get(v, 0)+o.c.get(v, 0) for v in {*self.c, *o.c}}, self.k+o.k)

    __radd__ = __add__

    def __neg__(self):
        return Lin({v: -x for v, x in self.c.items()}, -self.k)

    def __sub__(self, o):
        return self+(-lin(o))

    def __rsub__(self, o):
        return lin(o)-self

    def __mul__(self, i):
        return Lin({v: x*i for v, x in self.c.items()}, self.k*i)

    __rmul__ = __mul__

    def half(self):
        if any(x % 2 for x in self.c.values()) or self.k % 2:
            return None
        return Lin({v: x//2 for v, x in self.c.items()}, self.k//2)

    def key(self):
        return tuple(sorted(self.c.items())), self.k

    def const(self):
        return None if self.c else self.k

    def ex(self, env):
        t = to_ex(self.k)
        for v, x in self.c.items():
            t = t+env[v]*x
        return t


def lin(o):
    return o if isinstance(o, Lin) else Lin(None, int(o))


def var(v):
    return Lin({v: 1})


def _match(ref, forms):
    """forms in the order of ref, differing by constants"""
    for p in itertools.permutations(forms):
        ds = [(x-r).const() for x, r in zip(p, ref)]
        if all(d is not None for d in ds):
            return ds
    return None


def relation(terms, region, env):
    """[(obligation, discharged)] of sum of terms = 0.  A term is
    (q, [forms under the root], (n, a, b), e, f[, g]), q a number or a
    linear form, possibly of the index k; region: conditions under
    which the relation is used; env: variable -> Ex"""
    k = var('k')
    env = dict(env, k=env['k'])
    out = []

    def holds(form, strict=False):
        f = form.ex(env)
        c = mk_cmp('le' if strict else 'lt', f)      # the negation
        if isinstance(c, bool):
            return not c
        return C.check_sat(list(region)+[c]) == 'unsat'
    data = []
    for q, u, (n, a, b), e, f, *sg in terms:
        n, a, b, e, f = map(lin, (n, a, b, e, f))
        data.append((q, [lin(x) for x in u], n, a, b, e, f, lin(sg[0]) if sg else lin(0)))
        out.append(('in range', all(holds(x) for x in (n-a, n+a, n-b, n+b, *[lin(x) for x in u]))))
    q0, u0, n0, a0, b0, e0, f0, g0 = data[0]
    parts = []
    for q, u, n, a, b, e, f, g in data:
        s = ((f0+a0-b0)-(f+a-b)).half()
        if s is None:
            return out+[('powers agree', False)]
        kk = k+s
        pc = (e+2*n+b-a-2*kk)-(e0+2*n0+b0-a0-2*k)
        out.append(('powers agree', pc.const() == 0))
        sg = (g+a-b+kk)-(g0+a0-b0+k)
        if any(x % 2 for x in sg.c.values()):
            return out+[('signs agree', False)]
        if isinstance(q, Lin):
            q = q+s*q.c.get('k', 0)
        parts.append((q*(-1)**(sg.k % 2), u, [kk, n+b-kk, n-a-kk, a-b+kk], [n-b, n+b, n-a, n+a]))
    ref, refn = parts[0][2], parts[0][3]
    D = [_match(ref, p[2]) for p in parts]
    N = [_match(refn, p[3]) for p in parts]
    if None in D or None in N:
        return out+[('same factorials', False)]
    MD = [max(d[j] for d in D) for j in range(4)]
    MN = [max(d[j] for d in N) for j in range(4)]
    total = to_ex(0)
    rad0 = None
    for (q, u, _, _), d, nn in zip(parts, D, N):
        t = q.ex(env) if isinstance(q, Lin) else to_ex(q)
        for j in range(4):
            for i in range(d[j]+1, MD[j]+1):
                t = t*(ref[j]+i).ex(env)
        rad = {}
        for x in u:
            c = x.const()
            if c is not None and c != 1:
                return out+[('roots', False)]
            if c is None:
                rad[x.key()] = rad.get(x.key(), 0)+1
        for j in range(4):
            for i in range(nn[j]+1, MN[j]+1):
                x = refn[j]+i
                if x.const() != 1:
                    rad[x.key()] = rad.get(x.key(), 0)-1
        if rad0 is None:
            rad0 = rad
        rel = {x: rad.get(x, 0)-rad0.get(x, 0) for x in {*rad, *rad0}}
        for x, p in rel.items():
            if p % 2:
                return out+[('roots', False)]
            if p:
                form = Lin(dict(x[0]), x[1])
                out.append(('root of a square', holds(form, True)))
                t = t*form.ex(env)**(p//2) if p > 0 else t/form.ex(env)**(-p//2)
        total = total+t
    from . import sums as S
    from . import ex as E
    base = [r+m for r, m in zip(ref, MD)]
    for i, j in itertools.combinations(range(4), 2):
        T = (base[i]+base[j]).const()
        ck = base[i].c.get('k', 0)
        if T is not None and abs(ck) == 1:
            # only the indices with 0 <= base[i] <= T contribute
            ka = next(iter(env['k'].atoms()))
            for v in range(T+1):
                kv = (v-(base[i]-k*ck))*ck
                out.append(('coefficients', bool(S.prove_zero(E.subs(total, {ka: kv.ex(env)})))))
            return out
    out.append(('coefficients', bool(S.prove_zero(total))))
    return out
