"""Bodies as formal sums of moved solids, and moment arrays as their moments:
the contracts of the functions that turn and move moments (C05, C09, C10)."""
from . import ex as E, ctx as C, sums as S, funcs as F, sarr as A   # noqa
from .ctx import CTX, mk_cmp
from .ex import Ex, to_ex


def le(a, b):
    return mk_cmp('le', to_ex(a)-to_ex(b))


def eq(a, b):
    return mk_cmp('eq', to_ex(a)-to_ex(b))


def reals(*names):
    return [E.sym(n, 'real') for n in names]


def vec(name):
    return [Ex.const(0)+v for v in reals(*(name+c for c in 'xyz'))]


def mat(rows):
    return [[to_ex(v) for v in r] for r in rows]


def mm(a, b):
    return [[sum((a[i][k]*b[k][j] for k in range(3)), E.ZERO) for j in range(3)] for i in range(3)]


def mv(a, v):
    return [sum((a[i][k]*to_ex(v[k]) for k in range(3)), E.ZERO) for i in range(3)]


EYE = mat([[1, 0, 0], [0, 1, 0], [0, 0, 1]])


def euler(al, be, ga):
    rz = lambda t: mat([[E.cos(t), -E.sin(t), 0], [E.sin(t), E.cos(t), 0], [0, 0, 1]])
    ry = lambda t: mat([[E.cos(t), 0, E.sin(t)], [0, 1, 0], [-E.sin(t), 0, E.cos(t)]])
    return mm(mm(rz(al), ry(be)), rz(ga))


class Solid:
    """solid `name` with the dimensions args and the given mass and centre, moved by x -> R x + t"""

    def __init__(self, name, mass, com, R=EYE, t=(0, 0, 0), args=()):
        self.args = [to_ex(v) for v in args]
        self.name, self.mass, self.com, self.R = name, to_ex(mass), com, R
        self.t = [to_ex(v) for v in t]

    def moved(self, R, d):
        return Solid(self.name, self.mass, self.com, mm(R, self.R), [a+b for a, b in zip(mv(R, self.t), [to_ex(v) for v in d])], self.args)

    def scaled(self, f):
        return Solid(self.name, self.mass*f, self.com, self.R, self.t, self.args)

    def center(self):
        return [a+b for a, b in zip(mv(self.R, self.com), self.t)]


class Broken(Exception):
    """a callee is used outside its contract"""


class Mom:
    """the moments up to lmax of a body (list of moved solids)"""
    __array_ufunc__ = None
    __array_priority__ = 4000
    dtype = complex
    ndim = 2

    def __init__(self, inner, lmax, body):
        self.inner, self.lmax, self.body = inner, to_ex(lmax), list(body)

    @property
    def shape(self):
        return (self.lmax+1, 2*self.lmax+1)

    def __len__(self):
        raise E.Unsupported('length of moments')

    def plus(self, o):
        if not isinstance(o, Mom):
            if isinstance(o, A.SArr) and o.all_zero() and len(o.shape) == 2:
                if not (CTX.decide(eq(o.shape[0], self.shape[0])) and CTX.decide(eq(o.shape[1], self.shape[1]))):
                    raise ValueError('operands could not be broadcast together')
                return Mom(self.inner, self.lmax, self.body)
            if isinstance(o, A.SArr) or not E.is_zero(to_ex(o)):
                raise E.Unsupported('moments plus something else')
            return Mom(self.inner, self.lmax, self.body)
        if o.inner != self.inner:
            raise Broken('inner and outer moments added')
        if not CTX.decide(eq(o.lmax, self.lmax)):
            raise ValueError('operands could not be broadcast together')
        return Mom(self.inner, self.lmax, self.body+o.body)

    def __add__(self, o): return self.plus(o)
    __radd__ = __add__

    def __iadd__(self, o):
        self.body = self.plus(o).body
        return self

    def __neg__(self): return self.times(-1)
    def __sub__(self, o): return self.plus(-o)

    def __isub__(self, o):
        self.body = self.plus(-o).body
        return self

    def times(self, f):
        if isinstance(f, (Mom, A.SArr)):
            raise E.Unsupported('product of moments')
        return Mom(self.inner, self.lmax, [s.scaled(to_ex(f)) for s in self.body])

    def __mul__(self, f): return self.times(f)
    __rmul__ = __mul__
    def __truediv__(self, f): return self.times(1/to_ex(f))

    def __imul__(self, f):
        self.body = self.times(f).body
        return self

    def __itruediv__(self, f):
        self.body = self.times(1/to_ex(f)).body
        return self

    def _vc_into(self, a, sg):
        """a += sg*self for (a block of) an array of zeros: from now on it is
        the moments of the body"""
        r = a.root()
        q = self.times(sg)
        if not r.all_zero() or len(r.shape) != 2 or not (a is r or a.parent is r):
            raise E.Unsupported('moments plus something else')
        L = to_ex(r.shape[0])-1
        v = Mom(self.inner, L, [])
        if not (CTX.decide(eq(r.shape[1], 2*L+1))):
            raise E.Unsupported('moments in an array of another shape')
        if a is not r:
            o, p = a.vmap([Ex.const(0)]*2), a.vmap([Ex.const(1)]*2)
            if len(a.shape) != 2 or not (zero(o[0]) and zero(p[0]-1) and zero(to_ex(p[1])-o[1]-1)):
                raise E.Unsupported('moments in a part of an array')
            b = Block(v, to_ex(a.shape[0])-1)
            if not (CTX.decide(eq(a.shape[1], 2*b.lmax+1)) and zero(to_ex(o[1])-L+b.lmax)):
                raise E.Unsupported('moments in a part of an array')
            b += q
        else:
            v += q
        r.__dict__.clear()
        r.__class__ = Mom
        r.__dict__.update(v.__dict__)
        return r if a is r else Block(r, b.lmax)

    def __setitem__(self, k, v):
        if isinstance(v, Block) and v.mom is self:
            self[k]             # the block itself, updated in place
            return
        if k in (slice(None), Ellipsis, (slice(None), slice(None))):
            if isinstance(v, Mom):
                self.body = Mom(v.inner, v.lmax, []).plus(self.times(0)).plus(v).body
                return
            if E.is_zero(to_ex(v)):
                self.body = []
                return
        raise E.Unsupported('entries of moments')

    def copy(self): return Mom(self.inner, self.lmax, self.body)
    _vc_copy = copy

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and self.inner and not any(isinstance(s, slice) for s in k) and E.is_zero(to_ex(k[0])) and E.is_zero(to_ex(k[1])-self.lmax):
            return sum((s.mass for s in self.body), E.ZERO)/F.sqrt(4*E.PI)      # C06: q_00
        if isinstance(k, tuple) and len(k) == 2 and all(isinstance(s, slice) and (s.step is None or s.step == 1) for s in k) and \
                (k[0].start is None or zero(k[0].start)) and not any(v is None for v in (k[0].stop, k[1].start, k[1].stop)):
            l = to_ex(k[0].stop)-1
            if zero(to_ex(k[1].start)-self.lmax+l) and zero(to_ex(k[1].stop)-self.lmax-l-1) and CTX.decide(le(l, self.lmax)):
                return Block(self, l)
        raise E.Unsupported('entries of moments')


class Block:
    """the degrees up to lmax of an array of moments"""
    __array_ufunc__ = None
    __array_priority__ = 4000

    def __init__(self, mom, lmax):
        self.mom, self.lmax = mom, lmax

    def __iadd__(self, o):
        if not isinstance(o, Mom):
            raise E.Unsupported('entries of moments')
        if not CTX.decide(eq(o.lmax, self.lmax)):
            raise ValueError('operands could not be broadcast together')
        if self.mom.body and o.inner != self.mom.inner:
            raise Broken('inner and outer moments added')
        self.mom.inner = o.inner
        self.mom.body = self.mom.body+o.body
        return self

    def __isub__(self, o):
        if not isinstance(o, Mom):
            raise E.Unsupported('entries of moments')
        self += -o
        return self


def need(c, what):
    if not c:
        raise Broken(what)


def displacement(d):
    if isinstance(d, A.SArr):
        return [to_ex(d.read([Ex.const(i)])) for i in range(3)]
    return [to_ex(v) for v in d]


def c_rotate(q, al, be, ga):
    need(isinstance(q, Mom), 'rotation of no moments')
    sg = 1 if q.inner else -1           # C09: outer moments turn with -alpha, -gamma
    R = euler(sg*to_ex(al), be, sg*to_ex(ga))
    return Mom(q.inner, q.lmax, [s.moved(R, (0, 0, 0)) for s in q.body])


def c_move(kind):
    def f(q, d):
        need(isinstance(q, Mom) and q.inner == (kind != 'outer'), f'{kind} translation of the wrong moments')
        return Mom(kind == 'inner', q.lmax, [s.moved(EYE, displacement(d)) for s in q.body])
    return f


def c_embed(q, L):
    need(isinstance(q, Mom), 'no moments')
    need(CTX.decide(le(q.lmax, L)), 'moments cut off')
    return Mom(q.inner, L, q.body)


def zero(x):
    return S.prove_zero(to_ex(x))


def same_solid(a, b):
    return a.name == b.name and len(a.args) == len(b.args) and all(zero(x-y) for x, y in zip(a.args, b.args)) and zero(a.mass-b.mass) and all(zero(a.R[i][j]-b.R[i][j]) for i in range(3) for j in range(3)) \
        and all(zero(x-y) for x, y in zip(a.t, b.t))


def same_body(a, b):
    a, b = ([s for s in v if not zero(s.mass)] for v in (a, b))
    for s in a:
        for i, r in enumerate(b):
            if same_solid(s, r):
                del b[i]
                break
        else:
            return False
    return not b
