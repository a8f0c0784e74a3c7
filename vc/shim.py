"""The numpy / scipy names used by the code, as contracts over exact values."""
import types
import math
from fractions import Fraction as Q
import numpy as _np

from . import ex as E
from .ex import Ex, Unsupported, to_ex, PI
from . import ctx as C
from .ctx import CTX, mk_cmp, as_cond
from . import sums as S
from . import funcs as F
from . import sarr as A
from .sarr import SArr, FArr, asarr, is_arr, elementwise, con


def ew(f, kind=None):
    def g(*a, **k):
        if k:
            raise Unsupported('keyword '+','.join(k))
        if any(is_arr(v) for v in a):
            return elementwise(f, *a, kind=kind)
        return f(*[A.lift(v) for v in a])
    return g


def kind_of(dtype):
    s = str(getattr(dtype, '__name__', dtype))
    if 'complex' in s:
        return 'c'
    if 'int' in s:
        return 'i'
    if 'bool' in s:
        return 'b'
    return 'f'


def shape_of(s):
    if isinstance(s, (list, tuple)):
        return [con(v) for v in s]
    if isinstance(s, SArr):
        return [con(s[i]) for i in range(s.shape[0])]
    return [con(s)]


def full(shape, v, kind):
    sh = shape_of(shape)
    for n in sh:
        if isinstance(n, int):
            if n < 0:
                raise ValueError('negative dimensions are not allowed')
        elif isinstance(n, Ex):
            if not C.is_int_ex(n):
                raise TypeError('shape must be integers')
            if not CTX.decide(mk_cmp('le', -n)):
                raise ValueError('negative dimensions are not allowed')
        else:
            raise TypeError('shape must be integers')
    return SArr(sh, lambda q: v, kind)


def zeros(shape, dtype=float, order=None):
    sh = shape_of(shape)
    if sh and isinstance(sh[0], Ex):
        from . import kept
        ids = kept.of_count(sh[0])
        if ids is not None:
            return FArr(ids, lambda q: E.ZERO, sh[1:])
    return full(shape, E.ZERO, kind_of(dtype))


def ones(shape, dtype=float):
    return full(shape, E.ONE, kind_of(dtype))


def eye(n, m=None, k=0, dtype=float):
    if k:
        raise Unsupported('eye offset')
    n = con(n)
    m = n if m is None else con(m)
    return SArr([n, m], lambda q: E.ONE if CTX.decide(A.eqc(q[0], q[1])) else E.ZERO, 'f')


def array(v, dtype=None, copy=True, ndmin=0):
    if isinstance(v, FArr):
        return v
    if hasattr(v, '_vc_copy'):
        return v._vc_copy()
    if not is_arr(v):
        return SArr([], lambda q: A.lift(v))
    if isinstance(v, list) and v and all(isinstance(i, str) for i in v) and dtype is not None:
        from .load import v_float
        v = [v_float(i) for i in v]
    r = A.copy(v)
    return r


def asarray(v, dtype=None):
    return asarr(v) if is_arr(v) else v


def arange(*a, **k):
    k.pop('dtype', None)
    a = [con(v) for v in a]
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if isinstance(st, (float, Q)) or not isinstance(st, int):
        st = to_ex(st)
        if not st.is_const() or st.cval().denominator != 1:
            raise Unsupported('arange with a non-integer step')
        st = int(st.cval())
    lo, hi = to_ex(lo), to_ex(hi)
    if not C.is_int_ex(hi-lo):
        if (hi-lo).is_const():
            n = math.ceil((hi-lo).cval()/st)
        else:
            raise Unsupported('arange over reals')
    else:
        n = CTX.normal(A.SymRange(lo, hi, st).count())
    n = con(to_ex(n))
    if not isinstance(n, int) and not CTX.decide(mk_cmp('le', -n)):
        n = 0
    if isinstance(n, int):
        n = max(n, 0)
    return SArr([n], lambda q: lo+to_ex(q[0])*st, 'i')


def linspace(a, b, num=50, endpoint=True, **k):
    a, b, num = to_ex(a), to_ex(b), con(num)
    d = num-1 if endpoint else num
    return SArr([num], lambda q: a+(b-a)*to_ex(q[0])/d, 'f')


def fliplr(a):
    return asarr(a)[:, ::-1]


def flipud(a):
    return asarr(a)[::-1]


def flip(a, axis=None):
    a = asarr(a)
    if axis is None:
        return a[tuple([slice(None, None, -1)]*a.ndim)]
    ks = [slice(None)]*a.ndim
    ks[axis] = slice(None, None, -1)
    return a[tuple(ks)]


def rot90(m, k=1, axes=(0, 1)):
    m = asarr(m)
    k = k % 4
    if k == 0:
        return m[:]
    if k == 2:
        return m[::-1, ::-1]
    if k == 1:
        return A.transpose(m[:, ::-1])
    return A.transpose(m)[:, ::-1]


def diag(a, k=0):
    a = asarr(a)
    if k:
        raise Unsupported('diag offset')
    rd = a.snap()
    if a.ndim == 2:
        n = a.shape[0]
        if not CTX.decide(A.eqc(n, a.shape[1])):
            raise Unsupported('diag of a non-square matrix')
        return SArr([n], lambda q: rd([q[0], q[0]]), a.kind)
    n = a.shape[0]
    return SArr([n, n], lambda q: rd([q[0]]) if CTX.decide(A.eqc(q[0], q[1])) else E.ZERO, a.kind)


def outer(a, b):
    a, b = asarr(a), asarr(b)
    a = A.asarr([a]) if not isinstance(a, SArr) else ravel(a)
    b = A.asarr([b]) if not isinstance(b, SArr) else ravel(b)
    ra, rb = a.snap(), b.snap()
    return SArr([a.shape[0], b.shape[0]], lambda q: ra([q[0]])*rb([q[1]]))


def ravel(a):
    a = asarr(a)
    if a.ndim == 1:
        return a
    if A.dense_shape(a.shape):
        rd = a.snap()
        vals = [rd(list(q)) for q in A.all_idx(a.shape)]
        return A.asarr(vals)
    if a.ndim == 2 and any(isinstance(n, int) and n == 1 for n in a.shape):
        return a[0] if isinstance(a.shape[0], int) and a.shape[0] == 1 else a[:, 0]
    raise Unsupported('ravel of a symbolic matrix')


def where(c, a=None, b=None):
    if a is None:
        if isinstance(c, FArr):
            raise Unsupported('where on a filtered array')
        c = asarr(c)
        if c.ndim != 1:
            raise Unsupported('where on a matrix')
        rd = c.snap()
        if A.dense_shape(c.shape):
            idx = [i for i in range(c.shape[0]) if CTX.decide(as_cond(rd([i])))]
            return (A.asarr(idx) if idx else SArr([0], lambda q: E.ZERO, 'i'),)
        return (A.FIdx(lambda k: as_cond(rd([k])), c.shape[0]),)
    return elementwise(lambda p, x, y: x if CTX.decide(as_cond(p)) else y, c, a, b)


def concatenate(xs, axis=0):
    if any(isinstance(x, FArr) for x in xs):
        raise Unsupported('concatenation of filtered arrays')
    xs = [asarr(x) for x in xs]
    return stack_axis(xs, int(axis) % xs[0].ndim)


def stack(xs, axis=0):
    xs = [asarr(x) for x in xs]
    ax = int(axis) % (xs[0].ndim+1)
    return stack_axis([expand_dims(x, ax) for x in xs], ax)


def expand_dims(a, axis):
    a = asarr(a)
    ks = [slice(None)]*(a.ndim+1)
    ks[axis] = None
    return a[tuple(ks)]


def column_stack(xs):
    xs = [asarr(x) for x in xs]
    return stack_axis([x[:, None] if x.ndim == 1 else x for x in xs], 1)


def einsum(spec, *ops, **k):
    if k or not isinstance(spec, str):
        raise Unsupported('einsum options')
    spec = spec.replace(' ', '')
    if '.' in spec:
        raise Unsupported('einsum ellipsis')
    ins, _, out = spec.partition('->')
    ins = ins.split(',')
    if '->' not in spec:
        al = ''.join(ins)
        out = ''.join(sorted(c for c in set(al) if al.count(c) == 1))
    ops = [asarr(o) for o in ops]
    n = {}
    for t, o in zip(ins, ops):
        if len(t) != o.ndim:
            raise ValueError('einsum: wrong number of indices')
        for c, m in zip(t, o.shape):
            if c in n and not CTX.decide(A.eqc(n[c], m)):
                raise ValueError('einsum: operands could not be broadcast together')
            n.setdefault(c, m)
    rds = [o.snap() for o in ops]
    summed = [c for c in n if c not in out]

    def base(q):
        def rec(env, left):
            if not left:
                r = E.ONE
                for t, rd in zip(ins, rds):
                    r = r*to_ex(rd([env[c] for c in t]))
                return r
            return A.sum_over(n[left[0]], lambda k: rec({**env, left[0]: k}, left[1:]))
        return rec(dict(zip(out, q)), summed)
    return base([]) if not out else SArr([n[c] for c in out], base)


def tensordot(a, b, axes=2):
    a, b = asarr(a), asarr(b)
    if isinstance(axes, int):
        ax, bx = list(range(a.ndim-axes, a.ndim)), list(range(axes))
    else:
        ax, bx = ([x] if isinstance(x, int) else list(x) for x in axes)
    ax, bx = [x % a.ndim for x in ax], [x % b.ndim for x in bx]
    al = 'abcdefghij'[:a.ndim]
    bl = list('klmnopqrst'[:b.ndim])
    for x, y in zip(ax, bx):
        bl[y] = al[x]
    return einsum(al+','+''.join(bl)+'->'+''.join(c for i, c in enumerate(al) if i not in ax)
                  + ''.join(c for i, c in enumerate(bl) if i not in bx), a, b)


def inner(a, b):
    if not is_arr(a) or not is_arr(b):
        return elementwise(lambda x, y: x*y, a, b)
    a, b = asarr(a), asarr(b)
    if a.ndim == b.ndim == 1:
        return A.dot(a, b)
    return tensordot(a, b, (a.ndim-1, b.ndim-1))


def full_like(a, v, dtype=None):
    a = asarr(a)
    return full(a.shape, A.lift(v), a.kind if dtype is None else kind_of(dtype))


def broadcast_to(a, shp):
    shp = shape_of(shp)
    rd = A.bcast_reader(a, shp)
    return SArr(shp, rd)


def repeat(a, n, axis=None):
    """of an array of length one, or of a number"""
    a = asarr(a) if is_arr(a) else A.asarr([a])
    if a.ndim != 1 or a.shape[0] != 1:
        raise Unsupported('repeat')
    rd = a.snap()
    return SArr([con(n)], lambda q: rd([0]))


def roll(a, k, axis=None):
    a = asarr(a)
    if axis is None and a.ndim > 1:
        raise Unsupported('roll of a flattened matrix')
    ax = int(axis or 0) % a.ndim
    n, rd = a.shape[ax], a.snap()
    k = to_ex(k)

    def base(q):
        q = list(q)
        q[ax] = con(to_ex(C.mod(to_ex(q[ax])-k, n)))
        return rd(q)
    return SArr(a.shape, base, a.kind)


def squeeze(a, axis=None):
    a = asarr(a)
    return a[tuple(0 if isinstance(n, int) and n == 1 and axis in (None, i, i-a.ndim) else slice(None)
                   for i, n in enumerate(a.shape))]


def cumulative(op):
    def f(a, axis=None):
        a = asarr(a)
        if a.ndim != 1 or not isinstance(a.shape[0], int):
            raise Unsupported('cumulative sum of a symbolic array')
        out, r = [], None
        for i in range(a.shape[0]):
            v = to_ex(a.read([i]))
            r = v if r is None else op(r, v)
            out.append(r)
        return A.asarr(out)
    return f


def trace(a):
    return np_sum(diag(a))


def clip(a, lo, hi):
    f = lambda v, x, y: x if CTX.decide(as_cond(to_ex(v) < x)) else (y if CTX.decide(as_cond(to_ex(v) > y)) else v)
    return elementwise(f, a, lo, hi) if is_arr(a) else f(A.lift(a), A.lift(lo), A.lift(hi))


def array_equal(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim != b.ndim or not all(CTX.decide(A.eqc(x, y)) for x, y in zip(a.shape, b.shape)):
        return False
    if not A.dense_shape(a.shape):
        raise Unsupported('comparison of symbolic arrays')
    return all(CTX.decide(as_cond(to_ex(a.read(list(q))) == to_ex(b.read(list(q))))) for q in A.all_idx(a.shape))


def stack_axis(xs, axis):
    nd = xs[0].ndim
    offs, tot = [], 0
    for x in xs:
        if x.ndim != nd:
            raise ValueError('all the input array dimensions must match')
        for d in range(nd):
            if d != axis and not CTX.decide(A.eqc(x.shape[d], xs[0].shape[d])):
                raise ValueError('all the input array dimensions except for the concatenation axis must match')
        offs.append(tot)
        tot = con(to_ex(tot)+x.shape[axis])
    rds = [x.snap() for x in xs]
    sh = list(xs[0].shape)
    sh[axis] = tot

    def base(q):
        i = q[axis]
        for j in range(len(xs)-1, 0, -1):
            if CTX.decide(as_cond(to_ex(i) >= offs[j])):
                q2 = list(q)
                q2[axis] = con(to_ex(i)-offs[j])
                return rds[j](q2)
        return rds[0](q)
    return SArr(sh, base)


def atleast_2d(a):
    a = asarr(a)
    if a.ndim == 1:
        return a[None, :]
    return a


def vstack(xs):
    return stack_axis([atleast_2d(x) for x in xs], 0)


def hstack(xs):
    xs = [asarr(x) for x in xs]
    return stack_axis(xs, 0 if xs[0].ndim == 1 else 1)


def np_sum(a, axis=None, **k):
    if isinstance(a, FArr):
        if k.get('keepdims'):
            raise Unsupported('keepdims')
        return a.sum(axis)
    if not is_arr(a):
        return a
    return A.asum(a, axis, bool(k.get('keepdims')))


def prod(a, axis=None):
    a = asarr(a)
    rd = a.snap()
    r = E.ONE
    for q in A.all_idx(a.shape):
        r = r*rd(list(q))
    return r


def shape(a):
    if isinstance(a, FArr):
        raise Unsupported('shape of a filtered array')
    if hasattr(a, '_vc_copy'):
        return tuple(a.shape)
    if not is_arr(a):
        return ()
    return tuple(asarr(a).shape)


def ndim(a):
    return asarr(a).ndim if is_arr(a) else 0


def np_len(a):
    return asarr(a).shape[0]


def cross(a, b):
    a, b = asarr(a), asarr(b)
    A1 = [a[..., i] for i in range(3)]
    B1 = [b[..., i] for i in range(3)]
    c = [A1[1]*B1[2]-A1[2]*B1[1], A1[2]*B1[0]-A1[0]*B1[2], A1[0]*B1[1]-A1[1]*B1[0]]
    if a.ndim == 1 and b.ndim == 1:
        return A.asarr(c)
    st = A.asarr([asarr(x) for x in c])
    return A.transpose(st, list(range(1, st.ndim))+[0])


def reshape(a, shp, order='C'):
    a = asarr(a)
    shp = shape_of(shp)
    if A.dense_shape(a.shape):
        rd = a.snap()
        vals = [rd(list(q)) for q in A.all_idx(a.shape)]
        if -1 in shp:
            k = 1
            for n in shp:
                if n != -1:
                    k *= n
            shp[shp.index(-1)] = len(vals)//k
        it = dict(zip(A.all_idx(shp), vals))
        return SArr(shp, lambda q: it[tuple(q)])
    raise Unsupported('reshape of a symbolic array')


def meshgrid(*xs, indexing='xy', **k):
    xs = [asarr(x) for x in xs]
    n = len(xs)
    order = list(range(n))
    if indexing == 'xy' and n >= 2:
        order[0], order[1] = 1, 0
    sh = [None]*n
    for i, x in enumerate(xs):
        sh[order[i]] = x.shape[0]
    out = []
    for i, x in enumerate(xs):
        rd = x.snap()
        out.append(SArr(sh, lambda q, rd=rd, i=i: rd([q[order[i]]])))
    return out


def tile(a, reps):
    raise Unsupported('tile')


def matmul(a, b):
    return A.matmul(a, b)


def norm(a, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2) or keepdims:
        raise Unsupported('norm options')
    if axis is not None:
        if not isinstance(axis, int):
            raise Unsupported('norm options')
        return NP.sqrt(NP.sum(elementwise(lambda v: to_ex(v)*E.conj(to_ex(v)), a), axis))
    a = asarr(a)
    if a.ndim != 1:
        raise Unsupported('norm of a matrix')
    rd = a.snap()
    return F.sqrt(A.sum_over(a.shape[0], lambda i: rd([i])*E.conj(rd([i]))))


def np_max(a, axis=None):
    a = asarr(a)
    rd = a.snap()
    if not A.dense_shape(a.shape):
        raise Unsupported('max of a symbolic array')
    vals = [rd(list(q)) for q in A.all_idx(a.shape)]
    return max(vals)


def np_min(a, axis=None):
    a = asarr(a)
    rd = a.snap()
    if not A.dense_shape(a.shape):
        raise Unsupported('min of a symbolic array')
    return min(rd(list(q)) for q in A.all_idx(a.shape))


def lpmn(m, n, z):
    """(P, P'): P[j, k] = P_k^j(z) with the Condon-Shortley phase; the
    derivatives are not provided"""
    m, n, z = con(to_ex(m)), con(to_ex(n)), to_ex(z)
    if not isinstance(m, int) or not isinstance(n, int):
        return SArr([to_ex(m)+1, to_ex(n)+1], lambda q: S.fnc('lpmn', q[0], q[1], z), 'f'), None
    r = F.root_1mz2(z)

    def leg(j, k):
        t = E.ZERO
        for i in range((k-j)//2+1 if k >= j else 0):
            d = math.factorial(2*k-2*i)//(math.factorial(i)*math.factorial(k-i)*math.factorial(k-2*i-j))
            t = t+E.power(z, k-2*i-j)*Q((-1)**i*d, 2**k)
        return t*E.power(r, j)*(-1)**j
    return asarr([[leg(j, k) for k in range(n+1)] for j in range(m+1)]), None


def isscalar(v):
    return not is_arr(v)


def real(v):
    return elementwise(lambda a: to_ex(a).real, v) if is_arr(v) else to_ex(v).real


def imag(v):
    return elementwise(lambda a: to_ex(a).imag, v) if is_arr(v) else to_ex(v).imag


def sph_harm(m, n, phi, theta):
    return ew(F.sph_harm)(m, n, phi, theta)


def toeplitz(c, r=None):
    """T[i, j] = c[i-j] (i >= j) else r[j-i]"""
    c = asarr(c)
    r = c.conj() if r is None else asarr(r)
    rc, rr = c.snap(), r.snap()

    def base(q):
        i, j = to_ex(q[0]), to_ex(q[1])
        if CTX.decide(mk_cmp('le', j-i)):
            return rc([con(i-j)])
        return rr([con(j-i)])
    return SArr([c.shape[0], r.shape[0]], base)


def hankel(c, r=None):
    """H[i, j] = c[i+j] when i+j < len(c), else r[i+j-len(c)+1]"""
    c = asarr(c)
    n = c.shape[0]
    rr = asarr(r).snap() if r is not None else (lambda q: E.ZERO)
    m = asarr(r).shape[0] if r is not None else n
    rc = c.snap()

    def base(q):
        s = to_ex(q[0])+to_ex(q[1])
        if CTX.decide(mk_cmp('lt', s-n)):
            return rc([con(s)])
        return rr([con(s-n+1)])
    return SArr([n, m], base)


def unwrap_pos(f, *names):
    return f


class _NS(types.SimpleNamespace):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)

        def missing(*a, **k):
            raise Unsupported(f'{self._n}.{n} has no contract')
        return missing


LIN = _NS(_n='np.linalg', norm=norm)
RANDOM = _NS(_n='np.random')

NP = _NS(
    _n='numpy', pi=PI, e=None, newaxis=None, inf=float('inf'), nan=float('nan'),
    ndarray=SArr, float64=float, complex128=complex, int64=int, bool_=bool,
    zeros=zeros, ones=ones, eye=eye, identity=eye, array=array, asarray=asarray,
    empty=zeros, zeros_like=lambda a, **k: zeros(asarr(a).shape, asarr(a).dtype),
    ones_like=lambda a, **k: ones(asarr(a).shape),
    full=lambda s, v, dtype=None: full(s, A.lift(v), 'c'),
    arange=arange, linspace=linspace, fliplr=fliplr, flipud=flipud, flip=flip,
    rot90=rot90, diag=diag, outer=outer, where=where, concatenate=concatenate,
    vstack=vstack, hstack=hstack, sum=np_sum, prod=prod, shape=shape, ndim=ndim,
    cross=cross, reshape=reshape, meshgrid=meshgrid, tile=tile, ravel=ravel,
    dot=lambda a, b: A.dot(a, b) if is_arr(a) and is_arr(b) else a*b,
    matmul=matmul, copy=array, transpose=lambda a, axes=None: A.transpose(a, axes),
    sqrt=ew(F.sqrt), exp=ew(F.exp), cos=ew(E.cos), sin=ew(E.sin), tan=ew(F.tan),
    log=ew(F.log), arctan2=ew(F.arctan2), arccos=ew(F.arccos),
    arcsin=ew(F.arcsin), arctan=ew(F.arctan), sinc=ew(F.sinc),
    abs=ew(C.absolute), absolute=ew(C.absolute), fabs=ew(C.absolute),
    conj=ew(lambda v: E.conj(to_ex(v))), conjugate=ew(lambda v: E.conj(to_ex(v))),
    real=real, imag=imag, sign=ew(lambda v: to_ex(C.sign(v))),
    square=ew(lambda v: to_ex(v)*v), power=ew(lambda a, b: E.power(to_ex(a), E.to_exp(b))),
    mod=ew(C.mod), remainder=ew(C.mod),
    maximum=ew(lambda a, b: a if CTX.decide(as_cond(to_ex(a) >= b)) else b),
    minimum=ew(lambda a, b: a if CTX.decide(as_cond(to_ex(a) <= b)) else b),
    multiply=ew(lambda a, b: a*b), add=ew(lambda a, b: a+b),
    subtract=ew(lambda a, b: a-b), divide=ew(lambda a, b: a/b),
    hypot=ew(lambda a, b: F.sqrt(to_ex(a)*a+to_ex(b)*b)),
    radians=ew(lambda a: to_ex(a)*PI/180), deg2rad=ew(lambda a: to_ex(a)*PI/180),
    degrees=ew(lambda a: to_ex(a)*180/PI),
    max=np_max, min=np_min, amax=np_max, amin=np_min, isscalar=isscalar,
    any=lambda a: A.quant(a, 'any') if is_arr(a) else as_cond(a),
    all=lambda a: A.quant(a, 'all') if is_arr(a) else as_cond(a),
    atleast_2d=atleast_2d, linalg=LIN, random=RANDOM,
    logical_and=ew(lambda a, b: as_cond(a) & as_cond(b), 'b'),
    logical_or=ew(lambda a, b: as_cond(a) | as_cond(b), 'b'),
    seterr=lambda **k: None, float_=float,
    stack=stack, column_stack=column_stack, expand_dims=expand_dims, einsum=einsum, tensordot=tensordot,
    inner=inner, vdot=lambda a, b: A.dot(asarr(a).conj() if is_arr(a) else E.conj(to_ex(a)), b),
    full_like=full_like, empty_like=lambda a, dtype=None, **k: zeros(asarr(a).shape, asarr(a).dtype if dtype is None else dtype),
    broadcast_to=broadcast_to, repeat=repeat, roll=roll, squeeze=squeeze, trace=trace, clip=clip,
    cumsum=cumulative(lambda a, b: a+b), cumprod=cumulative(lambda a, b: a*b), array_equal=array_equal,
    mean=lambda a, axis=None: A.mean(a, axis), size=lambda a: asarr(a).size if is_arr(a) else 1,
    swapaxes=lambda a, i, j: asarr(a).swapaxes(i, j), diagonal=lambda a: diag(a),
    true_divide=ew(lambda a, b: a/b), negative=ew(lambda a: -to_ex(a)), reciprocal=ew(lambda a: 1/to_ex(a)),
    float_power=ew(lambda a, b: E.power(to_ex(a), E.to_exp(b))), floor_divide=ew(lambda a, b: C.floordiv(a, b)),
    rad2deg=ew(lambda a: to_ex(a)*180/PI), logical_not=ew(lambda a: C.c_not(as_cond(a)), 'b'),
 expm1=ew(lambda a: F.exp(a)-1), log1p=ew(lambda a: F.log(1+to_ex(a))),
    less=ew(lambda a, b: to_ex(a) < b, 'b'), greater=ew(lambda a, b: to_ex(a) > b, 'b'),
    less_equal=ew(lambda a, b: to_ex(a) <= b, 'b'), greater_equal=ew(lambda a, b: to_ex(a) >= b, 'b'),
    equal=ew(lambda a, b: as_cond(to_ex(a) == b), 'b'), not_equal=ew(lambda a, b: as_cond(to_ex(a) != b), 'b'),
    asanyarray=asarray, ascontiguousarray=asarray, errstate=lambda **k: _Null(), intp=int, int_=int, complex_=complex,
    count_nonzero=lambda a: np_sum(NP.not_equal(a, 0)), broadcast_arrays=lambda *a: [broadcast_to(x, A.bshape(*[asarr(y).shape for y in a])) for x in a],
    # quaternion-free helpers
    triu=lambda a, k=0: _tri(a, k, True), tril=lambda a, k=0: _tri(a, k, False),
)


class _Null:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def _tri(a, k, up):
    a = asarr(a)
    rd = a.snap()

    def base(q):
        i, j = to_ex(q[0]), to_ex(q[1])
        c = mk_cmp('le', i+k-j) if up else mk_cmp('le', j-i-k)
        return rd(q) if CTX.decide(c) else E.ZERO
    return SArr(a.shape, base, a.kind)


SP = _NS(
    _n='scipy.special', gammaln=ew(F.gammaln), comb=ew(F.comb), binom=ew(F.comb),
    factorial=lambda x, exact=False: ew(F.factorial)(x),
    gamma=ew(F.gamma), sph_harm=sph_harm, loggamma=ew(F.gammaln),
    spherical_in=ew(F.spherical_in),
    factorial2=None, lpmn=lpmn, hyp2f1=F.hyp2f1, ellipe=F.ellipe, ellipk=F.ellipk,
)
SLA = _NS(_n='scipy.linalg', toeplitz=toeplitz, hankel=hankel)
INTG = _NS(_n='scipy.integrate')
SCIPY = _NS(_n='scipy', special=SP, linalg=SLA, integrate=INTG)
MATH = _NS(_n='math', pi=PI, sqrt=F.sqrt, cos=E.cos, sin=E.sin, tan=F.tan,
           exp=F.exp, log=F.log, factorial=F.factorial, atan2=F.arctan2,
           acos=F.arccos, lgamma=F.gammaln, comb=F.comb, asin=F.arcsin, atan=F.arctan, fabs=C.absolute,
           hypot=lambda a, b: F.sqrt(to_ex(a)*a+to_ex(b)*b), pow=lambda a, b: E.power(to_ex(a), E.to_exp(b)),
           radians=lambda a: to_ex(a)*PI/180, degrees=lambda a: to_ex(a)*180/PI, gamma=F.gamma, inf=float('inf'), nan=float('nan'),
           prod=lambda xs, start=1: __import__('functools').reduce(lambda a, b: a*b, xs, to_ex(start)),
           floor=lambda v: v if isinstance(v, int) else (math.floor(to_ex(v).cval()) if to_ex(v).is_const() else (v if C.is_int_ex(v) else _unsup('floor'))),
           ceil=lambda v: v if isinstance(v, int) else (math.ceil(to_ex(v).cval()) if to_ex(v).is_const() else (v if C.is_int_ex(v) else _unsup('ceil'))))


def _unsup(w):
    raise Unsupported(w+' of a symbolic real')


class Stub:
    """recording stand-in for plotting / CAD libraries"""
    log = []

    def __init__(self, name='stub'):
        object.__setattr__(self, '_n', name)

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        return Stub(self._n+'.'+n)

    def __call__(self, *a, **k):
        Stub.log.append((self._n, a, k))
        return Stub(self._n+'()')

    def __setattr__(self, n, v):
        Stub.log.append((self._n+'.'+n+'=', (v,), {}))


def module(name, fromlist):
    if name == 'numpy':
        return NP
    if name == 'numpy.linalg':
        return LIN if fromlist else NP
    if name.startswith('numpy.polynomial'):
        m = _NS(_n='numpy.polynomial.legendre', leggauss=leggauss)
        if fromlist:
            if name == 'numpy.polynomial':
                return _NS(_n=name, legendre=m)
            return m
        NP.polynomial = _NS(_n='numpy.polynomial', legendre=m)
        return NP
    if name == 'numpy.random':
        return RANDOM if fromlist else NP
    if name == 'scipy.special':
        return SP if fromlist else SCIPY
    if name == 'scipy.linalg':
        return SLA if fromlist else SCIPY
    if name == 'scipy.integrate':
        return INTG if fromlist else SCIPY
    if name == 'scipy':
        return SCIPY
    if name == 'math':
        return MATH
    if name.split('.')[0] in ('matplotlib', 'mpl_toolkits', 'cadquery', 'stl',
                              'cqkit', 'OCP', 'h5py', 'pandas'):
        return Stub(name)
    return None


def leggauss(n):
    """nodes/weights as symbols with the defining moment conditions (used by
    the Gauss-Legendre contracts)"""
    n = con(n)
    if 'leggauss' in HOOK:
        return HOOK['leggauss'](n)
    raise Unsupported('leggauss')


HOOK = {}


NP.polynomial = _NS(_n='numpy.polynomial', legendre=_NS(_n='numpy.polynomial.legendre', leggauss=leggauss))
