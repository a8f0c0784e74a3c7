"""Arrays with symbolic extents, and the loop rule.

An array is a reader function plus a list of store records
    for params in ranges, when conds:   a[idx(params)]  :=  value   ('set')
                                     or a[idx(params)]  +=  value   ('add').
A loop over a symbolic range runs its body once, for a generic iteration, on
every path; the effects become store records quantified over the loop variable.
The inferred invariant is justified by three obligations checked here: the
initial state (trivial for the templates), preservation (the effect of the
generic iteration has the template's shape) and frame (different iterations do
not touch the same cell, unless both only add).
"""
import itertools
import math
from fractions import Fraction as Q
import numpy as np

from . import ex as E
from .ex import Ex, LF, ATOMS, DECL, EX_OF, Unsupported, atom, is_num, to_ex
from . import ctx as C
from .ctx import CTX, Cond, mk_cmp, c_and, c_not, cond_subs, cond_atoms, as_cond
from . import sums as S
from . import funcs as F

STAT = {'loops': 0, 'obl': 0}
SERIAL = [0]
LOOPS = []          # active symbolic loops


def con(v):
    """python int when constant"""
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, Ex) and v.is_const() and v.cval().denominator == 1:
        return int(v.cval())
    return v


def eqc(a, b):
    return mk_cmp('eq', to_ex(a)-to_ex(b))


class Rec:
    __slots__ = ('params', 'conds', 'idx', 'mode', 'val')

    def __init__(self, params, conds, idx, mode, val):
        self.params = params      # [(symbol atom id, count Ex)]
        self.conds = conds
        self.idx = idx
        self.mode = mode
        self.val = val            # Ex or callable(dict sym->Ex) -> Ex

    def value(self, env):
        if callable(self.val):
            return self.val(env)
        return E.subs(self.val, env)


def psym(name='p'):
    s = CTX.fresh(name, 'nat')
    return s, next(iter(s.d))[0][0]


def match(rec, q):
    """solve rec.idx(params) == q.  -> (env, free params, conditions)"""
    env = {}
    left = [p for p, _ in rec.params]
    eqs = [(i, to_ex(qq)) for i, qq in zip(rec.idx, q)]
    conds = []
    progress = True
    stuck = False
    while eqs and (progress or not stuck):
        stuck = not progress    # then solve for the innermost of several
        progress = False
        rest = []
        for i, qq in eqs:
            d = E.subs(to_ex(i), env)-qq if env else to_ex(i)-qq
            ps = [p for p in left if p in E.deep_atoms(d)]
            if not ps:
                conds.append(mk_cmp('eq', d))
                progress = True
                continue
            if len(ps) == 1 or (stuck and not progress and rec.mode == 'add'):
                p = ps[-1]
                m1 = ((p, 1),)
                if m1 in d.d and sum(1 for m in d.d for a, _ in m
                                     if p in E.deep_atom_atoms(a)) == 1:
                    c = d.d[m1]
                    r = Ex({m: -k for m, k in d.d.items() if m != m1})
                    if abs(c) == 1:
                        env[p] = r*c
                    elif c.denominator == 1:
                        if c < 0:
                            c, r = -c, -r
                        s = C.floordiv(r, int(c))
                        env[p] = s
                        conds.append(mk_cmp('eq', s*c-r))
                    else:
                        raise Unsupported('fractional index')
                    env = {k: (E.subs(v, {p: env[p]}) if k != p else v)
                           for k, v in env.items()}
                    left.remove(p)
                    progress = True
                    continue
            rest.append((i, qq))
        eqs = rest
    if eqs:
        raise Unsupported('index pattern not invertible')
    return env, left, conds


def read_recs(recs, base, q):
    acc = E.ZERO
    for rec in reversed(recs):
        env, free, conds = match(rec, q)
        ok = True
        fc = []
        for c in conds:
            if not CTX.decide(c):
                ok = False
                break
        if not ok:
            continue
        for p, n in rec.params:
            if p in free:
                continue
            v = env[p]
            bounds = [mk_cmp('le', -v), mk_cmp('lt', v-E.subs(to_ex(n), env))]
            if free and any(cond_atoms(c) & set(free) for c in bounds):
                fc += [c for c in bounds if c.k != 'true']
                continue
            if not all(CTX.decide(c) for c in bounds):
                ok = False
                break
        if not ok:
            continue
        for c in rec.conds:
            c = cond_subs(c, env)
            if free and cond_atoms(c) & set(free):
                fc.append(c)
            elif not CTX.decide(c):
                ok = False
                break
        if not ok:
            continue
        if rec.mode == 'set':
            if free:
                raise Unsupported('store pattern with free parameter')
            return acc+rec.value(env)
        v = rec.value(env)
        if fc:
            v = v*S.iv(c_and(*fc))
        for p, n in reversed(rec.params):
            if p in free:
                v = S.mk_sum(p, E.subs(to_ex(n), env), v)
        acc = acc+v
    b = base(q)
    if not acc.d:
        return b
    return b+acc


def dense_shape(sh):
    n = 1
    for v in sh:
        if not isinstance(v, int):
            return False
        n *= v
    return n <= 40000


def all_idx(sh):
    return itertools.product(*[range(n) for n in sh])


def read_state(st, shape, q):
    recs, base, cells = st
    if cells is None:
        return read_recs(recs, base, q)
    q = [con(i) for i in q]
    if all(isinstance(i, int) for i in q):
        return cells[tuple(q)]

    def rec(pre, d):
        if d == len(q):
            return cells[tuple(pre)]
        return pick(q[d], [lambda j=j: rec(pre+[j], d+1) for j in range(shape[d])])
    return rec([], 0)


def lift(v):
    if isinstance(v, (Cond, Ex)):
        return v
    if isinstance(v, (bool, np.bool_)):
        return C.TRUE if v else C.FALSE
    return to_ex(v)


class SArr:
    __array_ufunc__ = None
    __array_priority__ = 2000

    def __init__(self, shape, base, kind='c', parent=None, vmap=None, name=None):
        self.shape = tuple(con(s) for s in shape)
        self.base = base
        self.kind = kind
        self.recs = []
        self.parent = parent
        self.vmap = vmap
        self.name = name
        SERIAL[0] += 1
        self.serial = SERIAL[0]
        self.cells = None
        self.shared = False
        self.frozen = False
        if parent is None and name is None and dense_shape(self.shape):
            self.cells = {q: base(list(q)) for q in all_idx(self.shape)}

    # ---- reading
    def read(self, q):
        if self.parent is not None:
            return self.parent.read(self.vmap(q))
        return read_state(self.state(), self.shape, q)

    def state(self):
        if self.cells is not None:
            self.shared = True
        return (self.recs, self.base, self.cells)

    def set_state(self, st):
        self.recs, self.base, self.cells = st
        self.shared = True

    def snap(self):
        """reader of the current contents"""
        if self.parent is not None:
            r = self.parent.snap()
            vm = self.vmap
            return lambda q: r(vm(q))
        st, sh = self.state(), self.shape
        return lambda q: read_state(st, sh, q)

    # ---- writing
    def root(self):
        return self if self.parent is None else self.parent.root()

    def add_rec(self, rec):
        if self.frozen:
            raise Unsupported('store into an array of an input list')
        for lp in LOOPS:
            lp.note_write(self)
        if self.cells is not None:
            q = [con(i) for i in rec.idx]
            if not rec.params and rec.mode == 'set' and not rec.conds and \
                    all(isinstance(i, int) for i in q):
                if self.shared:
                    self.cells = dict(self.cells)
                    self.shared = False
                self.cells[tuple(q)] = rec.value({})
                return
            cells, sh = self.cells, self.shape
            self.base = lambda q: read_state(([], None, cells), sh, q)
            self.cells = None
        self.recs = self.recs+[rec]

    def store(self, params, conds, q, mode, val):
        """store at index pattern q (in this array's own coordinates)"""
        if self.parent is not None:
            self.parent.store(params, conds, self.vmap(q), mode, val)
            return
        self.add_rec(Rec(params, conds, [to_ex(i) for i in q], mode, val))

    def assign_all(self, f):
        """self[...] = f(q)"""
        if dense_shape(self.shape):
            vals = [(q, f(list(q))) for q in all_idx(self.shape)]
            for q, v in vals:
                if isinstance(v, Cond):
                    v = v if self.kind == 'b' else to_ex(v)
                self.store([], [], list(q), 'set', v)
            return
        ps, env = [], []
        for n in self.shape:
            s, a = psym()
            ps.append((a, to_ex(n)))
            env.append(s)
        ids = [a for a, _ in ps]

        def val(m):
            return f([m[a] for a in ids])
        self.store(ps, [], env, 'set', val)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        r = 1
        for s in self.shape:
            r = r*s
        return con(r) if not isinstance(r, int) else r

    @property
    def T(self):
        return transpose(self)

    @property
    def dtype(self):
        return {'c': 'complex', 'f': 'float', 'i': 'int', 'b': 'bool'}[self.kind]

    def __len__(self):
        n = self.shape[0]
        if isinstance(n, int):
            return n
        raise Unsupported('builtin len of a symbolic extent')

    def __iter__(self):
        n = self.shape[0]
        if not isinstance(n, int):
            raise Unsupported('iteration over a symbolic extent')
        return iter([self[i] for i in range(n)])

    # ---- indexing
    def view_of(self, key):
        """(shape, map) for an index key"""
        if not isinstance(key, tuple):
            key = (key,)
        if any(k is Ellipsis for k in key):
            i = [j for j, k in enumerate(key) if k is Ellipsis][0]
            n = self.ndim-sum(1 for k in key if k is not None and k is not Ellipsis)
            key = key[:i]+(slice(None),)*n+key[i+1:]
        used = sum(1 for k in key if k is not None)
        if used > self.ndim:
            raise IndexError('too many indices for array')
        key = key+(slice(None),)*(self.ndim-used)
        shape, plan, d = [], [], 0
        for k in key:
            if k is None:
                shape.append(1)
                plan.append(None)
                continue
            n = self.shape[d]
            if isinstance(k, slice):
                st, step, cnt = slice_of(k, n)
                shape.append(cnt)
                plan.append(('s', st, step))
            else:
                plan.append(('i', norm_index(k, n)))
            d += 1

        def vmap(q):
            q = list(q)
            out = []
            for p in plan:
                if p is None:
                    q.pop(0)
                elif p[0] == 'i':
                    out.append(p[1])
                else:
                    j = q.pop(0)
                    out.append(p[1]+j*p[2] if p[2] != 1 or con(p[1]) != 0 else j)
            return out
        return shape, vmap

    def __getitem__(self, key):
        ks = key if isinstance(key, tuple) else (key,)
        if any(isinstance(k, (FIdx,)) for k in ks):
            return fidx_get(self, ks)
        if any(isinstance(k, (SArr, np.ndarray, list)) for k in ks):
            return adv_get(self, ks)
        shape, vmap = self.view_of(key)
        if not shape:
            return self.read(vmap([]))
        return SArr(shape, None, self.kind, parent=self, vmap=vmap)

    def __setitem__(self, key, v):
        ks = key if isinstance(key, tuple) else (key,)
        if any(isinstance(k, (SArr, np.ndarray, list, FIdx)) for k in ks):
            return adv_set(self, ks, v)
        shape, vmap = self.view_of(key)
        if not shape:
            if is_arr(v):
                v = asarr(v)
                if any(con(s) != 1 for s in v.shape):
                    raise ValueError('setting an array element with a sequence.')
                v = v.read([0]*v.ndim)
            v = lift(v)
            if isinstance(v, Cond):
                v = to_ex(v)
            if self.kind in 'fi' and not C.is_real(v):
                raise TypeError("can't convert complex to float")
            self.store([], [], vmap([]), 'set', v)
            return
        tgt = SArr(shape, None, self.kind, parent=self, vmap=vmap)
        if isinstance(v, SArr) and v.parent is tgt.parent is self and False:
            pass
        f = bcast_reader(v, shape)
        tgt.assign_all(f)

    # ---- arithmetic
    def _bin(self, o, op, kind=None):
        return elementwise(op, self, o, kind=kind)

    def __add__(self, o): return self._bin(o, lambda a, b: a+b)
    def __radd__(self, o): return elementwise(lambda a, b: a+b, o, self)
    def __sub__(self, o): return self._bin(o, lambda a, b: a-b)
    def __rsub__(self, o): return elementwise(lambda a, b: a-b, o, self)
    def __mul__(self, o): return self._bin(o, lambda a, b: a*b)
    def __rmul__(self, o): return elementwise(lambda a, b: a*b, o, self)
    def __truediv__(self, o): return self._bin(o, lambda a, b: a/b)
    def __rtruediv__(self, o): return elementwise(lambda a, b: a/b, o, self)
    def __pow__(self, o): return self._bin(o, lambda a, b: E.power(to_ex(a), E.to_exp(b)))
    def __rpow__(self, o): return elementwise(lambda a, b: E.power(to_ex(a), E.to_exp(b)), o, self)
    def __mod__(self, o): return self._bin(o, lambda a, b: C.mod(a, b))
    def __floordiv__(self, o): return self._bin(o, lambda a, b: C.floordiv(a, b))
    def __neg__(self): return elementwise(lambda a: -a, self)
    def __pos__(self): return self
    def __abs__(self): return elementwise(C.absolute, self)
    def __lt__(self, o): return self._bin(o, lambda a, b: a < b, 'b')
    def __le__(self, o): return self._bin(o, lambda a, b: a <= b, 'b')
    def __gt__(self, o): return self._bin(o, lambda a, b: a > b, 'b')
    def __ge__(self, o): return self._bin(o, lambda a, b: a >= b, 'b')
    def __eq__(self, o): return self._bin(o, lambda a, b: a == b, 'b')
    def __ne__(self, o): return self._bin(o, lambda a, b: a != b, 'b')
    def __and__(self, o): return self._bin(o, lambda a, b: as_cond(a) & as_cond(b), 'b')
    def __or__(self, o): return self._bin(o, lambda a, b: as_cond(a) | as_cond(b), 'b')
    def __invert__(self): return elementwise(lambda a: c_not(as_cond(a)), self, kind='b')
    __hash__ = object.__hash__

    def _inplace(self, o, op):
        f = bcast_reader(o, self.shape)
        me = self.snap()
        self.assign_all(lambda q: op(me(q), f(q)))
        return self

    def __iadd__(self, o):
        if hasattr(o, '_vc_into'):
            return o._vc_into(self, 1)
        return self._inplace(o, lambda a, b: a+b)

    def __isub__(self, o):
        if hasattr(o, '_vc_into'):
            return o._vc_into(self, -1)
        return self._inplace(o, lambda a, b: a-b)

    def all_zero(self):
        """no entry was ever set to anything but zero"""
        if self.parent is not None or self.recs or LOOPS:
            return False
        if self.cells is not None:
            return all(E.is_zero(to_ex(v)) for v in self.cells.values())
        return E.is_zero(to_ex(self.base([E.sym(f'z{i}~', 'nat') for i in range(len(self.shape))])))

    def __imul__(self, o): return self._inplace(o, lambda a, b: a*b)
    def __itruediv__(self, o): return self._inplace(o, lambda a, b: a/b)

    def __ipow__(self, o): return self._inplace(o, lambda a, b: E.power(to_ex(a), E.to_exp(b)))

    # ---- methods
    def conj(self): return elementwise(E.conj, self)
    conjugate = conj

    def copy(self): return copy(self)

    def astype(self, t, copy=True): return globals()['copy'](self)

    @property
    def real(self): return elementwise(lambda a: to_ex(a).real, self)

    @property
    def imag(self): return elementwise(lambda a: to_ex(a).imag, self)

    def sum(self, axis=None, keepdims=False, dtype=None): return asum(self, axis, keepdims)

    def mean(self, axis=None): return mean(self, axis)

    def any(self): return quant(self, 'any')

    def all(self): return quant(self, 'all')

    def dot(self, o):
        return dot(self, o)

    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (list, tuple)):
            axes = axes[0]
        return transpose(self, list(axes) or None)

    def swapaxes(self, i, j):
        ax = list(range(self.ndim))
        ax[i], ax[j] = ax[j], ax[i]
        return transpose(self, ax)

    def fill(self, v):
        self[...] = v

    def reshape(self, *sh):
        from . import shim
        return shim.reshape(self, sh[0] if len(sh) == 1 else sh)

    def ravel(self):
        from . import shim
        return shim.ravel(self)

    def flatten(self):
        from . import shim
        return copy(shim.ravel(self))

    def max(self, axis=None):
        from . import shim
        return shim.np_max(self, axis)

    def min(self, axis=None):
        from . import shim
        return shim.np_min(self, axis)


def is_arr(v):
    return isinstance(v, (SArr, np.ndarray, list, tuple, FArr))


def asarr(v):
    if isinstance(v, SArr):
        return v
    if isinstance(v, FArr):
        raise Unsupported('filtered array in an unfiltered context')
    if isinstance(v, np.ndarray):
        if v.ndim == 0:
            return v.item()
        vals = v

        def base(q):
            return concrete_read(vals, list(q))
        k = v.dtype.kind
        return SArr(v.shape, base, 'c' if k in 'Oc' else ('b' if k == 'b' else 'f'))
    if isinstance(v, (list, tuple)):
        items = [asarr(i) if is_arr(i) else i for i in v]
        if items and all(isinstance(i, SArr) for i in items):
            sh = items[0].shape
            for i in items[1:]:
                if len(i.shape) != len(sh):
                    raise ValueError('inhomogeneous shape')
                for a, b in zip(i.shape, sh):
                    if not CTX.decide(eqc(a, b)):
                        raise ValueError('inhomogeneous shape')
            rd = [i.snap() for i in items]

            def base(q):
                return pick(q[0], [lambda r=r: r(q[1:]) for r in rd])
            return SArr((len(items),)+tuple(sh), base)
        vals = [lift(i) for i in items]
        return SArr((len(vals),), lambda q: pick(q[0], [lambda v=v: v for v in vals]),
                    'b' if vals and all(isinstance(x, Cond) for x in vals) else 'c')
    raise Unsupported('array from '+type(v).__name__)


def pick(i, thunks):
    i = con(i)
    if isinstance(i, int):
        return thunks[i]()
    for j in range(len(thunks)-1):
        if CTX.decide(eqc(i, j)):
            return thunks[j]()
    return thunks[-1]()


def concrete_read(vals, q):
    if not q:
        return lift(vals if not isinstance(vals, np.ndarray) else vals.item())
    return pick(q[0], [lambda j=j: concrete_read(vals[j], q[1:])
                       for j in range(len(vals))])


def norm_index(k, n):
    if isinstance(k, Cond):
        raise Unsupported('boolean index')
    k = con(k)
    if isinstance(k, (float, Q)):
        raise IndexError('non-integer index')
    if isinstance(k, int):
        if isinstance(n, int):
            if k < -n or k >= n:
                raise IndexError(f'index {k} is out of bounds for size {n}')
            return k % n if n else k
        if k < 0:
            if not CTX.decide(mk_cmp('le', -(n+k))):
                raise IndexError('index out of bounds')
            return n+k
        if not CTX.decide(mk_cmp('lt', k-n)):
            raise IndexError('index out of bounds')
        return k
    kx = to_ex(k)
    if kx.is_const():
        raise IndexError('only integers are valid indices')
    if not CTX.decide(mk_cmp('le', -kx)):
        kx = kx+n
        if not CTX.decide(mk_cmp('le', -kx)):
            raise IndexError('index out of bounds')
    if not CTX.decide(mk_cmp('lt', kx-n)):
        raise IndexError('index out of bounds')
    return con(kx)


def slice_of(k, n):
    """python slice semantics -> (start, step, count)"""
    step = con(k.step) if k.step is not None else 1
    if not isinstance(step, int) or step == 0:
        raise Unsupported('symbolic slice step')

    def clamp(v, lo, hi):
        # v possibly negative -> v+n, then clamp to [lo, hi]
        v = con(v)
        if isinstance(v, int) and isinstance(n, int):
            if v < 0:
                v += n
            return max(lo, min(v, hi))
        x = to_ex(v)
        if not CTX.decide(mk_cmp('le', -x)):
            x = x+n
        if CTX.decide(mk_cmp('lt', x-lo)):
            return lo
        if not CTX.decide(mk_cmp('le', x-hi)):
            return hi
        return con(x)
    if step > 0:
        st = 0 if k.start is None else clamp(k.start, 0, n)
        en = n if k.stop is None else clamp(k.stop, 0, n)
        span = to_ex(en)-st
    else:
        st = n-1 if k.start is None else clamp(k.start, -1, n-1)
        en = -1 if k.stop is None else clamp(k.stop, -1, n-1)
        span = to_ex(st)-en
    s = abs(step)
    cnt = span if s == 1 else C.floordiv(span+(s-1), s)
    cnt = to_ex(cnt)
    if cnt.is_const():
        cnt = max(0, int(cnt.cval()))
    elif not CTX.decide(mk_cmp('le', -cnt)):
        cnt = 0
    return st, step, con(cnt)


def bshape(*shapes):
    r = max(len(s) for s in shapes)
    out = []
    for d in range(r):
        n = 1
        for s in shapes:
            j = d-(r-len(s))
            if j < 0:
                continue
            v = s[j]
            if isinstance(v, int) and v == 1:
                continue
            if isinstance(n, int) and n == 1:
                n = v
                continue
            if isinstance(n, int) and isinstance(v, int):
                if n != v:
                    raise ValueError('operands could not be broadcast together')
                continue
            if CTX.decide(eqc(n, v)):
                if isinstance(v, int):
                    n = v
                continue
            if CTX.decide(eqc(n, 1)):
                n = v
                continue
            if CTX.decide(eqc(v, 1)):
                continue
            raise ValueError('operands could not be broadcast together')
        out.append(n)
    return tuple(out)


def bcast_reader(v, shape):
    """reader of v broadcast to `shape`"""
    if isinstance(v, FArr):
        raise Unsupported('filtered array stored into an unfiltered one')
    if not is_arr(v):
        v = lift(v)
        return lambda q: v
    v = asarr(v)
    if not isinstance(v, SArr):
        v = lift(v)
        return lambda q: v
    while len(v.shape) > len(shape) and v.shape[0] == 1:
        v = v[0]
    if len(v.shape) > len(shape):
        raise ValueError('could not broadcast input array')
    off = len(shape)-len(v.shape)
    one = []
    for j, n in enumerate(v.shape):
        m = shape[off+j]
        if isinstance(n, int) and n == 1:
            one.append(True)
            continue
        if isinstance(n, int) and isinstance(m, int):
            if n != m:
                raise ValueError('could not broadcast input array')
            one.append(False)
            continue
        if CTX.decide(eqc(n, m)):
            one.append(False)
        elif CTX.decide(eqc(n, 1)):
            one.append(True)
        else:
            raise ValueError('could not broadcast input array')
    rd = v.snap()
    return lambda q: rd([0 if o else i for o, i in zip(one, q[off:])])


def elementwise(op, *args, kind=None):
    if any(isinstance(a, FArr) for a in args):
        return f_elementwise(op, *args)
    shapes = []
    conv = []
    for a in args:
        if is_arr(a):
            a = asarr(a)
        if isinstance(a, SArr):
            shapes.append(a.shape)
        conv.append(a)
    if not shapes:
        return op(*[lift(a) for a in conv])
    sh = bshape(*shapes)
    rds = []
    for a in conv:
        if isinstance(a, SArr):
            off = len(sh)-len(a.shape)
            one = []
            for j, n in enumerate(a.shape):
                m = sh[off+j]
                one.append(isinstance(n, int) and n == 1 and not (isinstance(m, int) and m == 1)
                           or (not isinstance(n, int) and not _same(n, m)))
            rd = a.snap()
            rds.append(lambda q, rd=rd, one=one, off=off:
                       rd([0 if o else i for o, i in zip(one, q[off:])]))
        else:
            v = lift(a)
            rds.append(lambda q, v=v: v)
    memo = {}

    def base(q):
        k = tuple(i if isinstance(i, int) else to_ex(i) for i in q)
        return op(*[r(q) for r in rds])
    return SArr(sh, base, kind or 'c')


def _same(n, m):
    return CTX.implied(eqc(n, m))


def copy(a):
    if not is_arr(a):
        return a
    a = asarr(a)
    if not isinstance(a, SArr):
        return a
    rd = a.snap()
    return SArr(a.shape, rd, a.kind)


def transpose(a, axes=None):
    a = asarr(a)
    if axes is None:
        axes = list(range(a.ndim))[::-1]
    axes = [int(x) for x in axes]

    def vmap(q):
        out = [None]*len(axes)
        for j, ax in enumerate(axes):
            out[ax] = q[j]
        return out
    return SArr([a.shape[x] for x in axes], None, a.kind, parent=a, vmap=vmap)


def sum_over(n, f, name='s'):
    """sum_{k<n} f(k) as an Ex; f may branch on k"""
    n = con(n)
    if isinstance(n, int) and n <= 64:
        t = E.ZERO
        for k in range(n):
            t = t+f(k)
        return t
    if not isinstance(n, int) and not CTX.decide(mk_cmp('le', 1-to_ex(n))):
        return E.ZERO
    k, ka = psym(name)

    def run():
        CTX.frames[-1].syms.add(ka)
        CTX.assume(mk_cmp('lt', k-n))
        return to_ex(f(k))
    res = CTX.explore(run)
    tot = E.ZERO
    for pc, r, syms in res:
        if r[0] == 'raise':
            raise r[1]
        v = r[1]
        if not v.d:
            continue
        extra = [c for c in pc if c.key() != mk_cmp('lt', k-n).key()]
        v = subst_eqs(v, extra)
        for c in extra:
            v = v*S.iv(c)
        tot = tot+v
    return S.mk_sum(ka, n, tot)


def subst_eqs(v, conds):
    return v


def row_total(a, lead):
    """sum over the last axis of a[lead + [.]].  An array that was only added
    to since its base contents (every store is in range, as checked when it
    was made) sums to its base plus the sum of all the adds."""
    n = a.shape[-1]
    if a.parent is not None or a.cells is not None or \
            any(r.mode != 'add' for r in a.recs):
        return sum_over(n, lambda i: a.read(lead+[i]))
    tot = sum_over(n, lambda i: to_ex(a.base(lead+[i])))
    for rec in a.recs:
        cs = [eqc(i, q) for i, q in zip(rec.idx, lead)]+list(rec.conds)
        v = to_ex(rec.value({p: E.atom_ex(p, 1) for p, _ in rec.params}))*S.iv(c_and(*cs))
        for p, k in reversed(rec.params):
            v = S.mk_sum(p, to_ex(k), v)
        tot = tot+v
    return tot


def asum(a, axis=None, keepdims=False):
    if isinstance(a, FArr):
        return a.sum(axis)
    a = asarr(a)
    rd = a.snap()
    toe = lambda v: (S.iv(v) if isinstance(v, Cond) else to_ex(v))
    if axis is None and keepdims:
        raise Unsupported('keepdims of a full sum')
    if axis is None:
        def rec(pre, d):
            if d == a.ndim:
                return toe(rd(pre))
            return sum_over(a.shape[d], lambda k: rec(pre+[k], d+1))
        return rec([], 0)
    if isinstance(axis, tuple):
        r = a
        for x in sorted((int(x) % a.ndim for x in axis), reverse=True):
            r = asum(r, x, keepdims) if isinstance(r, SArr) else r
        return r
    axis = int(axis) % a.ndim
    if keepdims:
        r = asum(a, axis)
        ks = [slice(None)]*a.ndim
        ks[axis] = None
        return r[tuple(ks)] if isinstance(r, SArr) else SArr([1], lambda q: r)
    sh = [s for j, s in enumerate(a.shape) if j != axis]

    def base(q):
        return sum_over(a.shape[axis], lambda k: toe(rd(q[:axis]+[k]+q[axis:])))
    if not sh:
        return base([])
    return SArr(sh, lambda q: base(list(q)))


def mean(a, axis=None):
    a = asarr(a)
    n = a.size if axis is None else a.shape[axis]
    return asum(a, axis)/to_ex(n)


def matmul(a, b):
    if not is_arr(a) or not is_arr(b):
        raise ValueError('matmul of a scalar')
    if asarr(a).ndim > 2 or asarr(b).ndim > 2:
        raise Unsupported('matmul of stacked matrices')
    return dot(a, b)


def dot(a, b):
    if not is_arr(a) or not is_arr(b):
        return elementwise(lambda x, y: x*y, a, b)
    a, b = asarr(a), asarr(b)
    if not isinstance(a, SArr) or not isinstance(b, SArr):
        return a*b
    ra, rb = a.snap(), b.snap()
    na = a.shape[-1]
    nb = b.shape[-2] if b.ndim > 1 else b.shape[0]
    if not CTX.decide(eqc(na, nb)):
        raise ValueError('shapes not aligned')
    sh = list(a.shape[:-1])+list(b.shape[:-2])+(list(b.shape[-1:]) if b.ndim > 1 else [])
    da = a.ndim-1

    def base(q):
        q = list(q)
        qa, qb = q[:da], q[da:]
        return sum_over(na, lambda k: ra(qa+[k])*rb(qb[:-1]+[k]+qb[-1:] if b.ndim > 1 else [k]))
    if not sh:
        return base([])
    return SArr(sh, base)


def quant(a, how):
    """any()/all() of a boolean array as a decided condition"""
    a = asarr(a)
    if a.ndim != 1:
        raise Unsupported('any/all on a matrix')
    n = a.shape[0]
    rd = a.snap()
    if isinstance(n, int):
        cs = [as_cond(rd([i])) for i in range(n)]
        return C.c_or(*cs) if how == 'any' else c_and(*cs)
    k = E.sym('@q', 'nat')
    c = as_cond(rd([k]))
    # opaque quantified condition; when it is false for 'any' the negation holds
    # for every element
    return QCond(how, c, n)


def QCond(how, c, n):
    if how == 'all':
        return c_not(QCond('any', c_not(c), n))
    q = Cond('op', 'exists', c, to_ex(n))
    QUANT[q.key()] = (c, n)
    return q


QUANT = {}


def quant_facts(idx):
    """instances at index idx of the universally quantified path facts"""
    sa = atom('s', '@q')
    for p in CTX.pcs():
        if p.k == 'not' and p.a[0].k == 'op' and p.a[0].a[0] == 'exists':
            c, n = QUANT[p.a[0].key()]
            CTX.assume(c_not(cond_subs(c, {sa: to_ex(idx)})))


# ----------------------------------------------------- filtered index sets
class FIdx:
    """np.where(cond)[0] over a symbolic extent"""

    def __init__(self, cond, n):
        self.cond = cond       # index -> Cond
        self.n = n
        self.shape = (Cnt(self),)

    def __len__(self):
        raise Unsupported('size of a filtered index set')


class Cnt:
    def __init__(self, f):
        self.f = f


class FArr:
    """array indexed by a filtered index set (leading axis)"""
    __array_ufunc__ = None
    __array_priority__ = 3000

    def __init__(self, ids, rd, rest=()):
        self.ids = ids
        self.rd = rd           # full index list (leading = original index)
        self.rest = tuple(rest)

    @property
    def ndim(self):
        return 1+len(self.rest)

    def __getitem__(self, key):
        if not isinstance(key, tuple) or hasattr(key, 'is_row'):
            key = (key,)
        rd = self.rd
        if hasattr(key[0], 'is_row'):
            from . import kept
            return kept.row_get(self, key)
        if isinstance(key[0], FArr) and len(key) == 1 and key[0].ids is self.ids and hasattr(self.ids, 'narrowed'):
            m = key[0].rd
            return FArr(self.ids.narrowed(lambda q: CTX.decide(as_cond(m([q])))), rd, self.rest)
        if not (isinstance(key[0], slice) and key[0] == slice(None)):
            raise Unsupported('indexing a filtered array')
        if len(key) == 1:
            return FArr(self.ids, rd, self.rest)
        if len(key) == 2 and len(self.rest) == 1:
            if isinstance(key[1], slice):
                lo, st, m = slice_of(key[1], self.rest[0])
                return FArr(self.ids, lambda q: rd([q[0], to_ex(lo)+to_ex(st)*to_ex(q[1])]), [m])
            j = norm_index(key[1], self.rest[0])
            return FArr(self.ids, lambda q: rd([q[0], j]))
        raise Unsupported('indexing a filtered array')

    def __setitem__(self, key, v):
        ks = key if isinstance(key, tuple) else (key,)
        if not (isinstance(ks[0], slice) and ks[0] == slice(None)):
            raise Unsupported('store into a filtered array')
        old = self.rd
        if len(ks) == 1:
            hit = lambda q: q[1:]
            rest = self.rest
        elif len(ks) == 2 and len(self.rest) == 1:
            if isinstance(ks[1], slice):
                lo, st, m = slice_of(ks[1], self.rest[0])
                lo, st, m = (int(con(to_ex(x))) for x in (lo, st, m))
                rest = (m,)

                def hit(q):
                    j = int(con(to_ex(q[1])))
                    return [(j-lo)//st] if (j-lo) % st == 0 and 0 <= (j-lo)//st < m else None
            else:
                j0 = int(con(to_ex(norm_index(ks[1], self.rest[0]))))
                rest = ()

                def hit(q):
                    return [] if int(con(to_ex(q[1]))) == j0 else None
        else:
            raise Unsupported('store into a filtered array')
        if isinstance(v, FArr):
            if v.ids is not self.ids:
                raise Unsupported('arrays filtered differently')
            nv, vr = v.rd, v.rest
            f = lambda q, h: nv([q[0]]+list(h[len(h)-len(vr):]))
        elif is_arr(v):
            a = asarr(v)
            if a.ndim > len(rest):
                raise Unsupported('store of an unfiltered array')
            nv = a.snap()
            f = lambda q, h: nv(list(h[len(h)-a.ndim:]))
        else:
            x = lift(v)
            f = lambda q, h: x

        def rd(q):
            h = hit(q)
            return old(q) if h is None else f(q, h)
        self.rd = rd

    def sum(self, axis=None):
        if self.rest:
            if axis in (1, -1) and len(self.rest) == 1:
                return FArr(self.ids, lambda q: sum_over(self.rest[0], lambda j: to_ex(self.rd([q[0], j]))))
            if axis not in (0,):
                raise Unsupported('sum of a filtered matrix')
            return SArr(self.rest, lambda q: FArr(
                self.ids, lambda p: self.rd([p[0]]+list(q))).sum())
        if hasattr(self.ids, 'total'):
            return self.ids.total(lambda k: self.rd([k]))

        def f(k):
            if CTX.decide(self.ids.cond(k)):
                return to_ex(self.rd([k]))
            return E.ZERO
        return sum_over(self.ids.n, f)

    def __add__(self, o): return f_elementwise(lambda a, b: a+b, self, o)
    def __radd__(self, o): return f_elementwise(lambda a, b: a+b, o, self)
    def __sub__(self, o): return f_elementwise(lambda a, b: a-b, self, o)
    def __rsub__(self, o): return f_elementwise(lambda a, b: a-b, o, self)
    def __mul__(self, o): return f_elementwise(lambda a, b: a*b, self, o)
    def __rmul__(self, o): return f_elementwise(lambda a, b: a*b, o, self)
    __imul__ = __mul__
    __iadd__ = __add__
    def __truediv__(self, o): return f_elementwise(lambda a, b: a/b, self, o)
    def __rtruediv__(self, o): return f_elementwise(lambda a, b: a/b, o, self)
    __itruediv__ = __truediv__
    def __pow__(self, o): return f_elementwise(lambda a, b: E.power(to_ex(a), E.to_exp(b)), self, o)
    def __mod__(self, o): return f_elementwise(lambda a, b: C.mod(a, b), self, o)
    def __neg__(self): return f_elementwise(lambda a: -a, self)
    def __abs__(self): return f_elementwise(C.absolute, self)
    def __lt__(self, o): return f_elementwise(lambda a, b: a < b, self, o)
    def __le__(self, o): return f_elementwise(lambda a, b: a <= b, self, o)
    def __gt__(self, o): return f_elementwise(lambda a, b: a > b, self, o)
    def __ge__(self, o): return f_elementwise(lambda a, b: a >= b, self, o)
    def __and__(self, o): return f_elementwise(lambda a, b: as_cond(a) & as_cond(b), self, o)
    def __or__(self, o): return f_elementwise(lambda a, b: as_cond(a) | as_cond(b), self, o)
    def __ne__(self, o): return f_elementwise(lambda a, b: a != b, self, o)
    def __eq__(self, o): return f_elementwise(lambda a, b: a == b, self, o)
    __hash__ = object.__hash__

    def conj(self): return f_elementwise(E.conj, self)
    conjugate = conj


def f_elementwise(op, *args):
    ids = None
    for a in args:
        if isinstance(a, FArr):
            if ids is None:
                ids = a.ids
            elif ids is not a.ids:
                raise Unsupported('arrays filtered differently')
    rds = []
    rest = ()
    for a in args:
        if isinstance(a, FArr):
            rds.append(a.rd)
            if a.rest:
                rest = a.rest
        elif is_arr(a):
            a = asarr(a)
            # same length only when the filter keeps everything
            n = a.shape[0]
            k = E.sym('@q', 'nat')
            allkept = QCond('all', ids.cond(k), ids.n)
            if CTX.decide(eqc(n, ids.n)) and CTX.decide(allkept):
                rds.append(a.snap())
            else:
                raise ValueError('operands could not be broadcast together')
        else:
            v = lift(a)
            rds.append(lambda q, v=v: v)

    def rd(q):
        return op(*[r(q) for r in rds])
    return FArr(ids, rd, rest)


def fidx_get(a, ks):
    ids = ks[0]
    if not isinstance(ids, FIdx):
        raise Unsupported('filtered index in a later position')
    rd = a.snap()
    if a.ndim == 1:
        return FArr(ids, rd)
    rest = []
    plan = []
    for d in range(1, a.ndim):
        k = ks[d] if d < len(ks) else slice(None)
        if isinstance(k, slice):
            if k != slice(None):
                raise Unsupported('slice of a filtered array')
            rest.append(a.shape[d])
            plan.append(None)
        else:
            plan.append(norm_index(k, a.shape[d]))

    def g(q):
        q = list(q)
        out = [q.pop(0)]
        for p in plan:
            out.append(q.pop(0) if p is None else p)
        return rd(out)
    return FArr(ids, g, rest)


def adv_get(a, ks):
    """boolean mask or integer-array indexing on the leading axis"""
    k = ks[0]
    if isinstance(k, (list, np.ndarray)):
        k = asarr(k)
    if isinstance(k, SArr) and k.kind == 'b' and len(ks) == 1 and k.ndim == 1:
        ids = FIdx(lambda i, r=k.snap(): as_cond(r([i])), k.shape[0])
        return fidx_get(a, (ids,))
    if isinstance(k, SArr) and k.kind == 'b' and len(ks) == 2 and k.ndim == 1:
        ids = FIdx(lambda i, r=k.snap(): as_cond(r([i])), k.shape[0])
        return fidx_get(a, (ids,)+tuple(ks[1:]))
    if len(ks) <= a.ndim and sum(isinstance(x, (SArr, list, np.ndarray)) for x in ks) == 1:
        pos = [i for i, x in enumerate(ks) if isinstance(x, (SArr, list, np.ndarray))][0]
        kk = asarr(ks[pos])
        if kk.kind == 'b' or kk.ndim != 1:
            raise Unsupported('index array')
        rd, ri = a.snap(), kk.snap()
        ks = list(ks)+[slice(None)]*(a.ndim-len(ks))
        shape, plan = [], []
        for d, x in enumerate(ks):
            if d == pos:
                shape.append(kk.shape[0])
                plan.append('a')
            elif isinstance(x, slice):
                st, step, cnt = slice_of(x, a.shape[d])
                shape.append(cnt)
                plan.append((st, step))
            else:
                plan.append(norm_index(x, a.shape[d]))

        def base(q):
            q = list(q)
            out = []
            for d, p in enumerate(plan):
                if isinstance(p, str) and p == 'a':
                    out.append(norm_index(ri([q.pop(0)]), a.shape[d]))
                elif isinstance(p, tuple):
                    out.append(p[0]+q.pop(0)*p[1])
                else:
                    out.append(p)
            return rd(out)
        return SArr(shape, base, a.kind)
    raise Unsupported('advanced indexing')


def adv_set(a, ks, v):
    k = ks[0]
    if len(ks) == 1 and isinstance(k, SArr) and k.kind == 'b' and k.ndim == a.ndim:
        m = k.snap()
        me = a.snap()
        f = bcast_reader(v, a.shape) if not is_arr(v) else None
        if f is None:
            raise Unsupported('masked assignment of an array')
        a.assign_all(lambda q: f(q) if CTX.decide(as_cond(m(q))) else me(q))
        return
    if len(ks) == 1 and isinstance(k, FIdx):
        f = bcast_reader(v, a.shape)
        me = a.snap()
        a.assign_all(lambda q: f(q) if CTX.decide(k.cond(q[0])) else me(q))
        return
    raise Unsupported('advanced assignment')


# ------------------------------------------------------------------ loop rule
class SymRange:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __iter__(self):
        raise E.Structure('iteration over a symbolic range outside a statement loop')

    def __len__(self):
        raise Unsupported('len of a symbolic range')

    def count(self):
        lo, hi, st = to_ex(self.lo), to_ex(self.hi), self.step
        if st == 1:
            return hi-lo
        if st == -1:
            return lo-hi
        if st > 0:
            return C.floordiv(hi-lo+(st-1), st)
        return C.floordiv(lo-hi+(-st-1), -st)


class SymSeq:
    """a sequence of symbolic length whose element k is item(k)"""

    def __init__(self, n, item):
        self.n, self.item = n, item

    def __iter__(self):
        raise Unsupported('iteration over a symbolic extent')

    def __len__(self):
        raise Unsupported('len of a symbolic sequence')


def seq_of(it):
    """the sequence behind an iterable of symbolic length, or None"""
    if isinstance(it, SymSeq):
        return it
    if isinstance(it, SymRange) and not isinstance(it, SymStep):
        return SymSeq(it.count(), lambda k: con(to_ex(it.lo)+to_ex(k)*it.step))
    if isinstance(it, SArr) and not isinstance(con(to_ex(it.shape[0])), int):
        return SymSeq(it.shape[0], lambda k: it[k])
    if isinstance(it, SymList) and not isinstance(it.n, int):
        return SymSeq(it.n, lambda k: it[k])
    return None


def v_enumerate(it, start=0):
    s = seq_of(it)
    if s is None:
        import builtins
        return builtins.enumerate(it, start)
    return SymSeq(s.n, lambda k: (con(to_ex(k)+start), s.item(k)))


def v_zip(*its, **kw):
    ss = [seq_of(i) for i in its]
    if all(s is None for s in ss):
        import builtins
        return builtins.zip(*its, **kw)
    if any(s is None for s in ss) or kw:
        raise Unsupported('zip of a symbolic and a concrete sequence')
    n = ss[0].n
    for s in ss[1:]:
        if not CTX.decide(eqc(n, s.n)):
            if CTX.decide(mk_cmp('lt', to_ex(s.n)-to_ex(n))):
                n = s.n
    return SymSeq(n, lambda k: tuple(s.item(k) for s in ss))


def v_reversed(it):
    s = seq_of(it)
    if s is None:
        import builtins
        return builtins.reversed(it)
    return SymSeq(s.n, lambda k: s.item(con(to_ex(s.n)-1-to_ex(k))))


def vrange(*a):
    a = [con(v) for v in a]
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    for v in (lo, hi):
        if isinstance(v, (float, Q)):
            raise TypeError("'float' object cannot be interpreted as an integer")
    if all(isinstance(v, int) for v in (lo, hi, st)):
        return range(lo, hi, st)
    if not isinstance(st, int):
        if CTX.decide(mk_cmp('le', to_ex(st))):
            raise Unsupported('symbolic step not positive')
        return SymStep(lo, hi, st)
    if st == 0:
        raise ValueError('range() arg 3 must not be zero')
    r = SymRange(lo, hi, st)
    n = CTX.normal(r.count())
    if n.is_const():
        k = int(n.cval())
        return [con(to_ex(lo)+i*st) for i in range(max(0, k))]
    return r


class SymStep(SymRange):
    """range(0, hi, step) with a symbolic step: generic value = a multiple"""


class Poison:
    def __init__(self, name):
        self.name = name

    def _bad(self, *a, **k):
        raise Unsupported(f'value of {self.name} after a symbolic loop')
    __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = _bad
    __truediv__ = __rtruediv__ = __pow__ = __rpow__ = __getitem__ = _bad
    __bool__ = __iter__ = __len__ = __neg__ = __abs__ = __lt__ = __le__ = _bad
    __gt__ = __ge__ = __iadd__ = __imul__ = __call__ = _bad
    to_ex = _bad

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        self._bad()


class Loop:
    def __init__(self):
        self.start = SERIAL[0]
        self.written = {}
        self.read = {}

    def note_write(self, a):
        if a.serial <= self.start:
            self.written[id(a)] = a

    def note_read(self, a):
        if a.serial <= self.start:
            self.read[id(a)] = a


UID = [0]
LOOP_RULE = []          # see kept.py


def hv_atoms(x, uids):
    return [a for a in E.deep_atoms(x) if ATOMS[a][0] == 'hv' and ATOMS[a][1] in uids]


def do_loop(rng, body, get, put):
    """run `for v in rng: body(v)` symbolically.  body takes the loop value."""
    STAT['loops'] += 1
    if not isinstance(rng, SymRange):
        s = seq_of(rng)
        rng, inner = vrange(0, s.n), body
        body = lambda k: inner(s.item(k))       # noqa
        if not isinstance(rng, SymRange):
            for k in rng:
                body(k)
            return
    if LOOP_RULE and not isinstance(rng, SymStep) and rng.step == 1:
        return LOOP_RULE[-1](rng, body, get, put)
    if isinstance(rng, SymStep):
        n = None
        k = None
    else:
        n = rng.count()
        if not CTX.decide(mk_cmp('le', 1-n)):
            return          # empty range
    st0 = get()
    scal0 = {x: v for x, v in st0.items()}
    arrays0 = {}
    W, SW = {}, set()
    temps = set()
    for attempt in range(8):
        lp = Loop()
        out = _run_body(lp, rng, n, body, get, put, st0, W, SW)
        paths, newW, newS = out
        ends = [r[1][1] for _, r, _ in paths[3]]
        kind = _rebound(st0, newS-temps, ends, newW, lp)
        if kind and kind != 'peel':
            # not those that an iteration sets before it uses them
            for x in list(kind):
                try:
                    _run_body(Loop(), rng, n, body, get, put, st0, W, SW | {x})
                except Unsupported:
                    continue
                kind.remove(x)
                temps.add(x)
        if kind == 'peel' and n is not None:
            body(to_ex(rng.lo))
            rest = SymRange(to_ex(rng.lo)+rng.step, rng.hi, rng.step)
            m = CTX.normal(rest.count())
            if m.is_const():
                for i in range(int(m.cval())):
                    body(to_ex(rest.lo)+i*rng.step)
                return
            return do_loop(rest, body, get, put)
        if kind:
            st0 = dict(st0)
            for x in kind:
                ks = {e[x].kind for e in ends}-{st0[x].kind}
                st0[x] = copy(st0[x])
                if ks:
                    st0[x].kind = ks.pop()
            put(st0)
            body = _in_place(body, get, put, kind)
            W, SW = {}, set()
            continue
        if set(newW) <= set(W) and newS <= SW:
            break
        W.update(newW)
        SW |= newS
    else:
        raise Unsupported('loop state does not stabilise')
    _close(rng, n, paths, W, SW, st0, put)


def _rebound(st0, names, ends, W, lp):
    """'peel': a scalar that becomes an array in the first iteration.
    [names]: arrays rebound to new arrays of the same shape"""
    out = []
    for x in sorted(names, key=str):
        if x not in st0:
            continue
        vs = [e.get(x) for e in ends]
        if scalar_like(st0[x]) and vs and all(isinstance(v, SArr) for v in vs):
            return 'peel'
        a = st0[x]
        if isinstance(a, SArr) and all(isinstance(v, SArr) for v in vs) and id(a) not in W and \
                any(v is not a for v in vs):
            for v in vs:
                if v is a:
                    continue
                if v.parent is not None or v.serial <= lp.start or not _widens(a, v) or len(v.shape) != len(a.shape) or \
                        not all(_same(p, q) for p, q in zip(v.shape, a.shape)):
                    break
            else:
                out.append(x)
    # one array under two names: not this rule
    for e in ends:
        vs = [id(v) for v in e.values() if isinstance(v, SArr)]
        if len(set(vs)) < len(vs):
            return []
    return out


def _widens(a, v):
    """the contents of a are also contents of an array of v's type"""
    return v.kind == a.kind or (v.kind in 'fc' and a.kind in 'fi' and 'ifc'.index(v.kind) > 'ifc'.index(a.kind))


def _in_place(body, get, put, names):
    """body with `x = new array` replaced by storing into the old one: no
    other name refers to either"""
    def run(v):
        before = get()
        body(v)
        end = get()
        for x in names:
            a, b = before[x], end[x]
            if a is not b:
                rd = b.snap()
                a.assign_all(lambda q: rd(q))
                end[x] = a
        put(end)
    return run


def scalar_like(v):
    return isinstance(v, (Ex, int, Q, float, complex)) and not isinstance(v, bool)


def _run_body(lp, rng, n, body, get, put, st0, W, SW):
    UID[0] += 1
    uid = f'h{UID[0]}'
    saved = {i: a.state() for i, a in W.items()}
    allw, alls = {}, set()
    if n is not None:
        k, ka = psym('k')
    else:
        k, ka = psym('m')

    def run():
        CTX.frames[-1].syms.add(ka)
        if n is not None:
            CTX.assume(mk_cmp('lt', k-n))
            val = to_ex(rng.lo)+k*rng.step
        else:
            if con(rng.lo) != 0:
                raise Unsupported('symbolic step from a nonzero start')
            CTX.assume(mk_cmp('lt', k-rng.hi))
            CTX.assume(divides(rng.step, k))
            val = k
        lp2 = Loop()
        LOOPS.append(lp2)
        try:
            # havoc
            for i, a in W.items():
                a.set_state(([], havoc_reader(uid, i, a), None))
            cur = dict(st0)
            for x in SW:
                if x in cur:
                    v = st0[x]
                    if scalar_like(v):
                        cur[x] = S.hv((uid, 's', x), [], True)
                    else:
                        cur[x] = Poison(x)
            put(cur)
            body(val)
            end = get()
            effects = []
            for i, a in lp2.written.items():
                allw[i] = a
            for x, v in end.items():
                if x not in cur or cur[x] is not v:
                    if not (x in cur and scalar_like(v) and scalar_like(cur[x]) and to_ex(v).same(to_ex(cur[x]))):
                        alls.add(x)
            LOOPS.pop()
            lp2 = None
            recs = {}
            if set(allw) <= set(W):
                for i, a in W.items():
                    recs[i] = explicit(a, uid, i, W, saved, k, ka)
            return recs, {x: end.get(x) for x in alls | SW}
        finally:
            if lp2 is not None and LOOPS and LOOPS[-1] is lp2:
                LOOPS.pop()
            for i, st in saved.items():
                W[i].set_state(st)
            for a in list(allw.values()):
                if id(a) not in W and id(a) in first:
                    a.set_state(first[id(a)])
    # remember contents of arrays that may be written for the first time
    first = {}
    orig = SArr.add_rec

    def add_rec(self, rec):
        if id(self) not in first:
            first[id(self)] = self.state()
        orig(self, rec)
    SArr.add_rec = add_rec
    try:
        paths = CTX.explore(run)
    finally:
        SArr.add_rec = orig
        put(st0)
    for pc, r, syms in paths:
        if r[0] == 'raise':
            raise r[1]
    return (uid, k, ka, paths), allw, alls


def havoc_reader(uid, i, a):
    cplx = a.kind not in 'fib'

    def base(q):
        return S.hv((uid, 'a', i), q, cplx)
    return base


def divides(d, m):
    return C.mk_op('divides', to_ex(d), to_ex(m))


def explicit(a, uid, i, W, saved, k, ka):
    """store records of this iteration with explicit values (evaluated under
    the iteration's path, forking further when needed)"""
    out = []
    for rec in a.recs:
        syms = {p: E.atom_ex(p, 1) for p, _ in rec.params}

        def ev():
            for p, n in rec.params:
                CTX.frames[-1].syms.add(p)
                CTX.assume(mk_cmp('lt', E.atom_ex(p, 1)-n))
            for c in rec.conds:
                CTX.assume(c)
            v = rec.value(syms)
            return to_ex(v)
        if rec.params:
            for pc, r, sy in CTX.explore(ev):
                if r[0] == 'raise':
                    raise r[1]
                rng = {mk_cmp('lt', E.atom_ex(p, 1)-n).key() for p, n in rec.params}
                cs = [c for c in pc if c.key() not in rng]
                out.append(Rec(rec.params, cs, rec.idx, rec.mode, r[1]))
        else:
            out.append(Rec([], list(rec.conds), rec.idx, rec.mode, to_ex(rec.value({}))))
    # drop stores overwritten later in the same iteration
    keep = []
    for j, rec in enumerate(out):
        if not any(_covers(r2, rec) for r2 in out[j+1:]):
            keep.append(rec)
    out = keep
    # classify values against the havocked contents: an explicit value h+g is
    # an addition of g when no other store of the iteration reaches its cells
    res = []
    for j, rec in enumerate(out):
        v = rec.val
        own = (uid, 'a', i)
        if rec.mode == 'set':
            h = S.hv(own, rec.idx, a.kind not in 'fib')
            g = v-h
            if not any(ATOMS[x][1] == own for x in hvs(g)) and \
                    all(_disjoint(r1, rec) for r1 in out[:j]):
                rec = Rec(rec.params, rec.conds, rec.idx, 'add', g)
        res.append(rec)
    return res


def _own_facts(rec):
    out = list(rec.conds)
    for p, n in rec.params:
        out.append(mk_cmp('lt', E.atom_ex(p, 1)-n))
    return out


def _covers(r2, rec):
    """every cell of rec is stored again by r2"""
    if r2.mode != 'set' or r2.conds:
        return False
    if all(x.same(y) for x, y in zip(map(to_ex, rec.idx), map(to_ex, r2.idx))) and not r2.params:
        return True
    try:
        b, mp = rename(r2)
        env, free, conds = match(b, rec.idx)
    except Unsupported:
        return False
    if free:
        return False
    need = list(conds)
    for p, n in b.params:
        need += [mk_cmp('le', -env[p]), mk_cmp('lt', env[p]-E.subs(to_ex(n), env))]
    base = CTX.pcs()+_own_facts(rec)
    return all(C.check_sat(base+[c_not(c)]) == 'unsat' for c in need)


def _disjoint(r1, rec):
    """no cell belongs to both"""
    b, mp = rename(r1)
    return C.check_sat(CTX.pcs()+_own_facts(rec)+_own_facts(b) +
                       [eqc(u, v) for u, v in zip(rec.idx, b.idx)]) == 'unsat'


def hvs(x):
    return [a for a in E.deep_atoms(x) if ATOMS[a][0] == 'hv']


def _close(rng, n, run, W, SW, st0, put):
    uid, k, ka, paths = run
    rangec = mk_cmp('lt', k-n).key() if n is not None else None
    infos = []
    for pc, r, syms in paths:
        recs, ends = r[1]
        cs = [c for c in pc if c.key() != rangec]
        infos.append([cs, recs, dict(ends)])
    nn = to_ex(n) if n is not None else to_ex(rng.hi)
    lsts = {i: [] for i in W}
    for i in W:
        for cs, recs, _ in infos:
            for rec in recs[i]:
                lsts[i].append(Rec([(ka, nn)]+list(rec.params), list(cs)+list(rec.conds),
                                   rec.idx, rec.mode, rec.val))
    # scalars
    post = dict(st0)
    names = set()
    for _, _, ends in infos:
        names |= set(ends)
    whole = {}
    if n is not None:
        _recurrences(uid, k, ka, n, names, infos, st0, W, lsts, whole)
    for x in names:
        h = S.hv((uid, 's', x), [], True) if x in st0 and scalar_like(st0[x]) else None
        if h is None or not all(scalar_like(ends.get(x)) for _, _, ends in infos):
            post[x] = Poison(x)
            continue
        deltas = [(cs, to_ex(ends[x])-h) for cs, _, ends in infos]
        closed = [v for cs, _, ends in infos for v in [ends.get(('closed', x))] if v is not None]
        if closed:
            STAT['obl'] += 3
            post[x] = closed[0]
            continue
        if any(hv_of(g, uid) for _, g in deltas):
            post[x] = Poison(x)
            continue
        STAT['obl'] += 3
        tot = E.ZERO
        for cs, g in deltas:
            for c in cs:
                g = g*S.iv(c)
            tot = tot+g
        if n is None:
            raise Unsupported('accumulator in a loop with symbolic step')
        post[x] = to_ex(st0[x])+S.mk_sum(ka, n, tot)
    # arrays
    news = {}
    for i, a in W.items():
        lst = lsts[i]
        if i in whole:
            news[i] = whole[i]
        elif all(r.mode == 'add' for r in lst) and not any(hv_of(r.val, uid) for r in lst):
            STAT['obl'] += 3
            news[i] = lst
        else:
            news[i] = _injective(a, i, uid, ka, k, lsts, W)
    for i, a in W.items():
        if a.cells is not None:
            st, sh = a.state(), a.shape
            a.set_state(([], lambda q, st=st, sh=sh: read_state(st, sh, q), None))
        for lp in LOOPS:
            lp.note_write(a)
        a.recs = list(a.recs)+news[i]
    put(post)


def _scaled(i, a, lst, uid, k, ka, n, mp, whole, infos, lsts):
    """an array multiplied in every round, entry by entry, by factors g(k, q)
    that do not depend on its contents: entry q is a0[q] g(0, q) .. g(k-1, q)
    when round k starts"""
    own = (uid, 'a', i)
    if len(lst) != 1 or len(infos) != 1 or i in whole:
        return
    r = lst[0]
    ps = r.params[1:]
    if r.mode != 'set' or r.conds or len(ps) != len(a.shape) or \
            not all(to_ex(z).same(E.atom_ex(p, 1)) and E.is_zero(to_ex(m)-to_ex(d)) for z, (p, m), d in zip(r.idx, ps, a.shape)):
        return
    hs = hv_of(r.val, uid)
    if len(hs) != 1 or ATOMS[hs[0]][1] != own or ATOMS[hs[0]][4] or \
            not all(E.lf_to_ex(e).same(to_ex(z)) for e, z in zip(ATOMS[hs[0]][2], r.idx)):
        return
    g = to_ex(r.val)/E.atom_ex(hs[0], 1)
    if hv_of(g, uid):
        return
    pr = product(g, ka, n)
    if pr is None:
        return

    def at(q, m):
        return to_ex(read_state(a.state(), a.shape, q))*E.subs(pr(m), {p: to_ex(z) for (p, _), z in zip(ps, q)})
    vals = [to_ex(x.val) for l2 in lsts.values() for x in l2] + [to_ex(v) for _, _, e in infos for x, v in e.items() if scalar_like(v)]
    for h in {h for v in vals for h in hvs(v) if ATOMS[h][1] == own}:
        w = at([E.lf_to_ex(e) for e in ATOMS[h][2]], k)
        mp[h] = E.conj(w) if ATOMS[h][4] else w
    whole[i] = [Rec(ps, [], r.idx, 'set', at(r.idx, n))]
    STAT['obl'] += 3


def _recurrences(uid, k, ka, n, names, infos, st0, W, lsts, whole):
    """first-order recurrences with a closed form: counters, running products,
    cell i from cell i-1.  Substitutes the proved closed forms for the
    havocked values of the generic iteration."""
    for attempt in range(4):
        mp = {}
        for x in sorted(names, key=str):
            if x not in st0 or not scalar_like(st0[x]):
                continue
            h = S.hv((uid, 's', x), [], True)
            ha = next(iter(hvs(h)))
            vals = [ends.get(x) for _, _, ends in infos]
            if not all(scalar_like(v) for v in vals):
                continue
            vals = [to_ex(v) for v in vals]
            if any(('closed', x) in ends for _, _, ends in infos):
                continue
            used = any(ha in hvs(to_ex(v)) for _, _, ends in infos
                       for y, v in ends.items() if y != x and scalar_like(v)) or \
                any(ha in hvs(r.val) or any(ha in hvs(to_ex(z)) for z in r.idx)
                    for lst in lsts.values() for r in lst)
            add = [v-h for v in vals]
            if not any(hv_of(g, uid) for g in add):
                if not used:
                    continue
                tot = E.ZERO
                for (cs, _, _), g in zip(infos, add):
                    for c in cs:
                        g = g*S.iv(c)
                    tot = tot+g
                t, ta = psym('t')
                mp[ha] = to_ex(st0[x])+S.mk_sum(ta, k, E.subs(tot, {ka: t}))
                continue
            if len(vals) == 1 and not [c for c in infos[0][0]]:
                g = vals[0]/h
                if not hv_of(g, uid):
                    pr = product(g, ka, n)
                    if pr is not None:
                        mp[ha] = to_ex(st0[x])*pr(k)
                        infos[0][2][('closed', x)] = to_ex(st0[x])*pr(n)
        for i, lst in lsts.items():
            own = (uid, 'a', i)
            _scaled(i, W[i], lst, uid, k, ka, n, mp, whole, infos, lsts)
            for r in lst:
                if r.mode != 'set' or len(r.params) != 1 or r.conds:
                    continue
                hs = hv_of(r.val, uid)
                if len(hs) != 1 or ATOMS[hs[0]][1] != own or hs[0] in mp or ATOMS[hs[0]][4]:
                    continue
                h = hs[0]
                q = [E.lf_to_ex(e) for e in ATOMS[h][2]]
                prev = [E.subs(to_ex(z), {ka: k-1}) for z in r.idx]
                if not all((to_ex(u)-v).d == {} or E.is_zero(to_ex(u)-v) for u, v in zip(q, prev)):
                    continue
                g = r.val/E.atom_ex(h, 1)
                if hv_of(g, uid):
                    continue
                # the cell is not touched by any other store
                ok = [True]

                def frame():
                    for r2 in lst:
                        b, mpp = rename(r2)
                        cs = CTX.pcs()+rec_conds(r)+rec_conds(b)
                        cs += [eqc(u, v) for u, v in zip(r.idx, b.idx)]
                        if r2 is r:
                            cs.append(c_not(eqc(k, mpp[ka])))
                        if C.check_sat(cs) != 'unsat':
                            ok[0] = False
                CTX.explore(frame)
                if not ok[0]:
                    continue
                pr = product(g, ka, n)
                if pr is None:
                    continue
                STAT['obl'] += 3
                a = W[i]
                init = read_state(a.state(), a.shape, [E.subs(z, {ka: E.ZERO}) for z in q])
                mp[h] = to_ex(init)*pr(k)
        if not mp:
            return
        STAT['obl'] += len(mp)
        for inf in infos:
            for x, v in list(inf[2].items()):
                if isinstance(x, tuple):
                    continue
                if scalar_like(v) and set(hvs(to_ex(v))) & set(mp):
                    ha = next(iter(hvs(S.hv((uid, 's', x), [], True))))
                    inf[2][x] = replace_atoms(to_ex(v), {h: w for h, w in mp.items() if h != ha})
        for i in lsts:
            lsts[i] = [Rec(r.params, r.conds, r.idx, r.mode, replace_atoms(to_ex(r.val), mp))
                       if set(hvs(to_ex(r.val))) & set(mp) else r for r in lsts[i]]


def product(g, ka, n):
    """m -> prod_{t<m} g(t) as a closed form, or None.  Linear factors with
    integer coefficients telescope or make factorials."""
    try:
        fs = linear_factors(g, ka)
    except (Unsupported, ImportError):
        return None
    if fs is None:
        return None
    rest, lin = fs
    # rest: independent of k except for exponents linear in k
    groups = {}
    for s, c, e in lin:
        key = (s > 0, tuple((x, Q(v, 1)/abs(s)) for x, v in E.elin(c)))
        groups.setdefault(key, []).append((s, c, e))
    plan = []
    rest = list(rest)
    for _, lst in groups.items():
        S0 = 1
        for s, _, _ in lst:
            S0 = S0*abs(s)//math.gcd(S0, abs(s))
        sg0 = 1 if lst[0][0] > 0 else -1
        d = {}
        t = None
        for s, c, e in lst:
            f = S0//abs(s)
            if f != 1:
                rest.append((None, Q(1, f)**e))
            c = E.escale(c, f)
            t = tuple(E.elin(c))
            u = E.econst(c)
            d[u] = d.get(u, 0)+e
        s = sg0*S0
        for u in sorted(d):
            for v in sorted(d):
                while d[u] > 0 and d[v] < 0 and (u-v) % s == 0:
                    plan.append(('tel', s, t, u, v))
                    d[u] -= 1
                    d[v] += 1
        while any(d.values()):
            sg = 1 if any(v > 0 for v in d.values()) else -1
            us = sorted(u for u in d if d[u]*sg > 0)
            for u in us:
                if all(d.get(u+r, 0)*sg > 0 for r in range(S0)):
                    for r in range(S0):
                        d[u+r] -= sg
                    plan.append(('fac', s, t, u, sg))
                    break
            else:
                for u in us:
                    if u % S0 == 0 and all(v % S0 == 0 for _, v in t):
                        rest.append((None, Q(S0)**sg))
                        plan.append(('fac', sg0, tuple((x, v//S0) for x, v in t), u//S0, sg))
                        d[u] -= sg
                        break
                else:
                    return None
    # side conditions: all factorial arguments are >= 0 for 0 <= m <= n
    def form(t, u, m, s):
        return E.lf_to_ex(E.lf(dict(t), u))+to_ex(m)*s

    mm, ma = psym('m')
    ok = [True]

    def side():
        CTX.frames[-1].syms.add(ma)
        CTX.assume(mk_cmp('le', mm-n))
        for p in plan:
            if p[0] == 'fac':
                _, s, t, u, sg = p
                if s > 0:
                    z = [form(t, u-1, 0, s), form(t, u-1, mm, s)]
                else:
                    z = [form(t, u-s-1, 0, s), form(t, u-s-1, mm, s)]
                for y in z:
                    if not CTX.implied(mk_cmp('le', -y)):
                        ok[0] = False
    CTX.explore(side)
    if not ok[0]:
        return None

    def pr(m):
        m = to_ex(m)
        r = E.ONE
        for a, e in rest:
            if a is None:
                r = r*E.power(Ex.const(e), E.to_exp(m))
                continue
            if isinstance(e, E.LF):
                s1 = dict(e.t).get(ka, 0)
                e0 = E.lf_to_ex(E.lf({x: v for x, v in e.t if x != ka}, e.c))
                ee = e0*m+m*(m-1)/2*s1 if s1 else e0*m
            else:
                ee = m*e
            r = r*E.power(E.atom_ex(a, 1), E.to_exp(ee))
        for p in plan:
            if p[0] == 'tel':
                _, s, t, u, v = p
                jn = (u-v)//s
                if jn > 0:
                    for i in range(jn):
                        r = r*form(t, v+s*i, m, s)/form(t, v+s*i, 0, s)
                else:
                    for i in range(-jn):
                        r = r*form(t, u+s*i, 0, s)/form(t, u+s*i, m, s)
            else:
                _, s, t, u, sg = p
                if s > 0:
                    b = E.factorial_lf(E.to_exp(form(t, u-1, m, s)))/E.factorial_lf(E.to_exp(form(t, u-1, 0, s)))
                else:
                    b = E.factorial_lf(E.to_exp(form(t, u-s-1, 0, s)))/E.factorial_lf(E.to_exp(form(t, u-s-1, m, s)))
                r = r*b if sg > 0 else r/b
        return r
    return pr


def linear_factors(g, ka):
    """g = product of atoms^exp (k only linear in exponents) and linear forms
    s*k + c with integer s, c an integer linear form"""
    import sympy
    g = to_ex(g)
    if not g.d:
        return None
    # common monomial
    ms = list(g.d)
    com = {}
    alla = {a for m in ms for a, _ in m}
    for a in alla:
        es = [dict(m).get(a, 0) for m in ms]
        if any(isinstance(e, E.LF) for e in es):
            if any(e != es[0] for e in es):
                return None
            com[a] = es[0]
        else:
            k = ATOMS[a]
            if k[0] == 's' and DECL_int(k[1]):
                com[a] = min(es)
            elif any(e != es[0] for e in es):
                return None
            else:
                com[a] = es[0]
    rest, lin = [], []
    syms = {}

    def sp(a):
        v = sympy.Symbol(f'v{a}')
        syms[v] = a
        return v
    poly = sympy.Integer(0)
    for m in ms:
        t = sympy.Rational(g.d[m].numerator, g.d[m].denominator)
        for a, e in m:
            ee = e-com[a] if not isinstance(com[a], E.LF) else 0
            if ee:
                t *= sp(a)**int(ee)
        poly += t

    def addpoly(P, e):
        c, fl = sympy.factor_list(P)
        if c != 1:
            rest.append((None, Q(int(c.p), int(c.q))**e))
        for f, mult in fl:
            d = sympy.Poly(f, *sorted(f.free_symbols, key=str)).as_dict()
            t, u = {}, 0
            gens = sorted(f.free_symbols, key=str)
            for mon, co in d.items():
                if sum(mon) == 0:
                    u = Q(int(co.p), int(co.q))
                elif sum(mon) == 1:
                    t[syms[gens[mon.index(1)]]] = Q(int(co.p), int(co.q))
                else:
                    return False
            if any(v.denominator != 1 for v in t.values()) or Q(u).denominator != 1:
                return False
            s = int(t.pop(ka, 0))
            cf = E.lf(t, u)
            if s == 0:
                b = E.lf_to_ex(cf)
                r = E.power(b, e*mult)
                if len(r.d) != 1:
                    # independent of k, kept as a power of the sum
                    return False
                (m, cc), = r.d.items()
                if cc != 1:
                    rest.append((None, cc))
                rest.extend(m)
            else:
                lin.append((s, cf, e*mult))
        return True
    if not addpoly(poly, 1):
        return None
    for a, e in com.items():
        if e == 0:
            continue
        k = ATOMS[a]
        if a == ka:
            if isinstance(e, E.LF):
                return None
            lin.append((1, 0, int(e)))
        elif ka in E.deep_atom_atoms(a):
            if k[0] != 'P' or isinstance(e, E.LF) or Q(e).denominator != 1:
                return None
            P = E.EX_OF[a]
            t = sympy.Integer(0)
            for m, c in P.d.items():
                w = sympy.Rational(c.numerator, c.denominator)
                for b, ee in m:
                    if isinstance(ee, E.LF) or Q(ee).denominator != 1 or ATOMS[b][0] != 's':
                        return None
                    w *= sp(b)**int(ee)
                t += w
            if not addpoly(t, int(e)):
                return None
        else:
            rest.append((a, e))
    return rest, lin


def DECL_int(name):
    return E.DECL[name]['int']


def hv_of(x, uid):
    return [a for a in hvs(x) if ATOMS[a][1][0] == uid]


def rename(rec):
    mp = {}
    params = []
    for p, n in rec.params:
        s, a = psym('r')
        mp[p] = s
        params.append((a, E.subs(to_ex(n), mp)))
    return Rec(params, [cond_subs(c, mp) for c in rec.conds],
               [E.subs(to_ex(i), mp) for i in rec.idx], rec.mode, rec.val), mp


def rec_conds(rec):
    cs = [mk_cmp('lt', E.atom_ex(p, 1)-n) for p, n in rec.params]
    return cs+list(rec.conds)


def _injective(a, i, uid, ka, k, lsts, W):
    """frame obligation: different iterations touch different cells; then
    havocked reads of cells not written earlier become reads of the state
    before the loop"""
    own = (uid, 'a', i)
    lst = lsts[i]

    def frame():
        for r1 in lst:
            for r2 in lst:
                if r1.mode == 'add' and r2.mode == 'add':
                    continue
                b, mp = rename(r2)
                cs = CTX.pcs()+rec_conds(r1)+rec_conds(b)
                cs += [eqc(x, y) for x, y in zip(r1.idx, b.idx)]
                cs.append(c_not(eqc(k, mp[ka])))
                if C.check_sat(cs) != 'unsat':
                    return False
        return True
    STAT['obl'] += 3
    res = CTX.explore(frame)
    if not all(r[0] == 'ok' and r[1] for _, r, _ in res):
        raise Unsupported('loop iterations overlap')
    out = []
    for rec in lst:
        v = rec.val
        if rec.mode == 'add':
            if not hv_of(v, uid):
                out.append(rec)
                continue
            if len(rec.params) > 1:
                raise Unsupported('affine accumulation')
            v = v+S.hv(own, rec.idx, a.kind not in 'fib')
        hs = hv_of(v, uid)
        if not hs:
            out.append(Rec(rec.params, rec.conds, rec.idx, 'set', v))
            continue
        if any(ATOMS[h][1][1] != 'a' or ATOMS[h][1][2] not in W for h in hs):
            raise Unsupported('loop-carried dependence between variables')

        def ev():
            for p, n in rec.params:
                CTX.frames[-1].syms.add(p)
                CTX.assume(mk_cmp('lt', E.atom_ex(p, 1)-n))
            for c in rec.conds:
                CTX.assume(c)
            mp = {}
            for h in hs:
                q = [E.lf_to_ex(e) for e in ATOMS[h][2]]
                src = W[ATOMS[h][1][2]]
                # not written by an earlier iteration
                for r2 in lsts[ATOMS[h][1][2]]:
                    b, mpp = rename(r2)
                    cs = CTX.pcs()+rec_conds(b)+[eqc(x, y) for x, y in zip(q, b.idx)]
                    cs.append(mk_cmp('lt', mpp[ka]-k))
                    if C.check_sat(cs) != 'unsat':
                        raise Unsupported('recurrence through an array')
                r = read_state(src.state(), src.shape, q)
                mp[h] = E.conj(r) if ATOMS[h][4] else r
            return replace_atoms(v, mp)
        for pc, r, sy in CTX.explore(ev):
            if r[0] == 'raise':
                raise r[1]
            base = {c.key() for c in rec_conds(rec)}
            extra = [c for c in pc if c.key() not in base]
            out.append(Rec(rec.params, list(rec.conds)+extra, rec.idx, 'set', r[1]))
    return out


def replace_atoms(x, mp):
    """replace top-level (and sum-nested) atoms by expressions"""
    out = E.ZERO
    for m, c in x.d.items():
        t = Ex.const(c)
        for a, e in m:
            if a in mp:
                t = t*E.power(mp[a], e)
            elif ATOMS[a][0] in ('sum', 'P', 'fn', 'fnc') and \
                    E.deep_atom_atoms(a) & set(mp):
                if ATOMS[a][0] == 'sum':
                    _, hi, _, d = ATOMS[a]
                    s, sa = S._bsym(d)
                    b = replace_atoms(EX_OF[a], mp)
                    t = t*E.power(S.mk_sum(sa, E.lf_to_ex(hi)+1, b), e)
                elif ATOMS[a][0] == 'P':
                    t = t*E.power(replace_atoms(EX_OF[a], mp), e)
                else:
                    raise Unsupported('havocked value inside a function')
            else:
                t = t*E.atom_ex(a, e)
        out = out+t
    return out


class SymList:
    """a list of symbolic length whose element k is elem(k)"""
    def __init__(self, n, elem):
        self.n, self.elem = con(to_ex(n)), elem

    def __getitem__(self, k):
        k = to_ex(k)
        if not CTX.decide(mk_cmp('lt', k-self.n)) or not CTX.decide(mk_cmp('le', -k-self.n)):
            raise IndexError('list index out of range')
        if not CTX.decide(mk_cmp('le', -k)):
            k = k+self.n
        r = self.elem(con(k))
        if isinstance(r, SArr):
            r.frozen = True         # the elements of the list are inputs
        return r
