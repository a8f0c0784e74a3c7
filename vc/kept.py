"""Loop contract for models that visit the cells of a grid and keep some.

A nest of counting loops over symbolic ranges is verified by its invariant:

    before cell (i0, i1, ..) the counter (if any) is the number of cells kept
    so far, the rows below it are the kept cells in order of visit, and the
    rows from it on are as before the nest.

The body is executed once for an arbitrary cell and an arbitrary counter, on
every path.  Obligations: a row is written only at the counter (or, without a
counter, at the number of the cell in order of visit), together with a step of
one of the counter; no other row is read; no other variable carries a value
from one cell to the next; nothing is stored between the loops.  The rows after
the nest are then a sequence over the kept cells (class Rows).

    with kept.rule(): f(*args)
"""
import contextlib

from . import ex as E
from .ex import Ex, Unsupported, to_ex, atom
from . import ctx as C
from .ctx import CTX, mk_cmp, c_and, c_or
from . import sarr as A
from . import sums as S
from .sarr import FArr, FIdx, SArr, con

RULES = []
STAT = {'nests': 0}


def symbol(name, kind='nat'):
    s = E.sym(name, kind)
    a = next(iter(s.d))[0][0]
    if CTX.frames:
        CTX.frames[-1].syms.add(a)
    return s, a


def cond_of(thunk, drop=()):
    """the condition under which thunk() is true, as one Cond"""
    alts = []
    for pc, r, _ in CTX.explore(thunk):
        if r[0] == 'raise':
            raise r[1]
        if r[1]:
            alts.append(c_and(*[c for c in pc if c.key() not in drop]))
    return c_or(*alts) if alts else C.as_cond(False)


class Cells(FIdx):
    """the kept cells of a grid; an index is a tuple of Ex"""

    def __init__(self, dims, alts, syms):
        self.dims = dims                # extents
        self.alts = alts                # [(condition in the symbols, {array: row values})]
        self.syms = syms                # atoms of the generic cell
        self.n = 1
        for d in dims:
            self.n = self.n*to_ex(d)
        self.k = c_or(*[c for c, _ in alts])
        self.ctr = None

    def mp(self, q):
        return dict(zip(self.syms, [to_ex(v) for v in q]))

    def cond(self, q):
        return C.cond_subs(self.k, self.mp(q))

    def narrowed(self, cond):
        """the kept cells for which cond(q) holds as well"""
        gen = tuple(E.atom_ex(a, 1) for a in self.syms)

        def both():
            return bool(CTX.decide(self.cond(gen))) and bool(cond(gen))
        c = cond_of(lambda: (self.assume_in(gen), both())[1], self.range_keys())
        return Cells(self.dims, [(c, None)], self.syms)

    def in_range(self, q):
        return [mk_cmp('lt', to_ex(v)-to_ex(n)) for v, n in zip(q, self.dims)]

    def range_keys(self):
        return {c.key() for c in self.in_range([E.atom_ex(a, 1) for a in self.syms])}

    def assume_in(self, q):
        for a in self.syms:
            CTX.frames[-1].syms.add(a)
        for c in self.in_range(q):
            CTX.assume(c)

    def fresh(self, name='cell'):
        """an arbitrary cell"""
        q = tuple(CTX.fresh(name, 'nat') for _ in self.dims)
        for c in self.in_range(q):
            CTX.assume(c)
        return q

    def total(self, f):
        """sum over the kept cells of f(cell)"""
        if self.k.k == 'true':
            def go(q):
                if len(q) == len(self.dims):
                    return to_ex(f(q))
                return A.sum_over(self.dims[len(q)], lambda k: go(q+(k,)))
            return go(())
        # an opaque sum over the kept cells, linear in f
        gen = tuple(E.atom_ex(a, 1) for a in self.syms)
        drop = self.range_keys()

        def run():
            self.assume_in(gen)
            if not CTX.decide(self.cond(gen)):
                return None
            return to_ex(f(gen))
        vals = {}
        for pc, r, _ in CTX.explore(run):
            if r[0] == 'raise':
                raise r[1]
            if r[1] is not None:
                vals.setdefault(r[1].key(), (r[1], []))[1].append(c_and(*[c for c in pc if c.key() not in drop]))
        own = set(self.syms)
        name = ('kept', tuple(to_ex(d).key() for d in self.dims), self.k.key())
        tot = E.ZERO
        for v, cs in vals.values():
            part = () if len(vals) == 1 else tuple(c.key() for c in cs)
            for m, c in v.d.items():
                o, w = E.ONE, E.ONE
                for a, e in m:
                    x = E.atom_ex(a, e)
                    if E.deep_atoms(x) & own:
                        w = w*x
                    else:
                        o = o*x
                at = atom('el', str(hash((name, part, w.key()))), (), False, False)
                TOTALS[at] = (self, w)
                tot = tot+o*c*E.atom_ex(at, 1)
        return tot


TOTALS = {}


class Rows(FArr):
    """an array whose rows are the kept cells of a nest.  Arrays are turned
    into this class in place (every name of the array sees the change)"""

    def free(self):
        if self.ids.ctr is not None:
            raise Unsupported('the rows beyond the kept ones')

    def __getitem__(self, key):
        ks = key if isinstance(key, tuple) else (key,)
        c = self.ids.ctr
        if isinstance(ks[0], slice) and c is not None:
            s = ks[0]
            if s.step is None and (s.start is None or con(s.start) == 0) and isinstance(s.stop, Ex) and s.stop.same(c):
                ids = Cells(self.ids.dims, self.ids.alts, self.ids.syms)
                r = Rows.__new__(Rows)
                FArr.__init__(r, ids, self.rd, self.rest)
                return r if len(ks) == 1 else r[(slice(None),)+tuple(ks[1:])]
            raise Unsupported('slice of the rows')
        self.free()
        return FArr.__getitem__(self, key)


def install(a, ids, rd, rest):
    a.__class__ = Rows
    FArr.__init__(a, ids, rd, rest)


class Rule:
    def __init__(self):
        self.level = 0
        self.sets = []

    # ------------------------------------------------------------- the nest
    def __call__(self, rng, body, get, put):
        if self.level == 0:
            return self.nest(rng, body, get, put)
        return self.inner(rng, body, get, put)

    def nest(self, rng, body, get, put):
        STAT['nests'] += 1
        st0 = get()
        if not CTX.decide(mk_cmp('le', 1-to_ex(rng.count()))):
            return
        W = {}
        self.depth = 0
        for attempt in range(4):
            depth = self.depth
            paths, written = self.run(rng, body, get, put, st0, W)
            if set(written) <= set(W) and depth == self.depth:
                break
            W.update(written)
        else:
            raise Unsupported('arrays written by the nest')
        for pc, r, _ in paths:
            if r[0] == 'raise':
                raise r[1]
        outs = [(pc, r[1]) for pc, r, _ in paths]
        # one shape of the nest, one counter
        o0 = outs[0][1]
        if any(o['dims'] != o0['dims'] for _, o in outs):
            raise Unsupported('the extents depend on the path')
        syms = o0['syms']
        ctrs = {x for _, o in outs for x in o['delta']}
        if len(ctrs) > 1:
            raise Unsupported('several counters in a nest')
        dims = o0['extents']
        for d in dims:
            if E.deep_atoms(to_ex(d)) & set(syms):
                raise Unsupported('an extent depends on an outer index')
        rk = {mk_cmp('lt', E.atom_ex(a, 1)-to_ex(n)).key() for a, n in zip(syms, dims)} | o0['facts']
        alts, every = [], True
        for pc, o in outs:
            c = c_and(*[p for p in pc if p.key() not in rk])
            keep = bool(o['delta']) if ctrs else True
            if not keep:
                every = False
                if any(o['rows'].values()):
                    raise Unsupported('a row is written without a step of the counter')
                continue
            alts.append((c, o['vals']))
        bad = E.deep_atoms
        hv = o0['havoc']
        for c, vals in alts:
            ats = set(C.cond_atoms(c))
            for v in vals.values():
                for x in v:
                    ats |= bad(to_ex(x))
            if ats & hv:
                raise Unsupported('a value is carried from one cell to the next')
        for pc, _ in outs:
            for p in pc:
                if p.key() not in rk and C.cond_atoms(p) & hv:
                    raise Unsupported('a decision on a value carried from one cell to the next')
        ids = Cells(dims, alts, syms)
        if ctrs and not every:
            x = next(iter(ctrs))
            if con(to_ex(st0[x])) != 0:
                raise Unsupported('a counter not started at zero')
            n, na = symbol(f'kept#{len(self.sets)}', 'nat')
            ids.ctr = n
        elif ctrs:
            if con(to_ex(st0[next(iter(ctrs))])) != 0:
                raise Unsupported('a counter not started at zero')
            n = ids.n
        else:
            n = None
        self.sets.append(ids)
        end = dict(st0)
        for x in set(st0) | o0['names']:
            end[x] = n if x in ctrs else A.Poison(x) if x not in o0['same'] else st0[x]
        put(end)
        for i, a in W.items():
            if ids.ctr is None and not CTX.decide(A.eqc(a.shape[0], ids.n)):
                raise Unsupported('rows and cells differ in number')

            def rd(q, i=i):
                q = list(q)
                cell, rest = q[0], q[1:]
                mp = ids.mp(cell)
                j = int(con(to_ex(rest[0]))) if rest else 0
                vs = [(c, to_ex(v[i][j])) for c, v in ids.alts]
                if all(v.same(vs[0][1]) for _, v in vs):
                    return E.subs(vs[0][1], mp)
                for c, v in vs:
                    if CTX.decide(C.cond_subs(c, mp)):
                        return E.subs(v, mp)
                raise Unsupported('a row outside the kept cells')
            install(a, ids, rd, a.shape[1:])

    def run(self, rng, body, get, put, st0, W):
        saved = {i: a.state() for i, a in W.items()}
        first, written = {}, {}
        orig = SArr.add_rec

        def add_rec(arr, rec):
            self.log.append((self.level, arr, rec))
            if id(arr) not in first:
                first[id(arr)] = arr.state()
                if arr.serial <= serial0:
                    written[id(arr)] = arr
            orig(arr, rec)

        def run():
            self.log, self.dims, self.syms, self.hav = [], [], [], {}
            self.havoc, self.deep, self.res = set(), 0, None
            self.touched, self.post, self.facts = set(), {}, set()
            self.level = 0
            put(st0)
            for i, a in W.items():
                a.set_state(([], self.reader(saved[i], a), None))
            try:
                self.step(rng, body, get, put)
                if self.res is None:
                    raise Unsupported('a nest without a body')
                return self.res
            finally:
                self.level = 0
                for i, st in saved.items():
                    W[i].set_state(st)
                for i, a in written.items():
                    if i not in W and i in first:
                        a.set_state(first[i])
        serial0 = A.SERIAL[0]
        SArr.add_rec = add_rec
        self.W = W
        try:
            paths = CTX.explore(run)
        finally:
            SArr.add_rec = orig
            put(st0)
        return paths, written

    def reader(self, st, a):
        sh = a.shape

        def base(q):
            i = to_ex(q[0])
            if not any(i.same(r) for r in self.rowsyms()):
                raise Unsupported('a row other than the current one is read')
            # rows not yet reached are as before the nest
            return A.read_state(st, sh, q)
        return base

    def rowsyms(self):
        """the index of the current row: the counter, or the number of the cell"""
        out = list(self.hav.get(self.level, {}).values())
        if len(self.syms) == self.level:
            out.append(self.linear())
        return out

    def linear(self):
        r = E.ZERO
        for a, n in zip(self.syms, self.dims):
            r = r*to_ex(n)+E.atom_ex(a, 1)
        return r

    def inner(self, rng, body, get, put):
        n = rng.count()
        if not CTX.decide(mk_cmp('le', 1-to_ex(n))):
            raise Unsupported('an inner range may be empty')
        self.step(rng, body, get, put)

    def step(self, rng, body, get, put):
        """one arbitrary iteration of the loop at this level"""
        self.level += 1
        lv = self.level
        if len(self.dims) >= lv:
            raise Unsupported('two loops side by side in a nest')
        n = rng.count()
        k, ka = symbol(f'cell{lv-1}')
        CTX.assume(mk_cmp('lt', k-to_ex(n)))
        self.dims.append(n)
        self.syms.append(ka)
        self.deep = lv
        st = get()
        cur = dict(st)
        hav = {}
        for x, v in st.items():
            if isinstance(v, A.Poison):
                continue
            if A.scalar_like(v):
                v = to_ex(v)
                up = self.hav.get(lv-1, {}).get(x)
                kind = 'nat' if C.is_int_ex(v) else 'real'
                hav[x], ha = symbol(f'carry{lv}:{x}', kind)
                self.havoc.add(ha)
                cur[x] = hav[x]
                if lv > 1 and (up is None or not v.same(up)):
                    self.touched.add(x)
        self.hav[lv] = hav
        if lv == self.depth:
            # number of this cell < number of cells; kept so far <= number of this cell
            tot = E.ONE
            for d in self.dims:
                tot = tot*to_ex(d)
            lin = self.linear()
            fs = [mk_cmp('lt', lin-tot), mk_cmp('le', -lin)]
            for x, h in hav.items():
                if C.is_int_ex(h):
                    fs += [mk_cmp('le', h-lin), mk_cmp('lt', h-tot)]
            for f in fs:
                CTX.assume(f)
                self.facts.add(f.key())
        self.depth = max(self.depth, lv)
        put(cur)
        body(to_ex(rng.lo)+k*rng.step)
        end = get()
        if self.deep == lv:
            res = self.finish(cur, hav, end, lv)
        else:
            res = self.res
        # after the loop, at the level outside
        post = {}
        for x, v in end.items():
            if x in res['delta'] or x in res['same']:
                if self.deep != lv:
                    w = self.post.get(x)
                    if w is None or not (isinstance(v, Ex) and v.same(w)):
                        raise Unsupported(f'{x} changes between the loops')
                if x in hav:
                    post[x], pa = symbol(f'after{lv}:{x}', 'nat' if x in res['delta'] else 'real')
                    self.havoc.add(pa)
                    continue
            post[x] = A.Poison(x)
        self.post = post
        self.level -= 1
        if lv > 1:
            put(post)

    def finish(self, cur, hav, end, lv):
        """effects of the innermost body"""
        delta, same = {}, set()
        for x, v in end.items():
            if x in hav:
                if not A.scalar_like(v):
                    continue
                d = to_ex(v)-hav[x]
                if d.is_const() and d.cval() == 0:
                    same.add(x)
                elif d.is_const() and d.cval() == 1 and C.is_int_ex(hav[x]):
                    delta[x] = 1
        # rows
        if any(l != lv for l, a, _ in self.log if id(a) in self.W):
            raise Unsupported('stores between the loops')
        idx = None
        rows = {}
        for l, a, rec in self.log:
            if id(a) not in self.W:
                continue
            i = to_ex(rec.idx[0])
            if any(p in E.deep_atoms(i) for p, _ in rec.params):
                raise Unsupported('several rows written at once')
            if rec.conds:
                raise Unsupported('a conditional store')
            rows.setdefault(id(a), 0)
            rows[id(a)] += 1
            if idx is None:
                idx = i
            elif not idx.same(i):
                raise Unsupported('two rows written for one cell')
        if set(delta) & self.touched:
            raise Unsupported('a counter changes between the loops')
        lin = self.linear()
        if idx is not None:
            names = [x for x in delta if hav[x].same(idx)]
            if names:
                delta = {names[0]: 1, **{x: 1 for x in delta if x != names[0]}}
            elif not (E.is_zero(idx-lin)):
                raise Unsupported('a row that is neither the next one nor that of the cell')
            else:
                delta = {}
        at = lin if idx is None else idx
        if idx is None and delta:
            at = hav[next(iter(delta))]
        vals = {}
        for i, a in self.W.items():
            m = a.shape[1:]
            if not m:
                vals[i] = [a.read([at])]
            else:
                vals[i] = [a.read([at, j]) for j in range(int(con(to_ex(m[0]))))]
        self.res = {'delta': delta, 'same': same, 'dims': [E.to_ex(d).key() for d in self.dims], 'extents': list(self.dims),
                    'syms': list(self.syms), 'rows': rows, 'vals': vals, 'havoc': self.havoc, 'facts': self.facts, 'names': set(end)}
        return self.res


# ---------------------------------------------------------- comprehensions
class Key(tuple):
    """the number of a row, standing for the cell of that row"""
    is_row = True


def row_get(a, ks):
    """a[key, ...] for the rows of a nest"""
    a.free() if isinstance(a, Rows) else None
    q = tuple(ks[0])
    if len(ks) == 1:
        if not a.rest:
            return a.rd([q])
        return SArr(a.rest, lambda r: a.rd([q]+list(r)), 'f', name='row')
    if len(ks) == 2 and len(a.rest) == 1:
        row = SArr(a.rest, lambda r: a.rd([q]+list(r)), 'f', name='row')
        return row[ks[1]]
    raise Unsupported('indexing a row')


def comp(it, elt, cond, plain):
    """[elt(k) for k in it if cond(k)]"""
    if isinstance(it, FArr) and hasattr(it.ids, 'narrowed') and it.ids.ctr is None:
        row = lambda q: row_get(it, (Key(q),))       # noqa
        return listed(it.ids.narrowed(lambda q: cond(row(q))) if cond else it.ids, lambda q: elt(row(q)))
    if not isinstance(it, A.SymRange):
        s = A.seq_of(it)
        if s is None:
            return plain(it)
        if not cond:
            return each(s, elt)
        rng, el, co = A.vrange(0, s.n), elt, cond
        if not isinstance(rng, A.SymRange):
            return plain(it)
        return comp(rng, lambda k: el(s.item(k)), lambda k: co(s.item(k)), plain)
    if not cond and not RULES and not isinstance(it, A.SymStep):
        return each(A.seq_of(it), elt)
    if con(to_ex(it.lo)) != 0 or it.step != 1:
        raise Unsupported('a comprehension over a shifted range')
    n = it.count()
    for ru in RULES:
        for ids in ru.sets:
            if ids.ctr is None and E.is_zero(to_ex(n)-ids.n):
                gen = Key(E.atom_ex(a, 1) for a in ids.syms)
                new = ids.narrowed(lambda q: cond(Key(q))) if cond else ids
                return listed(new, lambda q: elt(Key(q)))
            if ids.ctr is not None and to_ex(n).same(ids.ctr):
                gen = Key(E.atom_ex(a, 1) for a in ids.syms)
                raise Unsupported('a comprehension over the kept rows')
    k, ka = symbol('row#')
    rng = mk_cmp('lt', k-to_ex(n))

    def t():
        CTX.frames[-1].syms.add(ka)
        CTX.assume(rng)
        return bool(CTX.decide(C.as_cond(cond(k)))) if cond else True
    c = cond_of(t, {rng.key()})
    for f in SEEN:
        if E.is_zero(to_ex(f.n)-to_ex(n)) and f.c0.key() == c.key():
            return listed(f, elt)
    ids = FIdx(lambda q: C.cond_subs(c, {ka: to_ex(q)}), n)
    ids.c0 = c
    SEEN.append(ids)
    return listed(ids, elt)


class Listed(SArr):
    """a list of symbolic length"""


def each(s, elt):
    """[elt(x) for x in s], evaluated now for an arbitrary element"""
    n = to_ex(s.n)
    if CTX.decide(mk_cmp('le', n)):
        return []
    g, ga = symbol('elt#')
    rng = mk_cmp('lt', g-n)

    def probe():
        CTX.frames[-1].syms.add(ga)
        CTX.assume(rng)
        e = elt(s.item(g))
        if isinstance(e, SArr):
            if not A.dense_shape(e.shape):
                raise Unsupported('elements of a list')
            return tuple(e.shape), {q: e.read(list(q)) for q in map(tuple, A.all_idx(e.shape))}
        if isinstance(e, (list, tuple)):
            return (len(e),), {(j,): v for j, v in enumerate(e)}
        return (), {(): e}
    outs = []
    for pc, r, _ in CTX.explore(probe):
        if r[0] == 'raise':
            raise r[1]
        outs.append((c_and(*[c for c in pc if c.key() != rng.key()]), r[1]))
    if not outs or any(o[1][0] != outs[0][1][0] for o in outs):
        raise Unsupported('elements of a list')
    rest = outs[0][1][0]

    def base(q):
        mp = {ga: to_ex(q[0])}
        j = tuple(int(con(to_ex(i))) for i in q[1:])
        vs = [(c, A.lift(v[1][j])) for c, v in outs]
        v0 = vs[0][1]
        if len(vs) == 1 or all(isinstance(v, Ex) and isinstance(v0, Ex) and v.same(v0) for _, v in vs):
            return C.cond_subs(v0, mp) if isinstance(v0, C.Cond) else E.subs(v0, mp)
        for c, v in vs:
            if CTX.decide(C.cond_subs(c, mp)):
                return C.cond_subs(v, mp) if isinstance(v, C.Cond) else E.subs(v, mp)
        raise Unsupported('an element outside the list')
    return Listed([s.n]+list(rest), base, 'c')


SEEN = []


def listed(ids, elt):
    """the sequence elt(q) over the kept q; elt is evaluated now (its names
    may be bound to other values later), for an arbitrary element"""
    if isinstance(ids, Cells):
        syms = ids.syms
        gen = tuple(E.atom_ex(a, 1) for a in syms)
        drop = ids.range_keys()
    else:
        g, ga = symbol('row#')
        gen, syms = g, [ga]
        rng = mk_cmp('lt', g-to_ex(ids.n))
        drop = {rng.key()}

    def probe():
        if isinstance(ids, Cells):
            ids.assume_in(gen)
        else:
            CTX.frames[-1].syms.add(ga)
            CTX.assume(rng)
        if not CTX.decide(ids.cond(gen)):
            return None
        e = elt(gen)
        if isinstance(e, SArr):
            if not A.dense_shape(e.shape) or len(e.shape) != 1:
                raise Unsupported('elements of a list')
            return e.shape, [e.read([j]) for j in range(e.shape[0])]
        return (), [e]
    outs = []
    for pc, r, _ in CTX.explore(probe):
        if r[0] == 'raise':
            raise r[1]
        if r[1] is not None:
            outs.append((c_and(*[c for c in pc if c.key() not in drop]), r[1]))
    if not outs:
        raise Unsupported('a list that is always empty')
    rest = outs[0][1][0]

    def rd(q):
        cell = q[0] if isinstance(ids, Cells) else (q[0],)
        mp = dict(zip(syms, [to_ex(v) for v in cell]))
        j = int(con(to_ex(q[1]))) if rest else 0
        vs = [(c, A.lift(v[1][j])) for c, v in outs]
        v0 = vs[0][1]
        if len(vs) == 1 or all(isinstance(v, Ex) and isinstance(v0, Ex) and v.same(v0) for _, v in vs):
            return C.cond_subs(v0, mp) if isinstance(v0, C.Cond) else E.subs(v0, mp)
        for c, v in vs:
            if CTX.decide(C.cond_subs(c, mp)):
                return C.cond_subs(v, mp) if isinstance(v, C.Cond) else E.subs(v, mp)
        raise Unsupported('an element outside the list')
    return FArr(ids, rd, rest)


def count_of(f):
    """number of rows of a filtered array"""
    ids = f.ids
    if not hasattr(ids, 'cnt'):
        ids.cnt = CTX.fresh('count', 'nat')
    COUNTS.append((ids.cnt, ids))
    return ids.cnt


COUNTS = []


def of_count(n):
    """the index set whose size is n"""
    for c, ids in COUNTS:
        if isinstance(n, Ex) and n.same(c):
            return ids
    return None


@contextlib.contextmanager
def rule():
    r = Rule()
    RULES.append(r)
    A.LOOP_RULE.append(r)
    try:
        yield r
    finally:
        RULES.pop()
        A.LOOP_RULE.pop()
        SEEN.clear()
        COUNTS.clear()
