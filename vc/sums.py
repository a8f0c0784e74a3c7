"""Bounded sums, Iverson brackets, havocked values, and the zero test that
knows about them."""
import itertools
from fractions import Fraction as Q

from . import ex as E
from .ex import Ex, LF, ATOMS, DECL, EX_OF, Unsupported, atom, lf, is_num
from . import ctx as C
from .ctx import CTX, Cond, c_not, c_and, mk_cmp, cond_subs, cond_atoms

# ------------------------------------------------------------------- brackets
IVC = {}


def iv(c):
    """Iverson bracket [c] as an Ex"""
    if c.k == 'true':
        return E.ONE
    if c.k == 'false':
        return E.ZERO
    if c.k == 'and':
        r = E.ONE
        for v in c.a:
            r = r*iv(v)
        return r
    if c.k == 'not':
        return E.ONE-iv(c.a[0])
    a = atom('iv', c.key())
    IVC[a] = c
    return E.atom_ex(a, 1)


def _subs_iv(a, e, mp):
    c = IVC[a]
    c2 = cond_subs(c, mp)
    return E.atom_ex(a, e) if c2 is c else iv(c2)


# ----------------------------------------------------------------------- sums
# atom ('sum', hi, key-of-body): sum_{v=0}^{hi} body(v), v = the symbol '@d'
def _bsym(d):
    s = E.sym(f'@{d}', 'nat')
    return s, atom('s', f'@{d}')


def _depth(x):
    d = 0
    for a in E.deep_atoms(x):
        if ATOMS[a][0] == 'sum':
            d = max(d, ATOMS[a][3])
    return d


def _indep(a, e, va):
    if va in E.deep_atom_atoms(a):
        return False
    if isinstance(e, LF) and any(s == va for s, _ in e.t):
        return False
    return True


def mk_sum(var, n, x):
    """sum over var = 0 .. n-1 of x   (var: symbol atom id)"""
    n = E.to_ex(n)
    x = E.to_ex(x)
    if not x.d:
        return E.ZERO
    if n.is_const():
        k = int(n.cval())
        if k <= 0:
            return E.ZERO
        if k <= 64:
            r = E.ZERO
            for i in range(k):
                r = r+E.subs(x, {var: Ex.const(i)})
            return r
    out = E.ZERO
    hi = E.to_exp(n-1)
    groups = {}
    for m, c in x.d.items():
        inn, outm = [], []
        for a, e in m:
            if _indep(a, e, var):
                outm.append((a, e))
            elif isinstance(e, LF) and var not in E.deep_atom_atoms(a):
                # split exponent
                t = {s: v for s, v in e.t if s == var}
                o = {s: v for s, v in e.t if s != var}
                ei, eo = lf(t, 0), lf(o, e.c)
                inn.append((a, ei))
                if isinstance(eo, LF) or eo != 0:
                    outm.append((a, eo))
            else:
                inn.append((a, e))
        groups.setdefault(tuple(outm), []).append((tuple(sorted(inn)), c))
    for om, inns in groups.items():
        o = E.ONE
        for a, e in om:
            o = o*E.atom_ex(a, e)
        for im, c in inns:
            if not im:
                out = out+o*c*n
                continue
            b = E.ONE
            for a, e in im:
                b = b*E.atom_ex(a, e)
            out = out+o*c*_sum1(var, hi, b)
    return out


def _sum1(var, hi, b):
    d = _depth(b)+1
    s, sa = _bsym(d)
    if sa != var:
        b = E.subs(b, {var: s})
    a = atom('sum', hi, b.key(), d)
    EX_OF[a] = b
    return E.atom_ex(a, 1)


def _subs_sum(a, e, mp):
    _, hi, _, d = ATOMS[a]
    b = EX_OF[a]
    s, sa = _bsym(d)
    if sa in mp:
        mp = {k: v for k, v in mp.items() if k != sa}
    # avoid capture: rename through a fresh symbol
    t = E.sym(f'@t{d}', 'nat')
    ta = atom('s', f'@t{d}')
    b2 = E.subs(E.raw_subs(b, C.ext_map({sa: t})), mp)
    n = E.lf_to_ex(E.subs_lf(hi, mp))+1
    r = mk_sum(ta, n, b2)
    return E.power(r, e)


def _deep_sum(a):
    _, hi, _, d = ATOMS[a]
    s, sa = _bsym(d)
    out = set(E.deep_atoms(EX_OF[a]))
    out.discard(sa)
    out |= {t for t, _ in E.elin(hi)}
    return out


def _conj_sum(a, e):
    _, hi, _, d = ATOMS[a]
    b = EX_OF[a]
    bc = E.conj(b)
    if bc.same(b):
        return E.atom_ex(a, e)
    s, sa = _bsym(d)
    return E.power(mk_sum(sa, E.lf_to_ex(hi)+1, bc), e)


# ----------------------------------------------------------- havocked / complex fn
def hv(uid, idx, cplx):
    return E.atom_ex(atom('hv', uid, tuple(E.to_exp(i) for i in idx), cplx,
                          False), 1)


def _subs_hv(a, e, mp):
    k = ATOMS[a]
    new = tuple(E.subs_lf(i, mp) for i in k[2])
    if new == k[2]:
        return E.atom_ex(a, e)
    return E.power(E.atom_ex(atom('hv', k[1], new, k[3], k[4]), 1), e)


def _deep_hv(a):
    out = set()
    for i in ATOMS[a][2]:
        out |= {s for s, _ in E.elin(i)}
    return out


def fnc(name, *args):
    """uninterpreted complex function"""
    a = atom('fnc', name, tuple(v.key() if isinstance(v, Ex) else v
                                for v in args), False)
    EX_OF[a] = args
    return E.atom_ex(a, 1)


def _fnc_of(a):
    k = ATOMS[a]
    if a in EX_OF:
        return EX_OF[a]
    return EX_OF[atom('fnc', k[1], k[2], not k[3])]


def _subs_fnc(a, e, mp):
    k = ATOMS[a]
    args = _fnc_of(a)
    new = tuple(E.subs(v, mp) if isinstance(v, Ex) else v for v in args)
    if all(p is q for p, q in zip(args, new)):
        return E.atom_ex(a, e)
    from . import funcs
    r = funcs.re_fnc(k[1], new)
    if k[3]:
        r = E.conj(r)
    return E.power(r, e)


def _deep_fnc(a):
    out = set()
    for v in _fnc_of(a):
        if isinstance(v, Ex):
            out |= E.deep_atoms(v)
    return out


E.HOOKS.update(subs_iv=_subs_iv, subs_sum=_subs_sum, subs_hv=_subs_hv,
               subs_fnc=_subs_fnc, deep_iv=lambda a: cond_atoms(IVC[a]),
               deep_sum=_deep_sum, deep_hv=_deep_hv, deep_fnc=_deep_fnc,
               conjsum=_conj_sum)


# ------------------------------------------------------------------ zero proof
def prove_zero(x, depth=0):
    """True only if x == 0 follows from the current path condition"""
    x = CTX.normal(E.to_ex(x))
    if E.is_zero(x):
        return True
    if depth > 8:
        return False
    # Iverson brackets: case split
    for m in x.d:
        for a, e in m:
            if ATOMS[a][0] == 'iv':
                return _split(x, a, depth)
    # sums
    groups = {}
    rest = E.ZERO
    found = False
    for m, c in x.d.items():
        ss = [a for a, e in m if ATOMS[a][0] == 'sum' and e == 1]
        if not ss:
            rest = rest+Ex({m: c})
            continue
        found = True
        # outermost: the one with the largest depth, then by key
        a = max(ss, key=lambda a: (ATOMS[a][3], a))
        o = E.ONE*c
        for b, e in m:
            if b != a:
                o = o*E.atom_ex(b, e)
        hi, body = _trim(a)
        groups.setdefault(hi, []).append((a, o, body))
    if not found:
        return _last_resort(x, depth)
    loose = groups
    if len(groups) > 1 or (rest.d and not E.is_zero(rest)):
        m = _merge(groups, rest)
        if m is not None:
            loose, groups = groups, m
        elif not prove_zero(rest, depth+1):
            return False
    ok = True

    def one(hi, items):
        v = CTX.fresh('b', 'nat')
        va = next(iter(E.deep_atoms(v)))
        CTX.assume(mk_cmp('le', v-E.lf_to_ex(hi)))
        if CTX.infeasible():
            return True
        tot = E.ZERO
        for a, o, body in items:
            _, _, _, d = ATOMS[a]
            s, sa = _bsym(d)
            tot = tot+o*E.subs(body, {sa: v})
        return prove_zero(tot, depth+1)
    def all_zero(groups):
        for hi, items in groups.items():
            for pc, r, _ in CTX.explore(lambda: one(hi, items)):
                if r[0] != 'ok' or not r[1]:
                    return False
        return True

    # groups whose bounds coincide under the path condition were normalised
    if all_zero(groups):
        return True
    for y in (_first(loose, rest) if depth < 4 else ()):
        if prove_zero(y, depth+3):
            return True
    if loose is not groups and E.is_zero(rest):
        groups = loose
    if len(groups) > 1 and depth < 4:
        for alt in _exchanged(groups):
            if all_zero(alt):
                return True
        for alt in _cut(groups):
            y = E.ZERO
            for hi, items in alt.items():
                for a, o, body in items:
                    y = y+o*mk_sum(_bsym(ATOMS[a][3])[1], E.lf_to_ex(hi)+1, body)
            if prove_zero(y, depth+3):
                return True
    return depth == 0 and (by_renaming(x) or by_entry(x))


# ------------------------------------------------- sums over the input's entries
def _flatten(x, lim=400):
    """the monomials of x with every sum opened: [(variables, limits, monomial)]"""
    out = []
    todo = [((), (), x)]
    while todo:
        vs, cs, x = todo.pop()
        for m, c in x.d.items():
            ss = [(a, e) for a, e in m if ATOMS[a][0] == 'sum']
            if not ss:
                out.append((vs, cs, Ex({m: c})))
                if len(out) > lim:
                    return None
                continue
            a, e = ss[0]
            if e != 1:
                return None
            hi, s = ATOMS[a][1], _bsym(ATOMS[a][3])[1]
            v = E.sym(f'w{len(vs)}~', 'nat')
            rest = E.ONE*c
            for b, f in m:
                if b != a:
                    rest = rest*E.atom_ex(b, f)
            todo.append((vs+(atom('s', f'w{len(vs)}~'),), cs+(mk_cmp('le', -v), mk_cmp('le', v-E.lf_to_ex(hi))),
                         rest*E.subs(EX_OF[a], {s: v})))
    return out


def by_renaming(x):
    """multiple sums whose terms cancel once their variables are permuted: every
    term is summed over the integer points of its limits, so renaming its variables
    is sound, and a sum equals that of its mean over the symmetries of its limits"""
    fl = _flatten(x)
    if not fl or not any(len(vs) > 1 for vs, _, _ in fl):
        return False
    groups = {}
    for vs, cs, t in fl:
        if len(vs) > 4:
            return False
        forms = {}
        for p in itertools.permutations(vs):
            mp = {v: E.atom_ex(w, 1) for v, w in zip(vs, p)}
            cq = [cond_subs(q, mp) for q in cs]
            forms.setdefault(tuple(sorted(map(str, cq))), []).append((mp, cq))
        k = min(forms)
        n = len(forms[k])
        y = E.ZERO
        for mp, cq in forms[k]:
            y = y+E.subs(t, mp)*Q(1, n)
        g = groups.setdefault((vs, k), [forms[k][0][1], E.ZERO])
        g[1] = g[1]+y
    for (vs, _), (cs, tot) in groups.items():
        def one(vs=vs, cs=cs, tot=tot):
            mp = {v: CTX.fresh('k', 'nat') for v in vs}
            for q in cs:
                CTX.assume(cond_subs(q, mp))
            return CTX.infeasible() or prove_zero(E.subs(tot, mp), 1)
        for pc, r, _ in CTX.explore(one):
            if r[0] != 'ok' or not r[1]:
                return False
    return True


def _entries(m):
    """the entries of unknown arrays in a monomial: [(uid, conjugated, power, index)]"""
    return sorted((((ATOMS[a][:2], ATOMS[a][3]), ATOMS[a][4], e, ATOMS[a][2], a) for a, e in m
                   if ATOMS[a][0] in ('hv', 'el') and ATOMS[a][2] and is_num(e)), key=lambda t: (str(t[0]), t[1], t[2]))


def by_entry(x):
    """Sums of products of entries of unknown arrays: index every term by the
    entries it takes, collect the coefficient of each product of entries, and
    show that it vanishes for all indices."""
    fl = _flatten(x)
    if not fl or not any(vs for vs, _, _ in fl):
        return False
    groups = {}
    for vs, cs, t in fl:
        (m, c), = t.d.items()
        en = _entries(m)
        groups.setdefault(tuple((u, j, e, len(ix)) for u, j, e, ix, _ in en), []).append((vs, cs, m, c, en))
    for key, items in groups.items():
        if not key and any(vs for vs, *_ in items):
            return False

        def one(key=key, items=items):
            new = [[CTX.fresh('k', 'int') for _ in range(n)] for _, _, _, n in key]
            tot = E.ZERO
            for vs, cs, m, c, en in items:
                left = set(vs)
                mp = {}
                eqs = []
                for (u, j, e, ix, a), w in zip(en, new):
                    for f, k in zip(ix, w):
                        f = E.subs(E.lf_to_ex(f), mp) if mp else E.lf_to_ex(f)
                        g = E.to_exp(f)
                        pick = [(v, q) for v, q in E.elin(g) if v in left and abs(q) == 1]
                        if not pick:
                            eqs.append(mk_cmp('eq', f-k))
                            continue
                        v, q = pick[0]
                        r = E.atom_ex(v, 1)-(f-k)*q
                        mp = {b: E.subs(y, {v: r}) for b, y in mp.items()}
                        mp[v] = r
                        left.discard(v)
                body = E.ONE*c
                used = {a for *_, a in en}
                for a, e in m:
                    if a not in used:
                        body = body*E.atom_ex(a, e)
                for q in cs+tuple(eqs):
                    body = body*iv(q)
                # (variables the entries do not fix would stay summed)
                if left:
                    return False
                body = E.subs(body, mp)
                for (u, j, e, ix, a), w in zip(en, new):
                    k = ATOMS[a]
                    body = body*E.atom_ex(atom(k[0], k[1], tuple(E.to_exp(i) for i in w), k[3], k[4]), e)
                tot = tot+body
            return prove_zero(tot, -24)
        for pc, r, _ in CTX.explore(one):
            if r[0] != 'ok' or not r[1]:
                return False
    return True


def _first(groups, rest):
    """split the first one or two terms off the sums of the longest range"""
    for T in groups:
        for h in groups:
            d = CTX.normal(E.lf_to_ex(T)-E.lf_to_ex(h))
            if not d.is_const() or d.cval() not in (1, 2):
                continue
            d = int(d.cval())
            y = rest
            for hi, items in groups.items():
                for a, o, body in items:
                    s, sa = _bsym(ATOMS[a][3])
                    if hi == T:
                        for i in range(d):
                            y = y+o*E.subs(body, {sa: Ex.const(i)})
                        y = y+o*mk_sum(sa, E.lf_to_ex(h)+1, E.subs(body, {sa: s+d}))
                    else:
                        y = y+o*mk_sum(sa, E.lf_to_ex(hi)+1, body)
            yield y


def _exchanged(groups):
    """bring the order of double sums to that of another group:
    sum_i sum_j g = sum_j sum_i g when the limits do not depend on each other"""
    for h in list(groups):
        out = {}
        done = False
        for hi, items in groups.items():
            for a, o, body in items:
                t = _inner(a, body, h) if hi != h else None
                if t is None:
                    out.setdefault(hi, []).append((a, o, body))
                    continue
                done = True
                s, sa = _bsym(ATOMS[a][3])
                b, rest = t
                v = CTX.fresh('x', 'nat')
                va = next(iter(E.deep_atoms(v)))
                _, sb = _bsym(ATOMS[b][3])
                g = rest*E.subs(EX_OF[b], {sb: v})
                new = mk_sum(sa, E.lf_to_ex(hi)+1, g)
                full = mk_sum(va, E.lf_to_ex(h)+1, new)
                for m, c in full.d.items():
                    ss = [x for x, e in m if ATOMS[x][0] == 'sum' and ATOMS[x][1] == h]
                    if len(ss) != 1:
                        done = False
                        break
                    k = E.ONE*c
                    for x, e in m:
                        if x != ss[0]:
                            k = k*E.atom_ex(x, e)
                    out.setdefault(h, []).append((ss[0], o*k, EX_OF[ss[0]]))
        if done:
            yield out


def _inner(a, body, h):
    """(inner sum with upper limit h, cofactor) of a one-monomial body"""
    if len(body.d) != 1:
        return None
    (m, c), = body.d.items()
    ss = [x for x, e in m if ATOMS[x][0] == 'sum' and e == 1]
    if len(ss) != 1 or ATOMS[ss[0]][1] != h:
        return None
    s, sa = _bsym(ATOMS[a][3])
    if sa in {t for t, _ in E.elin(h)}:
        return None
    r = E.ONE*c
    for x, e in m:
        if x != ss[0]:
            r = r*E.atom_ex(x, e)
    return ss[0], r


def _cut(groups):
    """split a range 0..T at another group's limit h < T"""
    his = list(groups)
    for T in his:
        for h in his:
            if h == T or not CTX.implied(mk_cmp('lt', E.lf_to_ex(h)-E.lf_to_ex(T))):
                continue
            out = {k: list(v) for k, v in groups.items() if k != T}
            n = E.lf_to_ex(h)+1
            up = E.to_exp(CTX.normal(E.lf_to_ex(T)-n))
            for a, o, body in groups[T]:
                s, sa = _bsym(ATOMS[a][3])
                out[h].append((a, o, body))
                out.setdefault(up, []).append((a, o, E.subs(body, {sa: s+n})))
            yield out


def _merge(groups, rest):
    """bring all sums (and loose terms, as index 0) under one upper limit"""
    if rest.d and any(ATOMS[a][0] == 'sum' for m in rest.d for a, e in m):
        return None
    his = list(groups)
    for top in his:
        T = E.lf_to_ex(top)
        if not all(h == top or CTX.implied(mk_cmp('le', E.lf_to_ex(h)-T)) for h in his):
            continue
        if rest.d and not CTX.implied(mk_cmp('le', -T)):
            continue
        items = []
        for h in his:
            for a, o, body in groups[h]:
                s, sa = _bsym(ATOMS[a][3])
                if h != top:
                    body = body*iv(mk_cmp('le', s-E.lf_to_ex(h)))
                items.append((a, o, body))
        if rest.d:
            s, sa = _bsym(ATOMS[items[0][0]][3])
            items.append((items[0][0], E.ONE, rest*iv(mk_cmp('eq', s))))
        return {top: items}
    return None


def _trim(a):
    """(upper limit, body) of a sum with range brackets moved to the limit"""
    _, hi, _, d = ATOMS[a]
    body = EX_OF[a]
    s, sa = _bsym(d)
    for _ in range(3):
        if len(body.d) != 1:
            break
        (m, c), = body.d.items()
        for b, e in m:
            if ATOMS[b][0] != 'iv' or IVC[b].k not in ('le', 'lt'):
                continue
            x = IVC[b].a[0]
            try:
                f = E.to_exp(x)
            except Exception:
                continue
            if not isinstance(f, LF) or dict(f.t).get(sa) != 1:
                continue
            lim = s-x if IVC[b].k == 'le' else s-x-1
            if sa in E.deep_atoms(lim):
                continue
            if not CTX.implied(mk_cmp('le', lim-E.lf_to_ex(hi))) or \
                    not CTX.implied(mk_cmp('le', -1-lim)):
                continue
            hi = E.to_exp(CTX.normal(lim))
            body = Ex({tuple(z for z in m if z[0] != b): c})
            break
        else:
            break
    return hi, body


def _split(x, a, depth):
    c = IVC[a]

    def case(val):
        def run():
            CTX.assume(c if val else c_not(c))
            if CTX.infeasible():
                return True
            y = E.ZERO
            for m, k in x.d.items():
                if any(b == a for b, _ in m):
                    if val:
                        y = y+Ex({tuple((b, e) for b, e in m if b != a): k})
                else:
                    y = y+Ex({m: k})
            return prove_zero(y, depth+1)
        return run
    for val in (True, False):
        for pc, r, _ in CTX.explore(case(val)):
            if r[0] != 'ok' or not r[1]:
                return False
    return True


def _pdiv(p, q):
    """p/q when q divides p exactly (polynomials), else None"""
    def lead(x):
        return max(x.d, key=lambda m: (sum(e for _, e in m), m))

    def plain(x):
        return all(isinstance(e, int) and e > 0 for m in x.d for _, e in m)
    if not plain(p) or not plain(q) or len(p.d) > 60:
        return None
    b = lead(q)
    out = E.ZERO
    for _ in range(40):
        if not p.d:
            return out
        a = dict(lead(p))
        for s, e in b:
            a[s] = a.get(s, 0)-e
            if a[s] < 0:
                return None
        t = Ex({tuple(sorted((s, e) for s, e in a.items() if e)): p.d[lead(p)]/q.d[b]})
        out = out+t
        p = p-t*q
    return None


def _last_resort(x, depth):
    """roots of products: (p r)^h = p^h r^h for p >= 0"""
    ps = {a: E.EX_OF[a] for m in x.d for a, e in m if ATOMS[a][0] == 'P' and is_num(e) and int(e) != e}
    if len(ps) < 2 or depth > 8:
        return False
    for a, P in ps.items():
        for b, R in ps.items():
            if b == a or len(R.d) >= len(P.d):
                continue
            q = _pdiv(P, R)
            if q is None or not CTX.implied(mk_cmp('le', -R)):
                continue
            y = E.ZERO
            for m, c in x.d.items():
                t = E.ONE*c
                for s, e in m:
                    t = t*(E.power(R, e)*E.power(q, e) if s == a else E.atom_ex(s, e))
                y = y+t
            return prove_zero(y, depth+1)
    return False
