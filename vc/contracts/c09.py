"""C09: rotation of multipole moments.

D^l[a, b] = e^{-i(a alpha + b gamma)} d^l[a, b](beta), the Wigner matrix of
Rz(alpha) Ry(beta) Rz(gamma)"""
from .common import *
from . import c10 as T
from .c10 import dmat, solid, symq, any_q, is_range, Grow
from .c11 import emax, emin
from vc import hyper, loops

L, = nat('L')
l_, = nat('l')
m_, n_ = (E.sym(n, 'int') for n in ('m', 'n'))
AL, BE, GA = (E.angle(n) for n in ('al', 'be', 'ga'))
pw, fac, half = spec.pw, spec.fac, Q(1, 2)
ANG = (AL, BE, GA)


def d_entry(l, a, b):
    """(a, b) entry of the Wigner matrix, a new and b old order"""
    l, a, b = map(to_ex, (l, a, b))
    lo, hi = emax([E.ZERO, b-a]), emin([l+b, l-a])
    c, s = E.cos(BE/2), E.sin(BE/2)

    def t(i):
        k = lo+i
        return pw(Ex.const(-1), a-b+k)*pw(c, 2*l+b-a-2*k)*pw(s, a-b+2*k) / (
            fac(k)*fac(l+b-k)*fac(l-a-k)*fac(a-b+k))
    r = E.power(fac(l-b)*fac(l+b)*fac(l-a)*fac(l+a), half)
    return r*E.exp_i(-(a*AL+b*GA))*spec.total(hi-lo+1, t, 'k')


def inside(m):
    return [le(m, l_), le(-m, l_)]


def p_Dlmn(ob):
    f = src('rotations').Dlmn
    for nm, c in (('m>=n', le(n_, m_)), ('m<n', lt(m_, n_))):
        ob.paths(f'Dlmn {nm}', lambda: S.prove_zero(to_ex(f(l_, m_, n_, *ANG))-d_entry(l_, n_, m_)),
                 pre=inside(m_)+inside(n_)+[c])


def p_Dl(ob):
    def atomD(l, m, n, *ang):
        """contract of Dlmn"""
        ok = [CTX.decide(c) for c in (le(m, l), le(-to_ex(m), l), le(n, l), le(-to_ex(n), l))]
        ok += [to_ex(x).same(y) for x, y in zip(ang, ANG)]
        ob.record('precondition of Dlmn', all(ok))
        return E.atom_ex(E.atom('el', 'D', tuple(E.to_exp(to_ex(i)) for i in (l, n, m)), True, False), 1)
    f = src('rotations', {'rotations.Dlmn': atomD}).Dl

    def thunk():
        r = f(l_, *ANG)
        n = 2*l_+1
        return same_array(r, [n, n], lambda i, j: atomD(l_, to_ex(j)-l_, to_ex(i)-l_, *ANG))
    ob.paths('Dl', thunk)


def cmp(r, w, l):
    out = [('shape', [A.con(to_ex(n)) for n in r.shape] == [2*l+1]*2)]
    if out[0][1]:
        for (a, b), v in w.items():
            out.append((f'{l}:{a},{b}', S.prove_zero(to_ex(r.read([l+a, l+b]))-v)))
    return out


def p_small(fn, Lmax):
    c, s = E.cos(BE), E.sin(BE)

    def run(ob):
        f = getattr(src('rotations'), fn)
        for Lx in range(Lmax+1):
            if fn == 'rotate_H_recurs':
                def thunk():
                    r = f(Lx, BE)
                    out = [('degrees', len(r) == Lx+1)]
                    for l in range(Lx+1):
                        w = dmat(l, c, s, E.ONE, E.ONE)
                        eps = lambda m: (-1)**m if m >= 0 else 1
                        out += cmp(r[l], {(a, b): v*eps(a)*eps(-b) for (a, b), v in w.items()}, l)
                    return out
                ob.paths(f'{fn} L={Lx}', thunk, pre=[le(0, s)])
                continue

            def thunk():
                r = f(Lx, BE) if fn == 'dlmn' else f(Lx, *ANG)
                e = (E.ONE, E.ONE) if fn == 'dlmn' else (E.exp_i(AL), E.exp_i(GA))
                out = [('degrees', len(r) == Lx+1)]
                for l in range(Lx+1):
                    out += cmp(r[l], dmat(l, c, s, *e), l)
                return out
            ob.paths(f'{fn} L={Lx}', thunk)
    return run


# ------------------------------------------------ H recursion, every degree
# h(n, a, b) = eps(a) eps(-b) d(n, a, b), d the Wigner function of vc/hyper.py.
# rotate_H_recurs is cut at its loops.  The invariant of the first loop is row
# 0 of every matrix; of the second, that one round completes matrix n and
# leaves the later ones alone; of the inner one, that the rows -mp..mp of the
# triangle b >= |a| are known.  The relations that carry a row to the next
# are lemmas proved for every degree and order in p_relations.
P_, NN, KK, MP = nat('p', 'n1', 'kk', 'mp')
CB, SB = E.cos(BE), E.sin(BE)


def el(nm, *ix):
    return E.atom_ex(E.atom('el', nm, tuple(E.to_exp(to_ex(x)) for x in ix), False, False), 1)


def hat(n, a, b):
    return el('h', n, a, b)


def dat(n, a, b):
    return el('d', n, a, b)


def eps(m):
    m = to_ex(m)
    return pw(Ex.const(-1), m) if CTX.decide(le(0, m)) else E.ONE


def root(*x):
    return E.power(to_ex(math.prod(x)), half)


def D_(n, x):
    return root(n-x, n+x+1)/2


def ladder(n, a, b):
    """h(n, a, b), |a| >= 1, b >= |a|, from the rows nearer to the middle"""
    n, a, b = map(to_ex, (n, a, b))
    up = E.ZERO if CTX.decide(eq(b, n)) else D_(n, b)
    if CTX.decide(lt(0, a)):
        t = D_(n, a-2)*hat(n, a-2, b)-D_(n, b-1)*hat(n, a-1, b-1)
        if up is not E.ZERO:
            t = t+up*hat(n, a-1, b+1)
        return t/D_(n, a-1)
    s = -1 if CTX.decide(eq(a, -1)) else 1
    t = D_(n, a+1)*hat(n, a+2, b)*s-D_(n, b-1)*hat(n, a+1, b-1)
    if up is not E.ZERO:
        t = t+up*hat(n, a+1, b+1)
    return t/D_(n, a)


def row1(n, m):
    """h(n, 1, m), m >= 1, from row 0 of matrix n+1"""
    n, m = to_ex(n), to_ex(m)
    t = root(n+1+m, n+2+m)*(1-CB)/2*hat(n+1, 0, m+1)+root(n+1-m, n+2-m)*(1+CB)/2*hat(n+1, 0, m-1) + \
        root(n+1+m, n+1-m)*SB*hat(n+1, 0, m)
    return -t/root(n, n+1)


def hyp_forms():
    n, a, b = [hyper.var(x) for x in 'nab']
    A_, B_ = (E.sym(x, 'int') for x in 'ab')
    return (n, a, b), (NN, A_, B_), dict(n=NN, a=A_, b=B_, k=E.sym('k', 'int'))


def d_expr(terms, env):
    """the relation as an expression in the values d(n, a, b)"""
    C, Sn = E.cos(BE/2), E.sin(BE/2)
    t = E.ZERO
    for q, u, (n, a, b), e, f, *g in terms:
        n, a, b = (hyper.lin(x).ex(env) for x in (n, a, b))
        v = E.power(Ex.const(-1), E.to_exp(hyper.lin(g[0]).ex(env))) if g else E.ONE
        t = t+q*v*root(*[hyper.lin(x).ex(env) for x in u])*C**e*Sn**f*dat(n, a, b)
    return t


def in_d(x):
    """h written with d"""
    mp = {}
    for i in x.atoms():
        at = E.ATOMS[i]
        if at[0] == 'el' and at[1] == 'h':
            n, a, b = (E.lf_to_ex(y) for y in at[2])
            mp[i] = eps(a)*eps(-b)*dat(n, a, b)
    return E.subs(x, mp)


def rel_step(ob, nm, terms, env, region, spec_, factor):
    """spec_() = h-relation that is factor times the relation of the terms"""
    for sub, ok in hyper.relation(terms, region, env):
        ob.record(f'{nm}: {sub}', ok)
    ob.paths(nm+' (signs)', lambda: S.prove_zero(in_d(spec_())-factor()*d_expr(terms, env)), pre=region)


def p_relations(ob):
    (n, a, b), (N_, A_, B_), env = hyp_forms()
    sq = lambda x: root(*x)
    # rows mp -> mp+1 and -mp -> -mp-1, inside the triangle and at its edge
    for edge in (False, True):
        bb, Bx = (n, N_) if edge else (b, B_)
        up = [] if edge else [(1, [n-bb, n+bb+1], (n, a, bb+1), 0, 0)]
        t = up+[(-1, [n+bb, n-bb+1], (n, a, bb-1), 0, 0), (1, [n-a, n+a+1], (n, a+1, bb), 0, 0),
                (-1, [n+a, n-a+1], (n, a-1, bb), 0, 0)]
        inside = [] if edge else [lt(B_, N_)]
        nm = 'ladder at b = n' if edge else 'ladder'
        w = lambda x: D_(N_, x)
        # target a+1 >= 2: D_a h(a+1, b) - (the rest)
        rel_step(ob, nm+' up', t, env, inside+[le(1, A_), lt(A_, Bx), le(1, NN)],
                 lambda: w(A_)*(hat(N_, A_+1, Bx)-ladder(N_, A_+1, Bx)), lambda: eps(A_+1)/2)
        # target a-1 <= -1
        rel_step(ob, nm+' down', t, env, inside+[le(A_, 0), lt(-A_, Bx), le(1, NN)],
                 lambda: w(A_-1)*(hat(N_, A_-1, Bx)-ladder(N_, A_-1, Bx)), lambda: -E.ONE/2)
    t = [(-c, [n, n+1], (n, 1, b), e, f) for c, e, f in ((1, 4, 0), (2, 2, 2), (1, 0, 4))]
    t += [(1, [n+1+b, n+2+b], (n+1, 0, b+1), 0, 2), (1, [n+1-b, n+2-b], (n+1, 0, b-1), 2, 0),
          (2, [n+1+b, n+1-b], (n+1, 0, b), 1, 1)]
    rel_step(ob, 'row 1', t, env, [le(1, B_), le(B_, N_)],
             lambda: root(N_, N_+1)*(hat(N_, 1, B_)-row1(N_, B_)), lambda: E.ONE)
    tri = [le(c, N_) for c in (A_, -A_, B_, -B_)]
    for nm, (x, y), (X, Y), g in (('transposed', (b, a), (B_, A_), a-b), ('against the other diagonal', (-b, -a), (-B_, -A_), 0*a)):
        rel_step(ob, nm, [(1, [], (n, a, b), 0, 0), (-1, [], (n, x, y), 0, 0, g)], env, tri,
                 lambda: hat(N_, A_, B_)-hat(N_, X, Y), lambda: eps(A_)*eps(-B_))
    # signs of cos(beta/2) and sin(beta/2): d is even in both together, and
    # beta -> -beta multiplies it by (-1)^(a-b)
    k = env['k']
    one = Ex.const(-1)
    ob.record('even', S.prove_zero(pw(one, 2*N_)-1))
    ob.record('odd', S.prove_zero(pw(one, 2*N_+B_-A_-2*k)-pw(one, A_-B_)) and
              S.prove_zero(pw(one, A_-B_+2*k)-pw(one, A_-B_)))


def tie(*cs):
    for c in cs:
        if CTX.decide(c):
            CTX.assume(c)


def tri(a, b):
    return CTX.decide(le(a, b)) and CTX.decide(le(-a, b))


def h_full(n, a, b):
    """h(n, a, b) by the value in the triangle"""
    tie(eq(a, b), eq(a, -b), eq(a, 0), eq(b, 0))
    if tri(a, b):
        return hat(n, a, b)
    if tri(b, a):
        return hat(n, b, a)
    return hat(n, -b, -a) if tri(-b, -a) else hat(n, -a, -b)


def h_rows(n, top):
    """the matrix with the rows -top..top of the triangle b >= |a|"""
    def base(q):
        a, b = to_ex(q[0])-n, to_ex(q[1])-n
        if top == 0:
            return hat(n, 0, b) if CTX.decide(eq(a, 0)) and CTX.decide(le(0, b)) else E.ZERO
        if CTX.decide(le(a, top)) and CTX.decide(le(-a, top)) and tri(a, b):
            return hat(n, a, b)
        return E.ZERO
    return base


class HList:
    """the list of matrices: a round may read matrices n and n+1 and replace
    matrix n"""

    def __init__(self, n=None, mat=None):
        self.at, self.mat, self.nxt = n, mat, None
        if n is not None:
            self.nxt = A.SArr([2*to_ex(n)+3]*2, h_rows(to_ex(n)+1, 0), 'f', name='H1')
            self.nxt.frozen = True

    def _no(self, *a, **k):
        raise E.Structure('other use of the list of matrices')

    __iter__ = __len__ = append = __add__ = _no

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k == slice(None, -1):
                return ('all but the last', self)
            self._no()
        if self.at is None:
            self._no()
        if CTX.decide(eq(k, self.at)):
            return self.mat
        if CTX.decide(eq(k, to_ex(self.at)+1)):
            return self.nxt
        self._no()

    def __setitem__(self, k, v):
        if self.at is None or not CTX.decide(eq(k, self.at)):
            self._no()
        self.mat = v


def p_H(ob):
    fn = 'rotate_H_recurs'
    mod = src('rotations', cut=(f'rotations.{fn}*',))
    if {k for k in vars(mod) if k.startswith('_vc_') and k.endswith(fn)} != {
            f'_vc_{k}_{fn}' for k in ('seg0', 'head0', 'seg0_0', 'seg1', 'head1', 'seg0_1', 'head0_1', 'seg0_0_1', 'seg1_1', 'seg2')}:
        raise E.Structure('other loops')
    g = lambda k: getattr(mod, f'_vc_{k}_{fn}')
    live = set()

    def pre():
        e = dict(g('seg0')(P_, BE))
        hs = [k for k, v in e.items() if isinstance(v, list) and not v]
        if len(hs) != 1:
            raise E.Structure('no list of matrices')
        live.update(e)
        return e, hs[0]

    def rows():
        e, h = pre()
        out = [('range', is_range(g('head0')(e), 0, P_+2))]
        CTX.assume(lt(KK, P_+2))
        G = e[h] = Grow()
        e2 = g('seg0_0')(loops.inner(mod, fn, '0', e, [h]), KK)
        out.append(('one matrix more', e2[h] is G and len(G.got) == 1))

        def entry(i, j):
            a, b = to_ex(i)-KK, to_ex(j)-KK
            if not CTX.decide(eq(a, 0)) or CTX.decide(lt(b, 0)):
                return E.ZERO
            # contract of scipy's lpmn: this is h(k, 0, b)
            return pw(Ex.const(-1), b)*E.power(fac(KK-b)/fac(KK+b), half)*S.fnc('lpmn', b, KK, CB)
        return out+same_array(G.got[0], [2*KK+1]*2, entry)

    def second():
        e, h = pre()
        H0 = e[h] = HList()
        e = g('seg1')(loops.inner(mod, fn, '0', e, [h]))
        out = [('range', is_range(g('head1')(e), 1, P_+1)), ('same list', e[h] is H0)]
        CTX.assume(le(1, NN))
        CTX.assume(le(NN, P_))
        return e, h, out

    def start():
        e, h, out = second()
        H = HList(NN, A.SArr([2*NN+1]*2, h_rows(NN, 0), 'f', name='H'))
        e = dict(e)
        e[h] = H
        e = g('seg0_1')(loops.inner(mod, fn, '1', e, [h]), NN)
        return e, h, H, out+[('list', e[h] is H)]

    def first_rows():
        e, h, H, out = start()

        def entry(i, j):
            a, b = to_ex(i)-NN, to_ex(j)-NN
            if CTX.decide(eq(a, 0)):
                return hat(NN, 0, b) if CTX.decide(le(0, b)) else E.ZERO
            if CTX.decide(lt(b, 1)):
                return E.ZERO
            if CTX.decide(eq(a, 1)):
                return row1(NN, b)
            if CTX.decide(eq(a, -1)):
                # h(n, 1, b) of the ladder by its value in row 1
                return ladder(NN, -1, b)+D_(NN, 0)*(hat(NN, 1, b)-row1(NN, b))/D_(NN, -1)
            return E.ZERO
        return out+[('frame', untouched(H.nxt)), ('rows', is_range(g('head0_1')(e), 1, NN))] + \
            same_array(H.mat, [2*NN+1]*2, entry)

    def inner():
        e, h, H, out = start()
        CTX.assume(le(1, MP))
        CTX.assume(lt(MP, NN))
        H.mat = A.SArr([2*NN+1]*2, h_rows(NN, MP), 'f', name='Hmp')
        e = g('seg0_0_1')(loops.inner(mod, fn, '0_1', e, [h]), MP)

        def entry(i, j):
            a, b = to_ex(i)-NN, to_ex(j)-NN
            for r in (MP+1, -MP-1):
                if CTX.decide(eq(a, r)):
                    return ladder(NN, r, b) if CTX.decide(le(MP+1, b)) else E.ZERO
            return h_rows(NN, MP)([i, j])
        return out+[('list', e[h] is H), ('frame', untouched(H.nxt))]+same_array(H.mat, [2*NN+1]*2, entry)

    def end():
        e, h, H, out = start()
        H.mat = A.SArr([2*NN+1]*2, h_rows(NN, NN), 'f', name='Hn')
        e = g('seg1_1')(loops.inner(mod, fn, '0_1', e, [h]))
        out += [('list', e[h] is H), ('frame', untouched(H.nxt))]
        return out+same_array(H.mat, [2*NN+1]*2, lambda i, j: h_full(NN, to_ex(i)-NN, to_ex(j)-NN))

    def back():
        e, h, out = second()
        H = e[h]
        r = g('seg2')(loops.inner(mod, fn, '1', e, [h]))
        return out+[('all but the last', isinstance(r, tuple) and r[0] == 'all but the last' and r[1] is H)]

    def zero():
        r = src('rotations').rotate_H_recurs(0, BE)
        return [('one matrix', len(r) == 1 and S.prove_zero(to_ex(r[0].read([0, 0]))-1) and
                 [A.con(to_ex(x)) for x in r[0].shape] == [1, 1])]
    ob.paths('degree 0', zero, pre=[le(0, SB)])
    for nm, th in (('row 0', rows), ('rows 1 and -1', first_rows), ('rows mp+1 and -mp-1', inner),
                   ('symmetric copies', end), ('result', back)):
        ob.paths(nm, th, pre=[lt(0, P_), le(0, SB)])


class OwnList(A.SymList):
    """fresh list; a round of the caller's loop may replace element `at`"""
    at = new = None

    def __getitem__(self, k):
        if self.at is None or not CTX.decide(eq(k, self.at)):
            raise E.Structure('other use of the list')
        if self.new is None:
            self.new = self.elem(self.at)
        return self.new

    def __setitem__(self, k, v):
        if self.at is None or not CTX.decide(eq(k, self.at)):
            raise E.Structure('other use of the list')
        self.new = v


def H_contract(ob):
    """beta or -beta (mod 2 pi) with a sine >= 0"""
    def f(p, be):
        p, be = to_ex(p), to_ex(be)
        ob.record('precondition of rotate_H_recurs', S.prove_zero(E.cos(be)-CB) and not CTX.decide(lt(E.sin(be), 0)))
        flip = not S.prove_zero(E.sin(be)-SB)
        if flip:
            ob.record('precondition of rotate_H_recurs', S.prove_zero(E.sin(be)+SB))

        def elem(k):
            k = to_ex(k)

            def base(q):
                a, b = to_ex(q[0])-k, to_ex(q[1])-k
                v = dat(k, a, b)*eps(a)*eps(-b)
                return v*pw(Ex.const(-1), a-b) if flip else v
            return A.SArr([2*k+1]*2, base, 'f', name='H')
        return OwnList(p+1, elem)
    return f


def p_scaled(fn):
    """dlmn and wignerDl, cut at their loop"""
    def run(ob):
        mod = src('rotations', {'rotations.rotate_H_recurs': H_contract(ob)}, cut=('rotations.'+fn,))
        g = lambda k: getattr(mod, f'_vc_{k}_{fn}')
        turn = (lambda a, b: 1) if fn == 'dlmn' else (lambda a, b: E.exp_i(-(a*AL+b*GA)))

        def thunk():
            e = g('pre')(L, BE) if fn == 'dlmn' else g('pre')(L, *ANG)
            hs = [k for k, v in e.items() if isinstance(v, OwnList)]
            if len(hs) != 1:
                raise E.Structure('no list of matrices')
            h = e[hs[0]]
            out = [('range', is_range(g('head')(e), 0, L+1)), ('length', S.prove_zero(to_ex(h.n)-L-1))]
            h.at = l_
            CTX.assume(le(l_, L))
            e2 = g('round')(loops.env(mod, fn, e, ()), l_)
            out.append(('same list', e2[hs[0]] is h and e2['_vc_flow'] == 'next'))
            out += same_array(h.new, [2*l_+1]*2, lambda i, j: dat(l_, to_ex(i)-l_, to_ex(j)-l_)*turn(to_ex(i)-l_, to_ex(j)-l_))
            return out+[('returned', g('post')(e2) is h)]
        ob.paths(fn, thunk)
    return run


# ------------------------------------------------------ applying the matrices
def dmats(n):
    """arbitrary matrices for the degrees 1, 2, ...; the one of degree 0 is 1"""
    def entry(k, q):
        w, z = W(k, *q), eq(to_ex(k), 0)
        if CTX.implied(C.c_not(z)):
            return w
        return S.iv(z)+S.iv(C.c_not(z))*w
    return A.SymList(n, lambda k: A.SArr([2*to_ex(k)+1]*2, lambda q: entry(k, q), 'c', name='W'))


def W(k, i, j):
    return E.atom_ex(E.atom('el', 'W', tuple(E.to_exp(to_ex(x)) for x in (k, i, j)), True, False), 1)


def applied(q, right, ct):
    """value of the rotated array at [k, L+m]"""
    def entry(k, j):
        k, m = to_ex(k), to_ex(j)-L
        if CTX.decide(lt(k, m)) or CTX.decide(lt(k, -m)):
            return q.read([k, j])
        if CTX.decide(eq(k, 0)):
            return q.read([k, j])

        def t(i):
            a, b = k+m, to_ex(i)
            if bool(right) != bool(ct):
                a, b = b, a
            w = W(k, a, b)
            return (E.conj(w) if ct else w)*q.read([k, L-k+i])
        return spec.total(2*k+1, t, 'i')
    return entry


def p_apply(fn):
    right = fn.endswith('right')

    def run(ob):
        f = getattr(src('rotations'), fn)
        for ct in (False, True):
            def thunk():
                q = arr_in('q', L+1, 2*L+1, kind='c')
                r = f(q, dmats(L+1), ct)
                return same_array(r, [L+1, 2*L+1], applied(q, right, ct)) + \
                    [('frame', untouched(q)), ('fresh', fresh_result(r, q))]
            ob.paths(f'{fn} conj_trans={ct}', thunk)
        K, = nat('K')

        def mism():
            q = arr_in('q', L+1, 2*L+1, kind='c')
            r = f(q, dmats(K))
            return same_array(r, [L+1, 2*L+1], lambda i, j: q.read([i, j])) + \
                [('frame', untouched(q)), ('fresh', fresh_result(r, q))]
        ob.paths(f'{fn} mismatch', mism, pre=[ne(K, L+1)])
    return run


def p_rotate(ob):
    def wig(n, *ang):
        """contract of wignerDl: at least degrees 0..n"""
        ob.record('precondition of wignerDl', all(to_ex(x).same(y) for x, y in zip(ang, ANG)))
        return dmats(to_ex(n)+1)
    f = src('rotations', {'rotations.wignerDl': wig}).rotate_qlm

    def thunk():
        q = arr_in('q', L+1, 2*L+1, kind='c')
        r = f(q, *ANG)
        return same_array(r, [L+1, 2*L+1], applied(q, False, False)) + \
            [('frame', untouched(q)), ('fresh', fresh_result(r, q))]
    ob.paths('rotate_qlm', thunk)


# --------------------------------------------------------------------- lemmas
def p_body(ob):
    """the Wigner matrices of the contracts turn the moments of a point into
    the moments of the rotated point"""
    p = reals('px', 'py', 'pz')
    ca, sa, cb, sb, cg, sg = [f(x) for x in ANG for f in (E.cos, E.sin)]
    R1 = [cg*p[0]-sg*p[1], sg*p[0]+cg*p[1], p[2]]
    R2 = [cb*R1[0]+sb*R1[2], R1[1], -sb*R1[0]+cb*R1[2]]
    R3 = [ca*R2[0]-sa*R2[1], sa*R2[0]+ca*R2[1], R2[2]]
    for l in range(5):
        D = dmat(l, cb, sb, E.exp_i(AL), E.exp_i(GA))
        Do = dmat(l, cb, sb, E.exp_i(-AL), E.exp_i(-GA))
        for a in range(-l, l+1):
            t = to = E.ZERO
            for b in range(-l, l+1):
                y = solid(l, b, *p)
                t, to = t+D[a, b]*E.conj(y), to+Do[a, b]*y
            w = solid(l, a, *R3)
            ob.record('inner', S.prove_zero(t-E.conj(w)))
            ob.record('outer', S.prove_zero(to-w))


def p_flow(ob):
    """rotated bodies and unitarity for every degree.  d(beta) and
    f_a(beta) = conj(r^l Y_la)(Ry(beta) p) solve the same linear equation
        X_a' = D_a X_(a+1) - D_(a-1) X_(a-1)            (X' = A X)
    and d(0) = 1, so f(beta) = d(beta) f(0), by the uniqueness of its
    solution; A' = -A, so d d' = 1 solves (d d')' = A (d d') - (d d') A."""
    (n, a, b), (N_, A_, B_), env = hyp_forms()
    k = hyper.var('k')
    # 2 d' = 2 D_a d(a+1, b) - 2 D_(a-1) d(a-1, b), C' = -S/2, S' = C/2
    for nm, edges in (('inside', [lt(A_, N_), lt(-A_, N_)]), ('a = n', None), ('a = -n', None)):
        aa = {'inside': a, 'a = n': n, 'a = -n': -n}[nm]
        t = [(-(2*n+b-aa-2*k), [], (n, aa, b), -1, 1), ((aa-b+2*k), [], (n, aa, b), 1, -1)]
        if nm != 'a = n':
            t.append((-1, [n-aa, n+aa+1], (n, aa+1, b), 0, 0))
        if nm != 'a = -n':
            t.append((1, [n+aa, n-aa+1], (n, aa-1, b), 0, 0))
        for sub, ok in hyper.relation(t, (edges or [le(1, N_)])+[le(B_, N_), le(-B_, N_)], env):
            ob.record(f'derivative of d, {nm}: {sub}', ok)
    ob.paths('d at beta = 0', lambda: S.prove_zero(root(fac(N_-A_), fac(N_+A_), fac(N_-A_), fac(N_+A_)) /
                                                   (fac(N_+A_)*fac(N_-A_))-1), pre=[le(A_, N_), le(-A_, N_)])
    # conj(r^l Y_lm) = norm(l, m) sum over p-q=m, p+q+r=l of c(p,q,r) v^p u^q z^r
    # u = x+iy, v = x-iy; under the flow u' = v' = z, z' = -(u+v)/2
    p, q, r = nat('p', 'q', 'r')

    def c(p, q, r):
        if any(CTX.decide(lt(x, 0)) for x in (p, q, r)):
            return E.ZERO
        return pw(Ex.const(-1), p)/(pw(Ex.const(2), p+q)*fac(p)*fac(q)*fac(r))
    l, m = p+q+r, p-q
    ob.paths('flow, to m = p-q', lambda: [
        ('from m+1', S.prove_zero((p+1)*c(p+1, q, r-1)-(r+1)*c(p, q-1, r+1)/2+(l-m)*c(p, q, r)/2)),
        ('from m-1', S.prove_zero((q+1)*c(p, q+1, r-1)-(r+1)*c(p-1, q, r+1)/2-(l+m)*c(p, q, r)/2))])
    # both sides are >= 0
    ob.paths('norm, m to m-1', lambda: S.prove_zero((spec.norm(N_, A_)*(N_-A_+1)/2)**2-(D_(N_, A_-1)*spec.norm(N_, A_-1))**2),
             pre=[le(A_, N_), lt(-A_, N_)])
    ob.paths('norm, m to m+1', lambda: S.prove_zero((spec.norm(N_, A_)*(N_+A_+1)/2)**2-(D_(N_, A_)*spec.norm(N_, A_+1))**2),
             pre=[lt(A_, N_), le(-A_, N_)])
    # the terms of spec.coef are those with p = k+m, q = k
    ob.paths('same coefficients', lambda: S.prove_zero(spec.coef(l, m, q)-c(p, q, r)), pre=[le(q, p)])
    ob.paths('mirror', lambda: S.prove_zero(c(p, q, r)-pw(Ex.const(-1), m)*c(q, p, r)))
    # turning about z: u -> u e^(i gamma)
    ob.record('turning about z', S.prove_zero(E.exp_i(-(p*GA))*E.exp_i(q*GA)-E.exp_i(-(m*GA))))
    ob.record('outer: the conjugate matrix is that of the opposite angles',
              S.prove_zero(E.conj(E.exp_i(-(A_*AL+B_*GA)))-E.exp_i(-(A_*(-AL)+B_*(-GA)))))


# -------------------------------------------------------------------- runtime
def wig(l, al, be, ga):
    if l <= 10:
        return N.wigner(l, al, be, ga)
    # stable at high degree: exp(-i be Jy) by diagonalisation
    m = np.arange(-l, l+1)
    c = np.sqrt(l*(l+1)-m[:-1]*(m[:-1]+1.))
    Jy = (np.diag(c, -1)-np.diag(c, 1))/2j
    w, V = np.linalg.eigh(Jy)
    d = ((V*np.exp(-1j*be*np.rint(w))) @ V.conj().T).real
    return np.exp(-1j*al*m)[:, None]*d*np.exp(-1j*ga*m)[None, :]


def beta(rng):
    p = math.pi
    return rng.choice([0., p, -p, 2*p, p/2, -p/2, 3*p/2, 3*p, 1e-9, p-1e-9, p+1e-9, -1e-9, rng.uniform(0, p),
                       rng.uniform(0, p), rng.uniform(p, 2*p), rng.uniform(p, 2*p), rng.uniform(-p, 0),
                       rng.uniform(-20, 20), rng.uniform(-20, 20), rng.uniform(p/2, p)])


def alpha(rng):
    return rng.choice([0., math.pi, -math.pi/2, rng.uniform(-7, 7), rng.uniform(-7, 7)])


def rt_mats(fn):
    def run(rng, n, hints):
        f = getattr(real('rotations'), fn)
        for i in range(n):
            Lx = i if i < 4 else rng.choice([4, 5, 6, 8, 10, 20, 40] if fn in ('dlmn', 'wignerDl', 'rotate_H_recurs') else [3, 4, 6, 9])
            al, be, ga = alpha(rng), beta(rng), alpha(rng)
            if fn == 'rotate_H_recurs':
                be = abs(be) % math.pi if rng.random() < .8 else rng.choice([0., math.pi])
            if fn in ('dlmn', 'rotate_H_recurs', 'wignerDl'):
                st, r = attempt(f, Lx, al, be, ga) if fn == 'wignerDl' else attempt(f, Lx, be)
                if fn != 'wignerDl':
                    al = ga = 0.
                key = (Lx, al, be, ga)
                if st == 'raise':
                    yield Case(fn, key, False, repr(r))
                    continue
                yield Case(fn+' degrees', key, len(r) == Lx+1, f'{len(r)} matrices')
                for l in {0, 1, 2, 3, Lx, Lx//2}:
                    if l > min(Lx, len(r)-1):
                        continue
                    w = wig(l, al, be, ga)
                    if fn != 'wignerDl':
                        w = w.real
                    if fn == 'rotate_H_recurs':
                        e = np.array([(-1.)**m if m >= 0 else 1. for m in range(-l, l+1)])
                        w = w*np.outer(e, e[::-1])
                    try:
                        ok, d = close(r[l], w, 1., 1e-7 if l <= 10 else 1e-6)
                    except Exception as e:
                        ok, d = False, repr(e)
                    yield Case(fn, key+(l,), ok, d)
            elif fn == 'Dl':
                yield eq_case(fn, (Lx, al, be, ga), f, (Lx, al, be, ga), wig(Lx, al, be, ga), 1e-8, 1.)
            else:
                l = rng.randint(0, 9)
                for a in range(-l, l+1):
                    b = rng.randint(-l, l)
                    yield eq_case(fn, (l, b, a, al, be, ga), f, (l, b, a, al, be, ga),
                                  wig(l, al, be, ga)[l+a, l+b], 1e-8, 1.)
    return run


def rt_rot(rng, n, hints):
    f = real('rotations').rotate_qlm
    for i in range(n):
        Lx = i if i < 3 else degree(rng, rng.choice([2, 3, 4, 5, 6, 8, 12]))
        P = cloud(rng, rng.randint(1, 4), 1.2)
        a, b, g = alpha(rng), beta(rng), alpha(rng)
        R = N.euler(a, b, g)
        q, Qo = N.inner(Lx, P), N.outer(Lx, P)
        for nm, x, w, ang in (('inner', q, N.inner(Lx, N.move(P, R)), (a, b, g)),
                              ('outer', Qo, N.outer(Lx, N.move(P, R)), (-a, b, -g))):
            keep = x.copy()
            sc = np.max(np.abs(x), axis=1)[:, None]*np.ones(2*Lx+1)+1e-280
            yield eq_case('rotate_qlm '+nm, (P.tolist(), Lx, ang), f, (x, *ang), w, 1e-7, sc)
            yield Case('rotate_qlm frame', (P.tolist(), Lx, ang), np.array_equal(x, keep), 'argument changed')
        st, r = attempt(f, q, a, b, g)
        yield Case('rotate_qlm fresh', (P.tolist(), Lx), st == 'ok' and not np.shares_memory(r, q))
        if st == 'ok':
            sc = np.max(np.abs(q), axis=1)[:, None]*np.ones(2*Lx+1)+1e-280
            yield eq_case('rotate_qlm inverse', (P.tolist(), Lx, a, b, g), f, (r, -g, -b, -a), q, 1e-7, sc)


def rt_apply(fn):
    def run(rng, n, hints):
        f = getattr(real('rotations'), fn)
        right = fn.endswith('right')
        for i in range(n):
            Lx = i if i < 3 else degree(rng, rng.randint(1, 8))
            q = any_q(rng, Lx)
            if rng.random() < .4:
                ds = [N.wigner(l, 1.1, beta(rng), -.4) for l in range(Lx+1)]
            else:
                ds = [np.array([[complex(rng.uniform(-1, 1), rng.uniform(-1, 1)) for _ in range(2*l+1)]
                                for _ in range(2*l+1)]) for l in range(Lx+1)]
                ds[0] = np.ones((1, 1))
            keep, kd = q.copy(), [d.copy() for d in ds]
            for ct in (False, True):
                w = q.copy()
                for l in range(1, Lx+1):
                    M = ds[l].conj().T if ct else ds[l]
                    M = M.T if right else M
                    w[l, Lx-l:Lx+l+1] = M @ q[l, Lx-l:Lx+l+1]
                yield eq_case(fn, (q.tolist(), ct), f, (q, ds, ct), w, 1e-10, np.max(np.abs(w))+1e-300)
                st, r = attempt(f, q, ds, ct)
                yield Case(fn+' frame', (Lx, ct), np.array_equal(q, keep) and all(
                    np.array_equal(a, b) for a, b in zip(ds, kd)), 'argument changed')
                yield Case(fn+' fresh', (Lx, ct), st == 'ok' and not np.shares_memory(r, q))
    return run


def rt_lpmn(rng, n, hints):
    """the assumed contract of scipy's lpmn: sqrt((k-b)!/(k+b)!) (-1)^b
    P_k^b(cos beta) = d(k, 0, b)"""
    f = getattr(real('rotations').sp, 'lpmn', None)
    if f is None:
        return
    for i in range(n):
        k, be = rng.randint(0, 40), rng.uniform(0, math.pi)
        w = wig(k, 0., be, 0.).real[k, k:]
        c = [(-1.)**b*math.exp((math.lgamma(k-b+1)-math.lgamma(k+b+1))/2) for b in range(k+1)]
        st, r = attempt(f, k+1, k+1, math.cos(be))
        ok, d = close(np.array(r[0])[:k+1, k]*c, w, 1., 1e-7) if st == 'ok' else (False, repr(r))
        yield Case('lpmn', (k, be), ok, d)


UNITS = [
    Unit('rotations.Dlmn', ['rotations.Dlmn'], [('all l, m, n, angles', p_Dlmn)], rt_mats('Dlmn'), n=25, budget=300,
         clauses='entry (n, m) of the Wigner matrix'),
    Unit('rotations.Dl', ['rotations.Dl'], [('all l, angles', p_Dl)], rt_mats('Dl'), n=25, budget=200,
         clauses='matrix of the Dlmn entries, caller checked against the contract of Dlmn'),
    Unit('rotations.rotate_H_recurs', ['rotations.'+k for k in ('rotate_H_recurs', 'copy_tri', 'dnm', 'bnm', 'anm', 'rfac', 'rsign')],
         [('all L, all beta in [0, pi]', p_H), ('bounded: L <= 9, all beta in [0, pi]', p_small('rotate_H_recurs', 9))], rt_mats('rotate_H_recurs'), n=25, budget=500,
         clauses='H matrix of every degree 0..L'),
    Unit('rotations.dlmn', ['rotations.dlmn', 'rotations.epsm'], [('all L, all beta', p_scaled('dlmn')), ('bounded: L <= 7, all beta', p_small('dlmn', 7))],
         rt_mats('dlmn'), n=40, budget=500, clauses='small d matrix of every degree, any real beta'),
    Unit('rotations.wignerDl', ['rotations.wignerDl'], [('all L, all angles', p_scaled('wignerDl')), ('bounded: L <= 7, all angles', p_small('wignerDl', 7))],
         rt_mats('wignerDl'), n=40, budget=500, clauses='Wigner matrix of every degree, any real angles'),
    Unit('rotations.rotate_qlm', ['rotations.rotate_qlm'], [('all L, moments and angles', p_rotate)], rt_rot, n=40, budget=200,
         clauses='block product with the matrices of the contract of wignerDl; frame; fresh; rotated bodies'),
    Unit('rotations.rotate_qlm_Ds', ['rotations.rotate_qlm_Ds'], [('all L, moments and matrices', p_apply('rotate_qlm_Ds'))],
         rt_apply('rotate_qlm_Ds'), n=20, budget=200, clauses='block product, conjugate transpose; frame; fresh'),
    Unit('rotations.rotate_qlm_Ds_right', ['rotations.rotate_qlm_Ds_right'],
         [('all L, moments and matrices', p_apply('rotate_qlm_Ds_right'))],
         rt_apply('rotate_qlm_Ds_right'), n=20, budget=200, clauses='transposed block product, conjugate transpose; frame; fresh'),
    Unit('relations of the H matrices', ['rotations.rotate_H_recurs'], [('all degrees and orders', p_relations)],
         rt_lpmn, n=20, clauses='lemmas: rows 1, mp+1, -mp-1 and the two reflections satisfy the definition; run-time check of the assumed contract of lpmn'),
    Unit('rotated body, unitary', ['rotations.wignerDl'], [('all degrees, points and angles', p_flow)],
         clauses='lemma: the contract matrices turn moments of a body into moments of the rotated body, and D D+ = 1'),
    Unit('rotated body, explicitly', ['rotations.wignerDl'], [('bounded: l <= 4, all points and angles', p_body)],
         clauses='the same lemma by direct computation'),
]
ASSUMPTIONS = ['scipy.special.lpmn: P_k^b(cos beta) = (-1)^b sqrt((k+b)!/(k-b)!) d(k, 0, b) for 0 <= beta <= pi (checked at run time to degree 40)',
               'a linear differential equation with given initial value has one solution']
