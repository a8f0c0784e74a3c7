"""C10: translation of multipole moments"""
from .common import *
from .. import spec as SP, loops

L, = nat('L')
D3 = reals('rx', 'ry', 'rz')
pw, fac = SP.pw, SP.fac
half = Q(1, 2)


def away():
    return [lt(0, D3[0]*D3[0]+D3[1]*D3[1]+D3[2]*D3[2])]


def polar(d):
    r = F.sqrt(d[0]*d[0]+d[1]*d[1]+d[2]*d[2])
    return r, F.arctan2(d[1], d[0]), F.arccos(d[2]/r)


def tot(lo, hi, f):
    lo, hi = A.con(to_ex(lo)), A.con(to_ex(hi))
    if isinstance(lo, int) and isinstance(hi, int):
        return sum((to_ex(f(Ex.const(i))) for i in range(lo, hi+1)), E.ZERO)
    return SP.total(to_ex(hi)-lo+1, lambda i: f(lo+i))


def outside(l, m):
    return CTX.decide(lt(l, m)) or CTX.decide(lt(l, -to_ex(m)))


# addition theorem of the solid harmonics, as sums over the old moments
def v_qlm(q, Lx, l, m, d):
    r, ph, th = polar(d)

    def one(li):
        lp = l-li

        def mm(mi):
            if outside(lp, m-mi):
                return E.ZERO
            c = E.power(4*E.PI*fac(2*l+1)/(fac(2*lp+1)*fac(2*li+1)), half)*pw(r, lp)
            return c*to_ex(F.cg_atom(lp, li, m-mi, mi, l, m)) * \
                E.conj(to_ex(F.sph_harm(m-mi, lp, ph, th)))*q.read([li, Lx+mi])
        return tot(-to_ex(li), li, mm)
    return tot(E.ZERO, l, one)


def v_Qlm(q, Lx, l, m, d):
    r, ph, th = polar(d)

    def one(li):
        lp = li-l

        def mm(mi):
            if outside(lp, m-mi):
                return E.ZERO
            c = E.power(4*E.PI*fac(2*li)/(fac(2*lp+1)*fac(2*l)), half)*pw(r, lp)
            return c*to_ex(F.cg_atom(lp, li, m-mi, mi, l, m)) * \
                to_ex(F.sph_harm(m-mi, lp, ph, th))*q.read([li, Lx+mi])
        return tot(-to_ex(li), li, mm)
    return tot(l, Lx, one)


def v_q2Q(q, Lx, l, m, d):
    r, ph, th = polar(d)

    def one(n):
        lp = l+n

        def mm(mi):
            if outside(lp, m+mi):
                return E.ZERO
            c = E.power(4*E.PI*fac(2*lp)/(fac(2*n+1)*fac(2*l)), half)*pw(r, -(to_ex(lp)+1))
            return c*pw(Ex.const(-1), mi)*to_ex(F.cg_atom(n, lp, -mi, m+mi, l, m)) * \
                to_ex(F.sph_harm(m+mi, lp, ph, th))*q.read([n, Lx+mi])
        return tot(-to_ex(n), n, mm)
    return tot(E.ZERO, Lx, one)


VAL = {'translate_qlm': v_qlm, 'translate_Qlmb': v_Qlm, 'translate_q2Q': v_q2Q}
NUM = {'translate_qlm': N.translate_inner, 'translate_Qlmb': N.translate_outer,
       'translate_q2Q': N.translate_in_out}


def cg_contract(*a):
    return F.cg_atom(*a)


def unit_t(fn):
    def proof(ob):
        f = getattr(src('translations', {'clebschGordan.cgCoeff': cg_contract}), fn)
        cell = {}

        def call():
            cell['q'] = q = arr_in('q', L+1, 2*L+1, kind='c')
            cell['r'] = f(q, D3)
            return cell['r']
        SP.moment_array(ob, fn, call, L, lambda l, m: VAL[fn](cell['q'], L, l, m, D3), away(),
                        signed=fn == 'translate_q2Q')
        ob.record('frame', untouched(cell['q']))
        ob.record('fresh', fresh_result(cell['r'], cell['q']))
        if fn != 'translate_q2Q':
            def zero():
                q = arr_in('q', L+1, 2*L+1, kind='c')
                r = f(q, [E.ZERO]*3)
                return same_array(r, [L+1, 2*L+1], lambda i, j: q.read([i, j])) + \
                    [('fresh', r is not q and fresh_result(r, q)), ('frame', untouched(q))]
            ob.paths(fn+' by zero', zero)
    return Unit('translations.'+fn, ['translations.'+fn],
                [('all L, moments and displacements', proof)], rt('translations', fn), budget=600, n=30,
                clauses='addition theorem, entry by entry; shape; mirror; fresh result; input untouched')


# ----------------------------------------------------- recursion-free operators
def sq(x):
    return E.power(to_ex(x), half)


def coax(kind, L_, m, dr):
    """coaxial matrix of order m: entry (l', l) for translation by dr along z,
    from the addition theorem with the displacement on the axis"""
    out = {}
    for a in range(m, L_+1):
        for b in range(m, L_+1):
            v = E.ZERO
            f = math.factorial
            if kind == 'RR' and b <= a:
                v = pw(dr, a-b)*sq(Q((2*a+1)*f(a-m)*f(a+m), (2*b+1)*f(b-m)*f(b+m)))/f(a-b)*E.ONE
            if kind == 'SS' and b >= a:
                v = pw(dr, b-a)*sq(Q((2*a+1)*f(b-m)*f(b+m), (2*b+1)*f(a-m)*f(a+m)))/f(b-a)*(-1)**(b-a)
            if kind == 'SR':
                v = pw(dr, -(a+b+1))*f(a+b)*(-1)**b*sq(Q((2*a+1), (2*b+1)*f(a-m)*f(a+m)*f(b-m)*f(b+m)))
            out[a, b] = v
    return out


def coax_num(kind, L_, m, dr):
    f = math.factorial
    M = np.zeros((L_+1-m, L_+1-m))
    for a in range(m, L_+1):
        for b in range(m, L_+1):
            if kind == 'RR' and b <= a:
                v = dr**(a-b)*math.sqrt((2*a+1)*f(a-m)*f(a+m)/((2*b+1)*f(b-m)*f(b+m)))/f(a-b)
            elif kind == 'SS' and b >= a:
                v = (-dr)**(b-a)*math.sqrt((2*a+1)*f(b-m)*f(b+m)/((2*b+1)*f(a-m)*f(a+m)))/f(b-a)
            elif kind == 'SR':
                v = f(a+b)*(-1)**b*math.sqrt((2*a+1)/((2*b+1)*f(a-m)*f(a+m)*f(b-m)*f(b+m)))/abs(dr)**(a+b+1)
                v *= 1 if dr > 0 else (-1)**(a+b)
            else:
                v = 0.
            M[a-m, b-m] = v
    return M


def coax_entry(kind, m, a, b, dr, sg):
    """entry (new degree a, old degree b) of order m, displacement sg*dr"""
    m, a, b = map(to_ex, (m, a, b))
    if kind == 'RR':
        if CTX.decide(lt(a, b)):
            return E.ZERO
        return pw(dr*sg, a-b)*sq((2*a+1)*fac(a-m)*fac(a+m)/((2*b+1)*fac(b-m)*fac(b+m)))/fac(a-b)
    if kind == 'SS':
        if CTX.decide(lt(b, a)):
            return E.ZERO
        return pw(-dr*sg, b-a)*sq((2*a+1)*fac(b-m)*fac(b+m)/((2*b+1)*fac(a-m)*fac(a+m)))/fac(b-a)
    return pw(dr, -(a+b+1))*pw(Ex.const(sg), a+b)*fac(a+b)*pw(Ex.const(-1), b)*sq(
        (2*a+1)/((2*b+1)*fac(a-m)*fac(a+m)*fac(b-m)*fac(b+m)))


def is_range(it, lo, hi):
    if isinstance(it, (list, range)):
        c = A.con(CTX.normal(to_ex(hi)-lo))
        return c == len(it) and all(S.prove_zero(to_ex(x)-lo-i) for i, x in enumerate(it))
    if not isinstance(it, A.SymRange):
        raise E.Structure('not a range')
    return it.step == 1 and S.prove_zero(to_ex(it.lo)-lo) and S.prove_zero(to_ex(it.hi)-hi)


class Grow(list):
    """a list to which one round of a loop appends"""

    def __init__(self):
        list.__init__(self)
        self.got = []

    def append(self, x):
        self.got.append(x)


def p_coax(kind):
    """every degree: the function cut at its loop over the orders"""
    fn = 'transl_newt_z_'+kind
    DR, = pos('dr')
    m, = nat('m')

    def run(ob):
        mod = src('translationRecurs', cut=('translationRecurs.'+fn,))
        g = lambda k: getattr(mod, f'_vc_{k}_{fn}')
        for sg in (1, -1):
            def thunk():
                e = dict(g('pre')(L, DR*sg))
                hs = [k for k, v in e.items() if isinstance(v, list) and not v]
                if len(hs) != 1:
                    raise E.Structure('no list of matrices')
                out = [('orders', is_range(g('head')(e), 0, L+1))]
                CTX.assume(le(m, L))
                G = e[hs[0]] = Grow()
                e2 = g('round')(loops.env(mod, fn, e, hs), m)
                out.append(('one matrix more', e2[hs[0]] is G and len(G.got) == 1 and e2['_vc_flow'] == 'next'))
                out += same_array(G.got[0], [L+1-m]*2, lambda i, j: coax_entry(kind, m, m+to_ex(i), m+to_ex(j), DR, sg))
                return out+[('returned', g('post')(e2) is G)]
            ob.paths(f'{fn} sign {sg}', thunk)
    return run


def unit_coax(kind):
    fn = 'transl_newt_z_'+kind
    DR, = pos('dr')

    def proof(Lmax):
        def run(ob):
            f = getattr(src('translationRecurs'), fn)
            for Lx in range(Lmax+1):
                for sg in (1, -1):
                    def thunk():
                        r = f(Lx, DR*sg)
                        out = [('number of orders', len(r) == Lx+1)]
                        for m in range(Lx+1):
                            w = coax(kind, Lx, m, DR)
                            out.append(('shape', [A.con(to_ex(n)) for n in r[m].shape] == [Lx+1-m]*2))
                            for (a, b), v in w.items():
                                e = (a-b) if kind != 'SR' else a+b
                                if sg < 0:
                                    v = v*(-1)**e
                                out.append((f'{m}:{a},{b}', S.prove_zero(to_ex(r[m].read([a-m, b-m]))-v)))
                        return out
                    ob.paths(f'{fn} L={Lx} sign {sg}', thunk)
        return run

    def run(rng, n, hints):
        f = getattr(real('translationRecurs'), fn)
        for i in range(n):
            Lx = rng.randint(0, 12)
            dr = rng.choice([1, -1, 1])*10**rng.uniform(-1.5, 1.5)
            st, r = attempt(f, Lx, dr)
            if st == 'raise':
                yield Case(fn, (Lx, dr), False, repr(r))
                continue
            yield Case(fn+' orders', (Lx, dr), len(r) == Lx+1)
            for m in range(min(len(r), Lx+1)):
                w = coax_num(kind, Lx, m, dr)
                try:
                    ok, d = close(r[m], w, np.abs(w)+1e-250, 1e-9)
                except Exception as e:
                    ok, d = False, repr(e)
                yield Case(fn, (Lx, dr, m), ok, d)
    return Unit(fn, ['translationRecurs.'+fn, 'translationRecurs.alphanm', 'translationRecurs.betanm'],
                [('all L, all displacements', p_coax(kind)), ('bounded: L <= 6, all displacements', proof(6))], run, n=25,
                clauses='coaxial matrix of every order, both directions along z')


def mats_in(Lx):
    return [A.SArr([Lx+1-m]*2, (lambda m: lambda q: E.atom_ex(E.atom(
        'el', f'T{m}', tuple(E.to_exp(to_ex(i)) for i in q), False, False), 1))(m), 'f', name=f'T{m}') for m in range(Lx+1)]


def tmats(n):
    """a list of n real matrices, number k of size (n-k)x(n-k)"""
    return A.SymList(n, lambda k: A.SArr([to_ex(n)-k]*2, lambda q: TT(k, *q), 'f', name='T'))


def TT(k, i, j):
    return E.atom_ex(E.atom('el', 'T', tuple(E.to_exp(to_ex(x)) for x in (k, i, j)), False, False), 1)


def coaxed(q, right, flip):
    """value at [l, L+m] after order by order multiplication"""
    def entry(l, j):
        l, m = to_ex(l), to_ex(j)-L
        if flip:
            m = -m
        k = m if CTX.decide(le(0, m)) else -m
        if CTX.decide(lt(l, k)):
            return E.ZERO
        return SP.total(L+1-k, lambda i: TT(k, *((i, l-k) if right else (l-k, i)))*q.read([k+i, L+m]), 'i')
    return entry


def unit_apply(fn, right):
    def unb(ob):
        f = getattr(src('translationRecurs'), fn)
        K_, = nat('K')
        for flip in (False, True):
            def thunk():
                q = arr_in('q', L+1, 2*L+1, kind='c')
                r = f(q, tmats(L+1), flip)
                return same_array(r, [L+1, 2*L+1], coaxed(q, right, flip)) + \
                    [('frame', untouched(q)), ('fresh', fresh_result(r, q))]
            ob.paths(f'{fn} flip={flip}', thunk)
        ob.paths(fn+' mismatch', lambda: f(arr_in('q', L+1, 2*L+1, kind='c'), tmats(K_)), pre=[ne(K_, L+1)], want=ValueError)

    def proof(Lmax):
        def run(ob):
            f = getattr(src('translationRecurs'), fn)
            for Lx in range(Lmax+1):
                for flip in (False, True):
                    def thunk():
                        q = arr_in('q', Lx+1, 2*Lx+1, kind='c')
                        T = mats_in(Lx)
                        r = f(q, T, flip)
                        out = []

                        def want(l, m):
                            if flip:
                                m = -m
                            k = abs(m)
                            if l < k:
                                return E.ZERO
                            t = E.ZERO
                            for j in range(k, Lx+1):
                                i = [j-k, l-k] if right else [l-k, j-k]
                                t = t+T[k].read(i)*q.read([j, Lx+m])
                            return t
                        for l in range(Lx+1):
                            for m in range(-Lx, Lx+1):
                                out.append(('entry', S.prove_zero(to_ex(r.read([l, Lx+m]))-want(l, m))))
                        return out+[('frame', untouched(q, *T))]
                    ob.paths(f'{fn} L={Lx}', thunk)
            ob.paths(fn+' mismatch', lambda: f(arr_in('q', 3, 5, kind='c'), mats_in(3)), want=ValueError)
        return run

    def run(rng, n, hints):
        f = getattr(real('translationRecurs'), fn)
        for i in range(n):
            Lx = degree(rng, rng.randint(0, 8))
            T = [np.array([[rng.uniform(-1, 1) for _ in range(Lx+1-m)] for _ in range(Lx+1-m)]) for m in range(Lx+1)]
            q = any_q(rng, Lx)
            w = np.zeros_like(q)
            for m in range(-Lx, Lx+1):
                k = abs(m)
                M = T[k].T if right else T[k]
                w[k:, Lx+m] = M @ q[k:, Lx+m]
            fl = rng.random() < .4
            if fl:
                w = w[:, ::-1]
            yield eq_case(fn, (q.tolist(), fl), f, (q, T, fl), w, 1e-12, np.max(np.abs(w))+1e-300)
            yield rej_case(fn+' mismatch', Lx, f, (q, T[:-1] if Lx else T+[T[0]]))
    return Unit(fn, ['translationRecurs.'+fn], [('all L, matrices and moments', unb), ('bounded: L <= 4, all matrices and moments', proof(4))], run, n=25,
                clauses='order by order product; optional flip of the order; mismatched degree rejected')


def any_q(rng, Lx, sym=True):
    """random moments of a real mass distribution"""
    q = np.zeros([Lx+1, 2*Lx+1], dtype=complex)
    for l in range(Lx+1):
        q[l, Lx] = rng.uniform(-1, 1)
        for m in range(1, l+1):
            q[l, Lx+m] = complex(rng.uniform(-1, 1), rng.uniform(-1, 1))
    c = rng.random()
    if c < .3:
        # bodies with planes of symmetry, some empty degrees or orders
        for l in range(Lx+1):
            if rng.random() < .5:
                q[l] = (q[l].real, 1j*q[l].imag, 0*q[l])[rng.choice([0, 1, 1, 2])]
        if c < .05:
            q[:, Lx+rng.randint(0, Lx)] = 0
    for m in range(1, Lx+1):
        q[:, Lx-m] = (-1)**m*np.conj(q[:, Lx+m])
    return q


def disp(rng, kind):
    s = rng.choice([.1, 1, 4]) if kind != 'translate_q2Q' else rng.choice([.5, 1, 6])
    d = [rng.uniform(-s, s) for _ in range(3)]
    c = rng.random()
    if c < .12:
        d[0] = d[1] = 0.
    elif c < .2:
        d[2] = 0.
    elif c < .26:
        d[0] = d[2] = 0.
    elif c < .32:
        d[1] = d[2] = 0.
    elif c < .38 and kind != 'translate_q2Q':
        d = [0., 0., 0.]
    return d


def rt(mod, fn):
    def run(rng, n, hints):
        f = getattr(real(mod), fn)
        for i in range(n):
            Lx = degree(rng, rng.choice([0, 1, 2, 3, 4, 5, 6, 8]), 12)
            if i < 2*n//3:
                q = any_q(rng, Lx)
            else:
                P = cloud(rng, 3, 1.)
                q = N.outer(Lx, P) if fn == 'translate_Qlmb' else N.inner(Lx, P)
            d = disp(rng, fn)
            w = NUM[fn](q, d)
            tol = np.max(np.abs(w), axis=1)[:, None]*np.ones(2*Lx+1)+1e-3*np.max(np.abs(w))*(fn == 'translate_Qlmb')
            if rng.random() < .35:
                # the same body and displacement in any unit of length
                u = 10**rng.uniform(-9, 9)
                ls = np.arange(Lx+1)[:, None]
                ui, uo = u**ls, u**(-ls-1.)
                d = [x*u for x in d]
                q = q*(uo if fn == 'translate_Qlmb' else ui)
                us = ui if fn == 'translate_qlm' else uo
                w, tol = w*us, tol*us
            d = d if rng.random() < .5 else np.array(d)
            keep = q.copy()
            yield eq_case(fn, (q.tolist(), list(d)), f, (q, d), w, 1e-8, tol+1e-280)
            yield Case(fn+' frame', (q.tolist(), list(d)), np.array_equal(keep, q), 'input changed')
            if not np.any(d):
                st, r = attempt(f, q, d)
                yield Case(fn+' by zero is a copy', q.tolist(), st == 'ok' and not np.shares_memory(r, q))
        # against moved point masses
        for i in range(n//3):
            P = cloud(rng, rng.randint(1, 4), 1.)
            d = np.array(disp(rng, fn))
            if fn == 'translate_qlm':
                Lx = rng.randint(1, 6)
                w = N.inner(Lx, N.move(P, t=d))
                yield eq_case(fn+' moved body', (P.tolist(), d.tolist()), f, (N.inner(Lx, P), d), w, 1e-9,
                              np.max(np.abs(w), axis=1)[:, None]+1e-9)
            else:
                Lx, K = 14, 3
                P[:, 1:4] *= .3
                if fn == 'translate_Qlmb':
                    P = N.move(P, t=[2, -2.5, 2.5])
                    d = d/4/(1+np.linalg.norm(d))
                    g, w = f(N.outer(Lx, P), d), N.outer(Lx, N.move(P, t=d))
                else:
                    d = d/np.linalg.norm(d)*5
                    g, w = f(N.inner(Lx, P), d), N.outer(Lx, N.move(P, t=d))
                ok, dd = close(g[:K], w[:K], 1e-4, 1.)
                yield Case(fn+' moved body', (P.tolist(), d.tolist()), ok, dd)
    return run


# ------------------------------------------------------------- composed functions
def dmat(l, c, s, ea, eg):
    """rotation matrix of R = Rz(a) Ry(b) Rz(g): c = cos b, s = sin b,
    ea = exp(i a), eg = exp(i g)"""
    f = math.factorial
    out = {}
    for a in range(-l, l+1):
        for b in range(-l, l+1):
            t = E.ZERO
            par = (a-b) % 2
            for k in range(max(0, b-a), min(l+b, l-a)+1):
                u, v = 2*l+b-a-2*k, a-b+2*k
                w = E.power((1+c)/2, (u-par)//2)*E.power((1-c)/2, (v-par)//2)
                if par:
                    w = w*s/2
                t = t+w*Q((-1)**(a-b+k), f(l+b-k)*f(k)*f(a-b+k)*f(l-a-k))
            t = t*E.power(to_ex(f(l+a)*f(l-a)*f(l+b)*f(l-b)), half)
            out[a, b] = t*E.power(ea, -a)*E.power(eg, -b)
    return out


def wigner_contract(L_, al, be, ga):
    """contract of rotations.wignerDl (property C09)"""
    L_ = int(A.con(to_ex(L_)))
    c, s, ea, eg = E.cos(to_ex(be)), E.sin(to_ex(be)), E.exp_i(to_ex(al)), E.exp_i(to_ex(ga))
    out = []
    for l in range(L_+1):
        d = dmat(l, c, s, ea, eg)
        out.append(A.asarr([[d[a, b] for b in range(-l, l+1)] for a in range(-l, l+1)]))
    return out


def coax_contract(kind):
    def f(L_, dr):
        L_ = int(A.con(to_ex(L_)))
        out = []
        for m in range(L_+1):
            w = coax(kind, L_, m, to_ex(dr))
            out.append(A.asarr([[w[a, b] for b in range(m, L_+1)] for a in range(m, L_+1)]))
        return out
    return f


CONTRACTS = {'rotations.wignerDl': wigner_contract,
             **{'translationRecurs.transl_newt_z_'+k: coax_contract(k) for k in ('RR', 'SS', 'SR')}}


def symq(name, Lx, herm=True):
    """symbolic moments of a real mass distribution"""
    def base(q):
        l, m = int(A.con(to_ex(q[0]))), int(A.con(to_ex(q[1])))-Lx
        if abs(m) > l:
            return E.ZERO
        at = lambda m: E.atom_ex(E.atom('el', name, (E.to_exp(to_ex(l)), E.to_exp(to_ex(m))), bool(m), False), 1)
        return at(m) if m >= 0 else (-1)**m*E.conj(at(-m))
    return A.SArr([Lx+1, 2*Lx+1], base, 'c', name=name)


# whole translations, every degree: rotate, translate along z, rotate back
KIND = {'translate_qlm': 'RR', 'translate_Qlmb': 'SS', 'translate_q2Q': 'SR'}
PHI = E.angle('phi')


def azim(d, ph, x):
    """x = k phi as a multiple of a free angle, of 0 or of pi"""
    to = PHI
    if CTX.decide(eq(d[1], 0)):
        to = E.ZERO if CTX.decide(le(0, d[0])) else E.PI
    for k in (-1, 1, 0):
        if S.prove_zero(E.exp_i(x)-E.exp_i(k*ph)):
            return k*to
    raise E.Structure('another azimuth')


def wig_entry(th, k, a, b, al, be, ga):
    """D^k[a, b] with beta = -theta, or theta by the transposed matrix"""
    c, s, ct, st = E.cos(be), E.sin(be), E.cos(th), E.sin(th)
    if not S.prove_zero(c-ct) or not (S.prove_zero(s+st) or S.prove_zero(s-st)):
        raise E.Structure('another angle')
    ix = (k, a, b) if S.prove_zero(s+st) else (k, b, a)
    return E.atom_ex(E.atom('el', 'dm', tuple(E.to_exp(to_ex(x)) for x in ix), False, False), 1)*E.exp_i(-(a*al+b*ga))


class Wig(A.SymList):
    pass


def rotated(rd, D, ct):
    """the moments multiplied by the matrices, degree by degree"""
    def base(ix):
        k, m = to_ex(ix[0]), to_ex(ix[1])-L
        if outside(k, m) or CTX.decide(eq(k, 0)):
            return rd(ix)

        def t(i):
            b = to_ex(i)-k
            return (E.conj(D(k, b, m)) if ct else D(k, m, b))*rd([k, L+b])
        return SP.total(2*k+1, t, 'i')
    return base


def mom(base, name):
    return A.SArr([L+1, 2*L+1], base, 'c', name=name)


def trr_contracts(ob, d, fn):
    """wignerDl and rotate_qlm_Ds (C09), the coaxial matrices and apply_trans_mat (here)"""
    def wig(n, al, be, ga):
        n, al, be, ga = map(to_ex, (n, al, be, ga))
        _, ph, th = polar(d)
        al, ga = azim(d, ph, al), azim(d, ph, ga)
        return Wig(n+1, lambda k: A.SArr([2*to_ex(k)+1]*2, lambda q: wig_entry(
            th, k, to_ex(q[0])-k, to_ex(q[1])-k, al, be, ga), 'c', name='D'))

    def rot(q, ds, conj_trans=False):
        q = A.asarr(q)
        if not isinstance(ds, Wig):
            raise E.Structure('other matrices')
        ob.record('precondition of rotate_qlm_Ds', S.prove_zero(to_ex(ds.n)-L-1) and S.prove_zero(to_ex(q.shape[0])-L-1))
        return mom(rotated(q.snap(), lambda k, a, b: ds[k].read([k+a, k+b]), bool(conj_trans)), 'rot')

    def coax_c(kind):
        def f(n, dr):
            r = F.sqrt(d[0]*d[0]+d[1]*d[1]+d[2]*d[2])
            ob.record('precondition of transl_newt_z', S.prove_zero(to_ex(n)-L) and kind == KIND[fn] and
                      S.prove_zero(to_ex(dr)-r))
            return tmats(L+1)
        return f

    def app(q, efms, q2Q=False):
        q = A.asarr(q)
        ob.record('precondition of apply_trans_mat', isinstance(efms, A.SymList) and S.prove_zero(to_ex(efms.n)-L-1) and
                  S.prove_zero(to_ex(q.shape[0])-L-1))
        e = coaxed(q, False, bool(q2Q))
        return mom(lambda ix: e(*ix), 'coax')
    return {'rotations.wignerDl': wig, 'rotations.rotate_qlm_Ds': rot, 'translationRecurs.apply_trans_mat': app,
            **{'translationRecurs.transl_newt_z_'+k: coax_c(k) for k in ('RR', 'SS', 'SR')}}


def trr_want(fn, q, d, axis):
    """inner moments turn with D, outer ones with its conjugate, D the matrix of
    the rotation Ry(-theta) Rz(-phi), which turns the displacement onto +z"""
    flip = fn == 'translate_q2Q'
    if axis:
        return coaxed(q, False, flip)
    _, ph, th = polar(d)
    ga = azim(d, ph, -ph)
    D = lambda k, a, b: wig_entry(th, k, a, b, E.ZERO, -th, ga)
    Dc = lambda k, a, b: E.conj(D(k, a, b))
    q1 = mom(rotated(q.snap(), Dc if fn == 'translate_Qlmb' else D, False), 'rot')
    e = coaxed(q1, False, flip)
    q2 = mom(lambda ix: e(*ix), 'coax')
    b = rotated(q2.snap(), D if fn == 'translate_qlm' else Dc, True)
    return lambda i, j: b([i, j])


def p_trr(fn):
    def run(ob):
        Z, = pos('Z')
        for nm, d in (('generic', D3), ('+z', [E.ZERO, E.ZERO, Z]), ('-z', [E.ZERO, E.ZERO, -Z])):
            f = getattr(src('translationRecurs', trr_contracts(ob, d, fn)), fn)

            def thunk():
                if nm == 'generic':
                    CTX.assume(lt(0, d[0]*d[0]+d[1]*d[1]))
                q = arr_in('q', L+1, 2*L+1, kind='c')
                r = f(q, d)
                return same_array(r, [L+1, 2*L+1], trr_want(fn, q, d, nm == '+z')) + \
                    [('frame', untouched(q)), ('fresh', fresh_result(r, q))]
            ob.paths(f'{fn} {nm}', thunk)

        def zero():
            q = arr_in('q', L+1, 2*L+1, kind='c')
            r = f(q, [E.ZERO]*3)
            return same_array(r, [L+1, 2*L+1], lambda i, j: q.read([i, j])) + \
                [('frame', untouched(q)), ('fresh', r is not q and fresh_result(r, q))]
        ob.paths(fn+' by zero', zero)
    return run


def axis_lemma(ob):
    """the coaxial matrices are the addition theorem for a displacement on the
    z axis (spherical harmonics there: sqrt((2l+1)/4pi) for m = 0, else 0), and
    the rotation of the contract turns the displacement onto that axis"""
    from .c11 import cg
    a, b, m = nat('a', 'b', 'm')
    dr, = pos('dr')
    y = lambda l: E.power((2*to_ex(l)+1)/(4*E.PI), half)
    inside = [le(m, a), le(m, b)]

    def inner():
        lp = a-b
        c = E.power(4*E.PI*fac(2*a+1)/(fac(2*lp+1)*fac(2*b+1)), half)*pw(dr, lp)*y(lp)
        return S.prove_zero(c*cg(lp, b, E.ZERO, m, a, m)-coax_entry('RR', m, a, b, dr, 1))
    ob.paths('inner', inner, pre=inside+[le(b, a)])

    def outer():
        lp = b-a
        c = E.power(4*E.PI*fac(2*b)/(fac(2*lp+1)*fac(2*a)), half)*pw(dr, lp)*y(lp)
        return S.prove_zero(c*cg(lp, b, E.ZERO, m, a, m)-coax_entry('SS', m, a, b, dr, 1))
    ob.paths('outer', outer, pre=inside+[le(a, b)])

    for sg in (1, -1):
        def both():
            # new order sg*m takes old order -sg*m
            lp = a+b
            c = E.power(4*E.PI*fac(2*lp)/(fac(2*b+1)*fac(2*a)), half)*pw(dr, -(lp+1))*pw(Ex.const(-1), m)*y(lp)
            return S.prove_zero(c*cg(b, lp, m*sg, E.ZERO, a, m*sg)-coax_entry('SR', m, a, b, dr, 1))
        ob.paths('inner to outer', both, pre=inside)
    def turned():
        d = D3
        r, ph, th = polar(d)
        cp, sp_, ct, st = E.cos(ph), E.sin(ph), E.cos(th), E.sin(th)
        u = [cp*d[0]+sp_*d[1], -sp_*d[0]+cp*d[1], d[2]]
        v = [ct*u[0]-st*u[2], u[1], st*u[0]+ct*u[2]]
        return [('x', S.prove_zero(v[0])), ('y', S.prove_zero(v[1])), ('z', S.prove_zero(v[2]-r))]
    ob.paths('turned onto z', turned, pre=[lt(0, D3[0]*D3[0]+D3[1]*D3[1])])


def unit_trr(fn, Lmax):
    def proof(ob):
        f = getattr(src('translationRecurs', CONTRACTS), fn)
        X, Y, Z = pos('X', 'Y', 'Z')
        dirs = {'generic': D3, '+z': [E.ZERO, E.ZERO, Z], '-z': [E.ZERO, E.ZERO, -Z],
                '-x': [-X, E.ZERO, E.ZERO], 'plane': [D3[0], D3[1], E.ZERO]}
        for Lx in range(Lmax+1):
            for nm, d in dirs.items():
                def thunk():
                    if nm in ('generic', 'plane'):
                        CTX.assume(lt(0, d[0]*d[0]+d[1]*d[1]))
                    q = symq('q', Lx)
                    r = f(q, d)
                    out = [('shape', [A.con(to_ex(n)) for n in r.shape] == [Lx+1, 2*Lx+1])]
                    for l in range(Lx+1):
                        for m in range(-Lx, Lx+1):
                            w = VAL[fn](q, Ex.const(Lx), Ex.const(l), Ex.const(m), d) if abs(m) <= l else E.ZERO
                            out.append((f'{l},{m}', S.prove_zero(to_ex(r.read([l, Lx+m]))-w)))
                    return out+[('frame', untouched(q))]
                ob.paths(f'{fn} L={Lx} {nm}', thunk)
    return Unit('translationRecurs.'+fn, ['translationRecurs.'+fn, 'rotations.rotate_qlm_Ds',
                                          'translationRecurs.apply_trans_mat'],
                [('all L, moments and displacements', p_trr(fn)), (f'bounded: L <= {Lmax}, all moments and displacements', proof)],
                rt('translationRecurs', fn), n=40, budget=600,
                clauses='equals the addition theorem entry by entry')


def solid(l, m, x, y, z):
    """r^l Y_lm as a polynomial"""
    if abs(m) > l:
        return E.ZERO
    if m < 0:
        return (-1)**m*E.conj(solid(l, -m, x, y, z))
    f = math.factorial
    t = E.ZERO
    for k in range((l-m)//2+1):
        t = t+(x*x+y*y)**k*z**(l-m-2*k)*Q((-1)**k, 2**(m+2*k)*f(m+k)*f(k)*f(l-m-2*k))
    n = E.power(to_ex(Q((2*l+1)*f(l-m)*f(l+m)))/(4*E.PI), half)*(-1)**m
    return n*t*(x+E.I*y)**m


def addition(ob):
    """the sum of the contract is the moment of the moved point"""
    p, d = reals('px', 'py', 'pz'), reals('dx', 'dy', 'dz')
    for l in range(5):
        for m in range(-l, l+1):
            t = E.ZERO
            for li in range(l+1):
                lp = l-li
                c = sq(4*E.PI*Q(math.factorial(2*l+1), math.factorial(2*lp+1)*math.factorial(2*li+1)))
                for mi in range(-li, li+1):
                    if abs(m-mi) <= lp:
                        t = t+c*F.cg_value(lp, li, m-mi, mi, l, m)*solid(lp, m-mi, *d)*solid(li, mi, *p)
            w = solid(l, m, *[a+b for a, b in zip(p, d)])
            ob.record('addition theorem', S.prove_zero(t-w))


def addition_all(ob):
    """every degree: with conj(r^l Y_lm) = norm(l, m) * sum over p-q=m, p+q+r=l
    of c(p,q,r) v^p u^q z^r, the binomial theorem for v, u and z separates the
    sum at p+d into those at p and d, and the contract's coefficients are the
    quotients of the norms"""
    from .c11 import cg
    p, q, r, x, y, z = nat('p', 'q', 'r', 'x', 'y', 'z')

    def c(p, q, r):
        return pw(Ex.const(-1), p)/(pw(Ex.const(2), p+q)*fac(p)*fac(q)*fac(r))
    ob.paths('binomial', lambda: S.prove_zero(
        c(p, q, r)*SP.binom(p, x)*SP.binom(q, y)*SP.binom(r, z)-c(x, y, z)*c(p-x, q-y, r-z)),
        pre=[le(x, p), le(y, q), le(z, r)])
    ob.paths('same coefficients', lambda: S.prove_zero(SP.coef(p+q+r, p-q, q)-c(p, q, r)), pre=[le(q, p)])
    ob.paths('mirror', lambda: S.prove_zero(c(p, q, r)-pw(Ex.const(-1), p-q)*c(q, p, r)))
    j, k = nat('j', 'k')
    a, b = (E.sym(n, 'int') for n in ('a', 'b'))
    pre = [le(a, j), le(-a, j), le(b, k), le(-b, k)]

    def norms():
        f = E.power(4*E.PI*fac(2*(j+k)+1)/(fac(2*j+1)*fac(2*k+1)), half)
        g = cg(j, k, a, b, j+k, a+b)
        # one term of the Racah sum, positive
        one = E.power(fac(2*j)*fac(2*k)/fac(2*(j+k)), half)*E.power(
            fac(j+k+a+b)*fac(j+k-a-b)/(fac(j-a)*fac(j+a)*fac(k-b)*fac(k+b)), half)
        return [('stretched Clebsch-Gordan', S.prove_zero(g-one)),
                ('norms', S.prove_zero((f*one*SP.norm(j, a)*SP.norm(k, b))**2-SP.norm(j+k, a+b)**2))]
    ob.paths('coefficients', norms, pre=pre)


def addition_outer(ob):
    """every degree: with r^l Y_lm = norm(l, m) R_lm, R_lm = sum over p-q=m,
    p+q+r=l of c(p,q,r) u^p v^q z^r, and S_lm = (l-m)! (l+m)! R_lm/r^(2l+1),
    the derivatives of S_lm in u, v and z are -S_(l+1,m-1)/2, S_(l+1,m+1)/2 and
    -S_(l+1,m) (r^2 = uv+z^2), so by Taylor's theorem S_lm(R+p) is the sum over
    n, k of (-1)^n conj(R_nk(p)) S_(l+n,m+k)(R), and the coefficients of both
    contracts are the quotients of the norms"""
    from .c11 import cg
    p, q, r = nat('p', 'q', 'r')

    def c(p, q, r):
        return pw(Ex.const(-1), p)/(pw(Ex.const(2), p+q)*fac(p)*fac(q)*fac(r))
    # c one and two places down, as multiples of c (zero where an index would be negative)
    down = {'u': (1, 0, 0), 'v': (0, 1, 0), 'z': (0, 0, 1)}
    ratio = {'u': -2*p, 'v': 2*q, 'z': r}
    for k, (a, b, d) in down.items():
        ob.paths('one down in '+k, lambda: S.prove_zero(c(p-a, q-b, r-d)-ratio[k]*c(p, q, r)), pre=[le(a, p), le(b, q), le(d, r)])
    uv, zz = ratio['u']*ratio['v'], r*(r-1)
    ob.paths('two down in z', lambda: S.prove_zero(c(p, q, r-2)-zz*c(p, q, r)), pre=[le(2, r)])
    ob.paths('one down in u and v', lambda: S.prove_zero(c(p-1, q-1, r)-uv*c(p, q, r)), pre=[le(1, p), le(1, q)])
    # derivatives of R, coefficient by coefficient
    for k, (a, b, d), w in (('u', down['u'], -half), ('v', down['v'], half), ('z', down['z'], 1)):
        n = [p+a, q+b, r+d]
        ob.paths('derivative in '+k, lambda: S.prove_zero((n[0]*a+n[1]*b+n[2]*d)*c(*n)-w*c(p, q, r)))
    # r^(2l+3) (d/dz, d/du, d/dv) (R_lm/r^(2l+1)), coefficient of u^p v^q z^r over c(p,q,r)
    l = p+q+r-1
    sq_r = uv+zz
    m = p-q
    ob.paths('z', lambda: S.prove_zero(sq_r-(2*l+1)*r+(l+1-m)*(l+1+m)))
    m = p-q+1
    ob.paths('u', lambda: S.prove_zero(-half*sq_r-half*(2*l+1)*ratio['v']+half*(l-m+2)*(l-m+1)))
    m = p-q-1
    ob.paths('v', lambda: S.prove_zero(half*sq_r-half*(2*l+1)*ratio['u']-half*(l+m+2)*(l+m+1)))
    # the term u^q v^p z^r of Taylor's series is the one of (-1)^n conj(R_nk), k = p-q
    n = p+q+r
    ob.paths('Taylor', lambda: S.prove_zero(
        pw(-half*E.ONE, q)*pw(half*E.ONE, p)*pw(Ex.const(-1), r)/(fac(p)*fac(q)*fac(r))-pw(Ex.const(-1), n)*c(p, q, r)))
    ob.paths('mirror', lambda: S.prove_zero(c(p, q, r)-pw(Ex.const(-1), p-q)*c(q, p, r)))
    j, n = nat('j', 'n')
    a, b = (E.sym(x, 'int') for x in ('a', 'b'))
    lp, mi = j+n, a+b

    def norms():
        f = E.power(4*E.PI*fac(2*lp)/(fac(2*n+1)*fac(2*j)), half)
        g = cg(n, lp, -b, mi, j, a)
        # the one term of the Racah sum
        one = pw(Ex.const(-1), n+b)*E.power(fac(2*n)*fac(2*j+1)/fac(2*lp+1), half)*E.power(
            fac(lp+mi)*fac(lp-mi)/(fac(n+b)*fac(n-b)*fac(j+a)*fac(j-a)), half)
        want = SP.norm(j, a)/(fac(j-a)*fac(j+a))*fac(lp-mi)*fac(lp+mi)/(SP.norm(lp, mi)*SP.norm(n, b))
        return [('Clebsch-Gordan of the smallest sum', S.prove_zero(g-one)),
                ('norms', S.prove_zero((f*one)**2-want**2))]
    ob.paths('coefficients', norms, pre=[le(a, j), le(-a, j), le(b, n), le(-b, n)])


UNITS = [Unit('addition theorem on the axis', ['translationRecurs.'+k for k in VAL], [('all degrees and displacements', axis_lemma)],
              clauses='lemma: the coaxial matrices and the rotation onto the axis'),
         Unit('addition theorem', ['translations.translate_qlm'], [('all degrees, points and displacements', addition_all)],
              clauses='lemma: the contract of the inner translation is the moment of the moved body'),
         Unit('addition theorem, outer', ['translations.translate_Qlmb', 'translations.translate_q2Q'],
              [('all degrees, points and displacements', addition_outer)],
              clauses='lemma: the contracts of the other two translations give the outer moments of the moved body'),
         Unit('addition theorem, explicitly', ['translations.translate_qlm'], [('bounded: l <= 4, all points and displacements', addition)],
              clauses='lemma: the contract of the inner translation is the moment of the moved body')] + \
    [unit_t(k) for k in VAL]+[unit_coax(k) for k in ('RR', 'SS', 'SR')] + \
    [unit_apply('apply_trans_mat', False), unit_apply('apply_trans_mat_right', True)] + \
    [unit_trr(k, 2) for k in VAL]
ASSUMPTIONS = ["Taylor's theorem for the outer solid harmonics (which converges within the distance of the body); the steps of the proof are discharged",
               'rotating, moving along z and rotating back moves the body, as the lemmas of C09 and C10 show for each step (composition of motions)']
