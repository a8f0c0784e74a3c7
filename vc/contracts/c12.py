"""C12: the multipole force

F_j = 4 pi G sum over l <= L, m of Q_lm/(2l+1) d/dx_j of the (l, m) moment of
the sensor displaced by (x, y, z) - the addition theorem of C10 written with
the conjugate solid harmonics Y~ of Stirling's normalisation:
Y~_lm = conj(r^l Y_lm) / sqrt((2l+1)/(4 pi) (l-m)! (l+m)!)."""
from .common import *
from .c10 import solid, symq, any_q, pw
from . import c01
from .. import loops

L, = nat('L')
X, Y, Z = reals('x', 'y', 'z')
CN, = reals('cnst')
half = Q(1, 2)
fac = spec.fac


def sq(x):
    return E.power(to_ex(x), half)


def ytil(l, m, x, y, z):
    f = math.factorial
    n = sq(Q((2*l+1)*f(l-m)*f(l+m))/(4*E.PI))
    return E.conj(solid(l, m, x, y, z))/n


def deriv(p, v):
    """derivative of a polynomial in symbols"""
    va = next(iter(E.deep_atoms(v)))
    out = E.ZERO
    for m, c in p.d.items():
        e = dict(m).get(va, 0)
        if e:
            t = Ex.const(c*e)
            for a, k in m:
                t = t*E.atom_ex(a, k-1 if a == va else k)
            out = out+t
    return out


def p_basis(Lmax):
    def run(ob):
        f = src('multipoleLib').force_basis
        for Lx in range(Lmax+1):
            for nm, p in (('generic', (X, Y, Z)), ('origin', (E.ZERO,)*3), ('axis', (E.ZERO, E.ZERO, Z))):
                def thunk():
                    if nm != 'origin':
                        CTX.assume(C.c_not(eq(p[2], 0)) if nm == 'axis' else lt(0, X*X+Y*Y+Z*Z))
                    bs = f(Lx, *p)
                    out = [('three components', len(bs) == 3)]
                    for j, (b, v) in enumerate(zip(bs, (X, Y, Z))):
                        out.append(('shape', [A.con(to_ex(n)) for n in b.shape] == [Lx+1, 2*Lx+1]))
                        for l in range(Lx+1):
                            for m in range(-Lx, Lx+1):
                                w = E.ZERO
                                if abs(m) <= l:
                                    w = deriv(ytil(l, m, X, Y, Z), v)
                                    if nm != 'generic':
                                        w = E.subs(w, {next(iter(E.deep_atoms(s))): k for s, k in zip((X, Y, Z), p)
                                                       if k is not s})
                                out.append((f'{"xyz"[j]} {l},{m}', S.prove_zero(to_ex(b.read([l, Lx+m]))-w)))
                    return out
                ob.paths(f'force_basis L={Lx} {nm}', thunk)
    return run


# ---------------------------------------------------------------- every degree
# T(l, m) = sum over p-q = m, p+q+r = l of u^p v^q z^r / (p! q! r!),
# u = -(x-iy)/2, v = (x+iy)/2, is Y~_lm (unit 'the normalised harmonics')
KK, MM = nat('KK', 'MM')


def T(l, m):
    return E.atom_ex(E.atom('el', 'T~', (E.to_exp(to_ex(l)), E.to_exp(to_ex(m))), True, False), 1)


def dT(j, l, m):
    """d/dx_j of T(l, m)"""
    if j == 2:
        return T(l-1, m)
    a, b = T(l-1, m+1), T(l-1, m-1)
    return (a-b)/2 if j == 0 else E.I*(a+b)/2


def explicit_T(l, m):
    t = E.ZERO
    for q in range(l+1):
        p, r = m+q, l-m-2*q
        if min(p, r) >= 0:
            t = t+(-(X-E.I*Y)/2)**p*((X+E.I*Y)/2)**q*Z**r/(math.factorial(p)*math.factorial(q)*math.factorial(r))
    return t


def zero_T(x):
    """x == 0 for an expression linear in the T: the coefficient of every
    monomial u^p v^q z^r is zero.  u^a v^b z^c T(l, m) contributes to those
    with p-q = m+a-b, p+q+r = l+a+b+c, by 1/((p-a)! (q-b)! (r-c)!) - zero for
    p < a, as is p(p-1)..(p-a+1)/p!"""
    x = CTX.normal(to_ex(x))
    if E.is_zero(x):
        return True
    xyz = {next(iter(E.deep_atoms(s))): i for i, s in enumerate((X, Y, Z))}
    terms = []
    for mono, c in x.d.items():
        ix, rest, e = None, Ex.const(c), [0, 0, 0]
        for a, k in mono:
            at = E.ATOMS[a]
            if at[0] == 'el' and at[1] == 'T~':
                if ix is not None or k != 1:
                    return S.prove_zero(x)
                ix = [E.lf_to_ex(i) for i in at[2]]
                if at[4]:
                    rest = rest*pw(Ex.const(-1), ix[1])
                    ix[1] = -ix[1]
            elif a in xyz:
                if not isinstance(k, int) and not (isinstance(k, Q) and k.denominator == 1) or k < 0:
                    return False
                e[xyz[a]] = int(k)
            else:
                rest = rest*E.atom_ex(a, k)
        if xyz.keys() & E.deep_atoms(rest):
            return False
        ix = ix or [E.ZERO, E.ZERO]         # T(0, 0) = 1
        terms.append((ix, e, rest))
    if all(i.is_const() for ix, _, _ in terms for i in ix):
        t = E.ZERO
        for ix, (i, j, k), rest in terms:
            t = t+rest*X**i*Y**j*Z**k*explicit_T(*[int(i.cval()) for i in ix])
        return S.prove_zero(t)
    groups = []
    for (l, m), (i, j, k), rest in terms:
        # x = v-u, y = -i(u+v)
        for a in range(i+1):
            for b in range(j+1):
                co = rest*math.comb(i, a)*(-1)**a*math.comb(j, b)*E.power(-E.I, j)
                pu, pv = a+b, i-a+j-b
                lt_, mt = l+pu+pv+k, m+pu-pv
                for g in groups:
                    if S.prove_zero(g[0]-lt_) and S.prove_zero(g[1]-mt):
                        g[2].append((co, pu, pv, k))
                        break
                else:
                    groups.append((lt_, mt, [(co, pu, pv, k)]))

    def fall(n, k):
        t = E.ONE
        for i in range(k):
            t = t*(n-i)
        return t
    for lt_, mt, cs in groups:
        s = CTX.normal(lt_-mt)
        if s.is_const():
            s = int(s.cval())
            for q in range(s//2+1 if s >= 0 else 0):
                r, p = s-2*q, mt+q
                t = E.ZERO
                for co, a, b, c in cs:
                    t = t+co*fall(p, a)*fall(Ex.const(q), b)*fall(Ex.const(r), c)
                if not S.prove_zero(t):
                    return False
            continue
        free = [sym for sym in (lt_, mt) for a in E.deep_atoms(sym)]
        at_l, at_m = E.deep_atoms(lt_), E.deep_atoms(mt)
        la = [a for a in at_l if a not in at_m]
        if len(la) != 1:
            return False
        t = E.ZERO
        # l by p+q+r; with q and r for themselves, p = mt+q
        q, r = CTX.fresh('q', 'nat'), CTX.fresh('r', 'nat')
        l0 = E.atom_ex(la[0], 1)
        if not S.prove_zero(lt_-l0-E.subs(lt_, {la[0]: E.ZERO})):
            return False
        back = mt+2*q+r-(lt_-l0)
        p = mt+q
        for co, a, b, c in cs:
            t = t+co*fall(p, a)*fall(q, b)*fall(r, c)
        pcs = [C.cond_subs(c, {la[0]: back}) for c in CTX.pcs()]

        def check():
            for c in pcs:
                CTX.assume(c)
            return S.prove_zero(E.subs(t, {la[0]: back}))
        for pc, rr, _ in CTX.explore(check):
            if rr[0] != 'ok' or not rr[1]:
                if C.check_sat(CTX.pcs()+pc) != 'unsat':
                    return False
    return True


def filled(j, k, mm=None):
    """contents of the arrays when round k of the loop over degrees starts;
    mm: when round mm of the loop over orders starts.  j: component, None for
    the harmonics themselves"""
    def base(q):
        l, m = to_ex(q[0]), to_ex(q[1])-L
        if CTX.decide(lt(m, 0)) or CTX.decide(lt(l, m)):
            return E.ZERO
        if CTX.decide(le(k, l)) and (mm is None or not CTX.decide(eq(l, k)) or CTX.decide(le(mm, m)) and CTX.decide(lt(m, k))):
            return E.ZERO
        return T(l, m) if j is None else dT(j, l, m)
    return base


def p_basis_all(ob):
    mod = src('multipoleLib')
    NAMES = {'ytilC': None, 'bX': 0, 'bY': 1, 'bZ': 2}
    atoms = {next(iter(E.deep_atoms(s))) for s in (X, Y, Z)}

    def find(depth, rng, env):
        arrs = {n: env.get(n) for n in NAMES}
        if depth > 1 or any(not isinstance(a, A.SArr) for a in arrs.values()):
            raise E.Structure('other variables')
        if depth == 0:
            if not (S.prove_zero(to_ex(rng.lo)-1) and S.prove_zero(to_ex(rng.hi)-L-1)):
                raise E.Structure('other degrees')
            return [(a, lambda k, n=n: filled(NAMES[n], k), n) for n, a in arrs.items()]
        if not S.prove_zero(to_ex(rng.lo)):
            raise E.Structure('other orders')
        return [(a, lambda k, n=n: filled(NAMES[n], to_ex(rng.hi), k), n) for n, a in arrs.items()]

    def thunk():
        with loops.Invariant(find, zero_T) as inv:
            return inv.run(lambda: body())

    def body():
        bs = mod.force_basis(L, X, Y, Z)
        out = [('three components', len(bs) == 3)]
        origin = all(C.check_sat(CTX.pcs()+[ne(s, 0)]) == 'unsat' for s in (X, Y, Z))
        for j, b in enumerate(bs):
            def entry(l, i):
                m = to_ex(i)-L
                if CTX.decide(lt(l, m)) or CTX.decide(lt(l, -m)):
                    return E.ZERO
                if not origin:
                    return dT(j, l, m)
                if not CTX.decide(eq(l, 1)):
                    return E.ZERO
                c = {0: {-1: half, 1: -half}, 1: {-1: E.I/2, 1: E.I/2}, 2: {0: E.ONE}}[j]
                return next((v for k, v in c.items() if CTX.decide(eq(m, k))), E.ZERO)
            out += [(f'{"xyz"[j]} {nm}', ok) for nm, ok in same_array(b, [L+1, 2*L+1], entry, zero_T)]
        return out
    C.FORMAL.update(atoms)
    try:
        ob.paths('force_basis', thunk)
    finally:
        C.FORMAL.difference_update(atoms)

def p_harmonics(ob):
    """T is Y~, dT its gradient: norm(l, m) T(l, m) = conj(r^l Y_lm)"""
    p, q, r = nat('p', 'q', 'r')

    def c(p, q, r):
        return 1/(fac(p)*fac(q)*fac(r))
    # spec.coef: in powers of v = x-iy and u = x+iy, with k = q; u, v -> 2V, -2U
    ob.paths('coefficients', lambda: S.prove_zero(
        spec.coef(p+q+r, p-q, q)*pw(Ex.const(-2), p)*pw(Ex.const(2), q)-c(p, q, r)), pre=[le(q, p)])
    ob.paths('mirror', lambda: S.prove_zero(c(p, q, r)*pw(Ex.const(-1), p+q)-pw(Ex.const(-1), p-q)*c(q, p, r)))
    for nm, d in (('U', (1, 0, 0)), ('V', (0, 1, 0)), ('z', (0, 0, 1))):
        # d/dU of sum c(p+1, q, r) U^(p+1) .. has p+q+r = l-1, p-q = m-1
        n = [a+b for a, b in zip((p, q, r), d)]
        k = sum((a*b for a, b in zip(n, d)), E.ZERO)
        ob.paths('derivative in '+nm, lambda: S.prove_zero(k*c(*n)-c(p, q, r)))
    for j, v in enumerate((X, Y, Z)):
        # U = -(x-iy)/2, V = (x+iy)/2
        u_, v_ = deriv(-(X-E.I*Y)/2, v), deriv((X+E.I*Y)/2, v)
        chain = T(KK-1, MM) if j == 2 else u_*T(KK-1, MM-1)+v_*T(KK-1, MM+1)
        ob.record('chain rule', S.prove_zero(chain-dT(j, KK, MM)))
    for l in range(6):
        for m in range(-l, l+1):
            y = ytil(l, m, X, Y, Z)
            ob.record('explicitly', S.prove_zero(y-explicit_T(l, m)))
            for j, v in enumerate((X, Y, Z)):
                a = [explicit_T(l-1, k) if l and abs(k) < l else E.ZERO for k in (m+1, m-1, m)]
                g = (a[0]-a[1])/2 if j == 0 else E.I*(a[0]+a[1])/2 if j == 1 else a[2]
                ob.record('explicit gradient', S.prove_zero(deriv(y, v)-g))


def p_gradient(ob):
    """the coupling sum is the gradient of
        4 pi G sum Q_lm/(2l+1) (moment lm of the displaced sensor),
    the moment being the contract of the inner translation (C10): term by
    term, with conj(r^l Y_lm) = norm(l, m) Y~_lm; and it is real for bodies
    of real mass, the terms mo, m-mo and -mo, mo-m being conjugate"""
    from .c11 import cg
    lo, lp = nat('lo', 'lp')
    mo, mp = (E.sym(n, 'int') for n in ('mo', 'mp'))
    pre = [le(mo, lo), le(-mo, lo), le(mp, lp), le(-mp, lp)]
    l, m = lo+lp, mo+mp

    def coefs(mo, mp):
        m = mo+mp
        c = E.power((2*l+1)/(2*lo+1), half)/(2*l+1)
        return c*E.power(fac(l+m)*fac(l-m)/(fac(lo+mo)*fac(lo-mo)), half)

    def terms():
        f = E.power(4*E.PI*fac(2*l+1)/(fac(2*lp+1)*fac(2*lo+1)), half)
        one = E.power(fac(2*lp)*fac(2*lo)/fac(2*l), half)*E.power(
            fac(l+m)*fac(l-m)/(fac(lp-mp)*fac(lp+mp)*fac(lo-mo)*fac(lo+mo)), half)
        return [('stretched Clebsch-Gordan', S.prove_zero(cg(lp, lo, mp, mo, l, m)-one)),
                ('term', S.prove_zero((f*one*spec.norm(lp, mp)/(2*l+1))**2-coefs(mo, mp)**2)),
                ('mirror', S.prove_zero(coefs(mo, mp)-coefs(-mo, -mp)))]
    ob.paths('coefficients', terms, pre=pre)
    for j in range(3):
        ob.paths('conjugate', lambda: zero_T(pw(Ex.const(-1), mp)*E.conj(dT(j, lp, -mp))-dT(j, lp, mp)), pre=[le(mp, lp), le(-mp, lp)])
        ob.record('no displacement, no force', zero_T(dT(j, 0, 0)))


def basis_contract(Lx, x, y, z):
    """contract of force_basis: an (L+1) x (2L+1) array per component"""
    return tuple(arr_in('B'+c, to_ex(Lx)+1, 2*to_ex(Lx)+1, kind='c') for c in 'xyz')


def basis_value(Lx, x, y, z):
    out = []
    for v in (X, Y, Z):
        out.append(A.asarr([[deriv(ytil(l, m, X, Y, Z), v) if abs(m) <= l else E.ZERO for m in range(-Lx, Lx+1)]
                            for l in range(Lx+1)]))
    return out


def force_spec(q, Qo, Lx, B, j):
    """the coupling sum over degrees and orders of sensor and displacement"""
    def lo_(lo):
        def mo_(i):
            mo = i-lo

            def l_(k):
                lp = k+1
                l = lo+lp

                def m_(n):
                    m = mo-lp+n
                    c = E.power((2*l+1)/(2*lo+1), half)/(2*l+1)
                    c = c*E.power(fac(l+m)*fac(l-m)/(fac(lo+mo)*fac(lo-mo)), half)
                    return c*q.read([lo, Lx+mo])*Qo.read([l, Lx+m])*B[j].read([lp, Lx+m-mo])
                return spec.total(2*lp+1, m_, 'm')
            return spec.total(Lx-lo, l_, 'k')
        return spec.total(2*lo+1, mo_, 'i')
    return 4*E.PI*CN*spec.total(Lx+1, lo_, 'lo')


def p_force(fn):
    def run(ob):
        f = getattr(src('multipoleLib', {'multipoleLib.force_basis': basis_contract}), fn)

        def thunk():
            q, Qo = (arr_in(k, L+1, 2*L+1, kind='c') for k in ('q', 'Q'))
            r = f(L, q, Qo, X, Y, Z, CN)
            B = basis_contract(L, X, Y, Z)
            out = []
            for j in range(3):
                v = r.read([j]) if fn == 'multipole_force' else A.row_total(r, [j])
                out.append((f'component {j}', S.prove_zero(to_ex(v)-force_spec(q, Qo, L, B, j))))
            return out+[('frame', untouched(q, Qo)), ('fresh', fresh_result(r, q, Qo))]
        ob.paths(fn, thunk)
    return run


def p_small(fn, Lmax):
    """concrete L: the value of the force for real bodies, as gradient of the
    interaction energy"""
    def run(ob):
        f = getattr(src('multipoleLib', {'multipoleLib.force_basis': basis_value}), fn)
        for Lx in range(Lmax+1):
            def thunk():
                q, Qo = symq('q', Lx), symq('Q', Lx)
                r = f(Lx, q, Qo, X, Y, Z, CN)
                U = E.ZERO
                for l in range(Lx+1):
                    for m in range(-l, l+1):
                        U = U+Qo.read([l, Lx+m])*moved(q, Lx, l, m)*4*E.PI*CN/(2*l+1)
                out = []
                for j, v in enumerate((X, Y, Z)):
                    g = to_ex(r.read([j])) if fn == 'multipole_force' else sum(
                        (to_ex(r.read([j, i])) for i in range(2*Lx+1)), E.ZERO)
                    out.append((f'gradient {j}', S.prove_zero(g-deriv(U, v))))
                    out.append((f'real {j}', S.prove_zero(g-E.conj(g))))
                return out
            ob.paths(f'{fn} L={Lx}', thunk)
    return run


def moved(q, Lx, l, m):
    """moment of the displaced body (addition theorem, contract of C10)"""
    t = E.ZERO
    f = math.factorial
    for lo in range(l+1):
        lp = l-lo
        c = sq(4*E.PI*Q(f(2*l+1), f(2*lp+1)*f(2*lo+1)))
        for mo in range(-lo, lo+1):
            if abs(m-mo) <= lp:
                t = t+c*F.cg_value(lp, lo, m-mo, mo, l, m)*E.conj(solid(lp, m-mo, X, Y, Z))*q.read([lo, Lx+mo])
    return t


# -------------------------------------------------------------------- runtime
def ytil_num(l, m, p):
    f = math.factorial
    return np.conj(N.solid_R(l, m, *p))/math.sqrt((2*l+1)/(4*math.pi)*f(l-m)*f(l+m))


def dsolid(l, m, p):
    """gradient of r^l Y_lm, from the ladder relations of solid harmonics"""
    def R(l, m):
        return N.solid_R(l, m, *p) if 0 <= l and abs(m) <= l else 0.
    if l == 0:
        return np.zeros(3, complex)
    c = math.sqrt((2*l+1)/(2*l-1))
    dz = c*math.sqrt((l-m)*(l+m))*R(l-1, m)
    dp = c*math.sqrt((l-m)*(l-m-1))*R(l-1, m+1)           # d/dx + i d/dy
    dm = -c*math.sqrt((l+m)*(l+m-1))*R(l-1, m-1)            # d/dx - i d/dy
    return np.array([(dp+dm)/2, (dp-dm)/2j, dz])


def place(rng, s):
    p = rvec(rng, s)
    c = rng.random()
    if c < .1:
        p = [0., 0., 0.]
    elif c < .2:
        p[0] = p[1] = 0.
    elif c < .3:
        p[2] = 0.
    elif c < .36:
        p[0] = p[2] = 0.
    elif c < .42:
        p[1] = p[2] = 0.
    return p


def rt_basis(rng, n, hints):
    f = real('multipoleLib').force_basis
    for i in range(n):
        Lx = i if i < 4 else degree(rng, rng.choice([2, 3, 4, 5, 8, 12]))
        p = place(rng, 1.5) if i > 4 else [0., 0., 0.]
        if i % 3 == 0:
            p = [round(v) for v in p]
        w = np.zeros((3, Lx+1, 2*Lx+1), complex)
        for l in range(Lx+1):
            for m in range(-l, l+1):
                k = math.sqrt((2*l+1)/(4*math.pi)*math.factorial(l-m)*math.factorial(l+m))
                w[:, l, Lx+m] = np.conj(dsolid(l, m, p))/k
        sc = np.max(np.abs(w), axis=0)+1e-6*np.max(np.abs(w), axis=(0, 2))[:, None]
        sc = np.stack([sc]*3)
        yield both('force_basis', (Lx, p), attempt(f, Lx, *p), w, sc+1e-300, 1e-9)


def force_num(q, Qo, p, cn):
    Lx = len(q)-1
    F_ = np.zeros(3, complex)
    for l in range(Lx+1):
        for m in range(-l, l+1):
            g = np.zeros(3, complex)
            for lo in range(l):
                lp = l-lo
                c = math.sqrt(4*math.pi*math.factorial(2*l+1)/math.factorial(2*lp+1)/math.factorial(2*lo+1))
                for mo in range(max(-lo, m-lp), min(lo, m+lp)+1):
                    g += c*N.cg(lp, lo, m-mo, mo, l, m)*np.conj(dsolid(lp, m-mo, p))*q[lo, Lx+mo]
            F_ += 4*math.pi*cn*Qo[l, Lx+m]/(2*l+1)*g
    return F_


def units(rng, q, Qo, p):
    """the same bodies in other units; the force takes the factor returned"""
    u, a, b = 10**rng.uniform(-6, 6), 10**rng.uniform(-8, 8), 10**rng.uniform(-8, 8)
    ls = np.arange(len(q))[:, None]
    return q*a*u**ls, Qo*b*u**(-ls-1.), [x*u for x in p], a*b/u**2


def rt_force(fn):
    def run(rng, n, hints):
        f = getattr(real('multipoleLib'), fn)

        def call(*a):
            st, r = attempt(f, *a)
            if st == 'ok' and fn == 'multipole_force_m':
                try:
                    r = np.sum(r, axis=1)
                except Exception as e:
                    return 'raise', e
            return st, r

        def case(key, inp, a, w, sc, tol=1e-8):
            st, r = call(*a)
            if st == 'raise':
                return Case(key, inp, False, repr(r))
            try:
                ok, d = close(r, w, sc, tol)
            except Exception as e:
                ok, d = False, repr(e)
            return Case(key, inp, ok, d)
        for i in range(n):
            Lx = i if i < 4 else degree(rng, rng.choice([1, 2, 3, 4, 5, 6]), 12)
            q, Qo = any_q(rng, Lx), any_q(rng, Lx)
            if i % 4 == 3 and Lx:
                q[rng.randint(0, Lx):] = 0
            p = place(rng, 1.)
            cn = rng.choice([1., 6.7e-11, -2.])
            w = force_num(q, Qo, p, cn)
            sc = np.max(np.abs(w))+1e-3*abs(cn)
            if rng.random() < .5:
                # any units of mass and length
                q, Qo, p, g = units(rng, q, Qo, p)
                w, sc = w*g, sc*g
            keep = q.copy(), Qo.copy()
            key = (q.tolist(), Qo.tolist(), p, cn)
            yield case(fn, key, (Lx, q, Qo, *p, cn), w, sc)
            yield Case(fn+' frame', key, np.array_equal(keep[0], q) and np.array_equal(keep[1], Qo))
            if i % 5 == 0:
                w = w/cn*c01.GF
                yield case(fn+' default constant', key, (Lx, q, Qo, *p), w, sc/abs(cn)*c01.GF)
        for i in range(n//5+1):
            a, b = cloud(rng, rng.randint(1, 3), .15), cloud(rng, rng.randint(1, 3), .5)
            b[:, 1:4] += np.array(rng.choice([[3, 0, 0], [-2, 2.5, 0], [0, 1, -3.5], [2, -2, 2]]))
            p = place(rng, .2)
            Lx = 16 if i == 0 else 10
            q, Qo = N.inner(Lx, a), N.outer(Lx, b)
            Fw, _ = N.newton(N.move(a, t=p), b, c01.GF)
            mag = c01.GF*np.sum(np.abs(a[:, 0]))*np.sum(np.abs(b[:, 0]))/4
            yield case(fn+' direct force', (a.tolist(), b.tolist(), p), (Lx, q, Qo, *p), Fw, mag, 1e-2 if Lx < 12 else 2e-4)
    return run


UNITS = [
    Unit('force_basis', ['multipoleLib.force_basis'], [('all L and positions', p_basis_all), ('bounded: L <= 8, all positions', p_basis(8))], rt_basis, n=40, budget=400,
         clauses='gradient of the normalised conjugate solid harmonics, every degree and order'),
    Unit('multipole_force', ['multipoleLib.multipole_force'], [('all L, moments and positions', p_force('multipole_force'))],
         rt_force('multipole_force'), n=40, budget=400, clauses='coupling sum over the contract of force_basis; frame; fresh'),
    Unit('multipole_force_m', ['multipoleLib.multipole_force_m'], [('all L, moments and positions', p_force('multipole_force_m'))],
         rt_force('multipole_force_m'), n=40, budget=400, clauses='the per-order forces sum to the coupling sum; frame; fresh'),
    Unit('normalised harmonics', ['multipoleLib.force_basis'], [('all degrees, orders and positions', p_harmonics)],
         clauses='lemma: the contract of force_basis is the gradient of the normalised conjugate solid harmonics'),
    Unit('gradient', ['multipoleLib.multipole_force', 'multipoleLib.multipole_force_m'], [('all degrees, orders, moments and positions', p_gradient)],
         clauses='lemma: the coupling sum is the gradient of the interaction energy of the displaced body, and real'),
    Unit('gradient, explicitly', ['multipoleLib.multipole_force'], [('bounded: L <= 3, all moments and positions', p_small('multipole_force', 3))],
         budget=400, clauses='gradient of the interaction energy of the displaced body; real'),
    Unit('gradient per order, explicitly', ['multipoleLib.multipole_force_m'], [('bounded: L <= 3, all moments and positions', p_small('multipole_force_m', 3))],
         budget=400, clauses='gradient of the interaction energy of the displaced body; real'),
]
