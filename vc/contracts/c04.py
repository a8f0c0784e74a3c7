"""C04: multipole moments of point masses, inner and outer, single and all"""
from .common import *

NP_, L = nat('N', 'L')
l, = nat('l')
m, = reals('m') if False else nat('m')
LM, = pos('lmbd')


def rows(P, i):
    return [P.read([i, c]) for c in range(4)]


def polar(x, y, z):
    """r and the direction (azimuth, polar angle) of a point"""
    r = F.sqrt(x*x+y*y+z*z)
    return r, F.arctan2(y, x), F.arccos(z/r)


def inner_term(M, x, y, z, l, m, radial):
    """M f_l(r) conj(Y_lm); a point at the origin only has l = 0"""
    if CTX.decide(eq(l, 0)):
        return M*radial(to_ex(0), F.sqrt(x*x+y*y+z*z))*E.conj(y00())
    if at_origin(x, y, z):
        return E.ZERO
    r, phi, th = polar(x, y, z)
    return M*radial(l, r)*E.conj(to_ex(F.sph_harm(m, l, phi, th)))


def at_origin(x, y, z):
    return CTX.decide(eq(F.sqrt(x*x+y*y+z*z), 0))


def y00():
    return E.power(4*E.PI, Q(-1, 2))


def outer_term(M, x, y, z, l, m, radial):
    r, phi, th = polar(x, y, z)
    if CTX.decide(eq(l, 0)):
        return M*y00()*radial(l, r)
    return M*to_ex(F.sph_harm(m, l, phi, th))*radial(l, r)


def pw(b, e):
    return E.power(to_ex(b), E.to_exp(to_ex(e)))


RAD = {'q': lambda l, r: pw(r, l), 'Q': lambda l, r: pw(r, -(to_ex(l)+1)),
       'i': lambda l, r: F.spherical_in(l, r/LM)}
SINGLE = {'q': 'qmoment', 'Q': 'Qmomentb', 'i': 'imoment'}
ALL = {'q': 'qmoments', 'Q': 'Qmomentsb', 'i': 'imoments'}


def origin_point(P):
    """some point lies at the origin"""
    return CTX.decide(A.quant(P[:, 1]**2+P[:, 2]**2+P[:, 3]**2 == 0, 'any'))


def spec(P, kind, l, m):
    if kind == 'Q' and origin_point(P):
        return E.ZERO
    t = outer_term if kind == 'Q' else inner_term
    return ssum(P.shape[0], lambda i: t(*rows(P, i), l, m, RAD[kind]))


def unit1(kind):
    fn = SINGLE[kind]

    def proof(ob):
        f = getattr(src('pg2Multi'), fn)
        for nm, mm, pre in (('m>=0', m, [le(m, l)]), ('m<0', -m, [lt(0, m), le(m, l)])):
            def thunk():
                P = arr_in('P', NP_, 4)
                r = f(l, mm, LM, P) if kind == 'i' else f(l, mm, P)
                want = spec(P, kind, l, mm)
                return [('value', S.prove_zero(to_ex(r)-want)), ('frame', untouched(P))]
            ob.paths(f'{fn} {nm}', thunk, pre=pre)
    return Unit(fn, ['pg2Multi.'+fn], [('all N, l, m and point masses', proof)], rt(fn, kind, False), n=60,
                clauses='sum over the points of M f_l(r) Y_lm (conjugated for inner)')


def unit2(kind):
    fn = ALL[kind]

    def proof(ob):
        from .. import spec as SP
        f = getattr(src('pg2Multi'), fn)
        cell = {}

        def call():
            P = arr_in('P', NP_, 4)
            cell['P'] = P
            return f(L, LM, P) if kind == 'i' else f(L, P)

        def val(l, m):
            return spec(cell['P'], kind, l, m)
        SP.moment_array(ob, fn, call, L, val)
        ob.record('frame', untouched(cell['P']))
    return Unit(fn, ['pg2Multi.'+fn], [('all L, N, l, m and point masses', proof)], rt(fn, kind, True), n=60,
                clauses='every entry (l, m) of the array; mirror; zero beyond')


# ------------------------------------------------------------- run-time contract
def spec_num(kind, Lx, pts, lam):
    if kind == 'Q':
        return N.outer(Lx, pts)
    if kind == 'q':
        return N.inner(Lx, pts)
    from scipy.special import spherical_in
    out = np.zeros([Lx+1, 2*Lx+1], dtype=complex)
    r = np.sqrt(np.sum(pts[:, 1:4]**2, 1))
    for p, ri in zip(pts, r):
        if ri == 0:
            out[0, Lx] += p[0]/math.sqrt(4*math.pi)
            continue
        u = p.copy()
        u[1:4] /= ri
        out += N.inner(Lx, u)*np.array([spherical_in(k, ri/lam) for k in range(Lx+1)])[:, None]
    return out


def scale(kind, Lx, pts, lam):
    r = np.sqrt(np.sum(pts[:, 1:4]**2, 1))
    ls = np.arange(Lx+1)[:, None]
    w = np.abs(pts[:, 0])
    if kind == 'q':
        s = np.sum(w*np.maximum(r, 1e-30)**ls, 1)
    elif kind == 'Q':
        s = np.sum(w/r**(ls+1), 1)
    else:
        from scipy.special import spherical_in
        s = np.array([np.sum(w*np.abs(spherical_in(k, r/lam))) for k in range(Lx+1)])
    return s[:, None]*np.ones(2*Lx+1)+1e-290


def points(rng, kind):
    n = rng.choice([1, 1, 2, 3, 7, 25])
    P = cloud(rng, n, rng.choice([.01, 1, 3, 30]), rng.choice([(0, 0, 0), (0, 0, 0), (4, -3, 2)]))
    for i in range(n):
        s = rng.random()
        if s < .15:
            P[i, 1:3] = 0                       # on the z axis
        elif s < .25:
            P[i, 3] = 0                         # in the plane
        elif s < .35 and kind != 'Q':
            P[i, 1:4] = 0                       # at the origin
        elif s < .42:
            P[i, 1:4] = [-abs(P[i, 1]), 0., 0.]
        elif s < .48:
            P[i, 1:4] = [0., -abs(P[i, 1]), P[i, 3]]
    if rng.random() < .3:
        # points of very different distances, each of them felt at some degree
        lo, hi = {'q': (-13, 6), 'i': (-13, 0), 'Q': (-4, 5)}[kind]     # no overflow
        i, u, j = rng.randrange(n), 10**rng.uniform(lo, hi), rng.choice([0, 1, 1, 2, 2, 3])
        P[i, 1:4] *= u
        P[i, 0] *= u**(-j) if kind != 'Q' else u**(j+1)
    if rng.random() < .2 and kind != 'i':
        P[:, 1:4] *= 10**rng.uniform(-4, 4)     # any unit of length
    return P


def rt(fn, kind, every):
    def run(rng, n, hints):
        f = getattr(real('pg2Multi'), fn)
        for i in range(n):
            P = points(rng, kind)
            Lx = degree(rng, rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 12]))
            u = 1.
            if DEEP[0] and kind != 'i' and rng.random() < .3:
                # far from one, within the range of numbers
                r = np.sqrt(np.sum(P[:, 1:4]**2, 1))
                B = min(40., 270/(Lx+1)-np.max(np.abs(np.log10(r[r > 0])), initial=0))
                if B > 0:
                    u = 2.**int(rng.uniform(-B, B)/.30103)
            lam = rng.uniform(.3, 8)
            ex = (lam,) if kind == 'i' else ()
            W = spec_num(kind, Lx, P, lam)
            s = scale(kind, Lx, P, lam)
            if u != 1:
                ls = np.arange(Lx+1)[:, None]
                h = u**(1.*ls if kind == 'q' else -1.-ls)
                W, s = W*h, s*h
                P[:, 1:4] *= u
            keep = P.copy()
            if every:
                yield eq_case(fn, (Lx,)+ex+(P.tolist(),), f, (Lx,)+ex+(P,), W, 1e-9, s)
            else:
                mx = rng.randint(-Lx, Lx)
                yield eq_case(fn, (Lx, mx)+ex+(P.tolist(),), f, (Lx, mx)+ex+(P,), W[Lx, Lx+mx], 1e-9, s[Lx, 0])
            yield Case(fn+' frame', P.tolist(), np.array_equal(keep, P), 'input changed')
            if kind == 'Q' and i % 5 == 0:
                P[rng.randrange(len(P)), 1:4] = 0
                z = np.zeros([Lx+1, 2*Lx+1]) if every else 0
                mx = rng.randint(-Lx, Lx)
                a = (Lx, P) if every else (Lx, mx, P)
                yield eq_case(fn+' at the origin', P.tolist(), f, a, z, 1e-9, 1.)
    return run


UNITS = [unit1('q'), unit1('Q'), unit2('q'), unit2('Q')]
