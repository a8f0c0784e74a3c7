"""C22: integrands and limits of the numerical inner moments

For every degree and order the quadrature is handed the real part of
r^l conj(Y_lm) with the volume element, over exactly the documented body; the
imaginary part integrates to zero because every body is symmetric about the
xz-plane (checked below).  All entries are filled."""
from .common import *
from .. import quadc as K

L, = nat('L')
RHO, = reals('dens')
PH, = reals('phih')
IR = E.sym('IR', 'nonneg')
OR, H, t, r, R = pos('OR', 'H', 't', 'r', 'R')
h1, h2, th = reals('h1', 'h2', 'theta')


def cyl_point():
    x = E.angle('theta_') if False else CTX.fresh('theta', 'real')
    y, z = CTX.fresh('rad', 'pos'), CTX.fresh('z', 'real')
    # r is read along the ray at angle theta; cos theta > 0 in the bodies that use it
    return x, y, z


def cart_point(rr, RR=None):
    def f():
        x, y, z = [CTX.fresh(k, 'real') for k in 'xyz']
        CTX.assume(lt(-rr, x))
        CTX.assume(lt(x, rr))
        CTX.assume(lt(x*x+y*y, rr*rr))
        CTX.assume(lt(x*x, rr*rr))
        if RR is not None:
            CTX.assume(lt(y*y, RR*RR))
        return x, y, z
    return f


def cut(rad):
    return lambda x: rad*E.cos(PH)/E.cos(x)


BODY = {
    'cyl_mom': ((PH, IR, OR, h1, h2), [lt(IR, OR), lt(0, PH), le(PH, E.PI), lt(h1, h2)],
                (K.cyl_inner, -PH, PH, lambda x: IR, lambda x: OR, lambda x, y: h1, lambda x, y: h2, cyl_point)),
    'cone_mom': ((PH, IR, OR, H), [lt(IR, OR), lt(0, PH), le(PH, E.PI)],
                 (K.cyl_inner, -PH, PH, lambda x: IR, lambda x: OR, lambda x, y: E.ZERO, lambda x, y: H*(OR-y)/(OR-IR), cyl_point)),
    'trap_mom': ((PH, IR, OR, h1, h2), [lt(IR, OR), lt(0, PH), lt(PH, E.PI/2), lt(h1, h2)],
                 (K.cyl_inner, -PH, PH, cut(IR), cut(OR), lambda x, y: h1, lambda x, y: h2, cyl_point)),
    'steinmetz': ((r, R), [le(r, R)],
                  (K.cart_inner, -r, r, lambda x: -F.sqrt(r*r-x*x), lambda x: F.sqrt(r*r-x*x),
                   lambda x, y: -F.sqrt(R*R-y*y), lambda x, y: F.sqrt(R*R-y*y), cart_point(r, R))),
    'platehole': ((t, r, th), [lt(-E.PI/2, th), lt(th, E.PI/2)],
                  (K.cart_inner, -r, r, lambda x: -F.sqrt(r*r-x*x), lambda x: F.sqrt(r*r-x*x),
                   lambda x, y: x*F.tan(th)-t/(2*E.cos(th)), lambda x, y: x*F.tan(th)+t/(2*E.cos(th)), cart_point(r))),
}


def proof(mod, fn, args, pre, hk):
    def run(ob):
        f = getattr(src(mod), fn)

        def call():
            with K.quad(K.hook(*hk)):
                return f(L, RHO, *args)
        n0 = K.COUNT[0]
        spec.moment_array(ob, fn, call, L, lambda l, m: RHO*K.atom(l, m), pre)
        ob.record('integrand and limits checked', K.COUNT[0] > n0)
    return run


def integrand_proof(mod, fn, contract, point):
    def run(ob):
        f = getattr(src(mod), fn)
        l, m = nat('l', 'm')

        def thunk():
            x, y, z = point()
            return S.prove_zero(to_ex(f(z, y, x, l, m))-contract(z, y, x, l, m))
        ob.paths(fn, thunk, pre=[le(m, l)])
    return run


# -------------------------------------------------------------------- runtime
def U(g, lo=.2, hi=2.):
    return dim(g, lo, hi)


def radii(g):
    b = U(g)
    return b*g.choice([0., .5, g.random()*.9]), b


def heights(g):
    a = dim(g, -2, 2)
    return a, a+U(g)


def sp(g, top=math.pi):
    return g.choice([top, g.uniform(.1, top), g.uniform(.1, top)])


def G_cyl(g):
    (a, b), (u, v), p = radii(g), heights(g), sp(g)
    return (p, a, b, u, v), N.sector(u, v, a, b, 0., p)


def cone_pts(H_, a, b, p, nn=24):
    tr, wr = N._gl(a, b, nn)
    tp, wp = N._gl(-p, p, 48)
    tz, wz = N._gl(0, 1, nn)
    r_, f_, z_ = np.meshgrid(tr, tp, tz, indexing='ij')
    w = wr[:, None, None]*wp[None, :, None]*wz[None, None, :]
    top = H_*(b-r_)/(b-a)
    return np.stack([(w*r_*top).ravel(), (r_*np.cos(f_)).ravel(), (r_*np.sin(f_)).ravel(), (z_*top).ravel()], 1)


def G_cone(g):
    (a, b), h_, p = radii(g), U(g), sp(g)
    return (p, a, b, h_), cone_pts(h_, a, b, p)


def trap_pts(u, v, a, b, p):
    c, s = math.cos(p), math.sin(p)
    A_, B_ = (a*c, a*s), (b*c, b*s)
    m = lambda q: (q[0], -q[1])
    lo, hi = [N.tri_prism(v-u, (0, 0), m(q), q) for q in (A_, B_)]
    lo = lo.copy()
    lo[:, 0] *= -1
    return N.move(np.concatenate([hi, lo]) if a > 0 else hi, t=[0, 0, (u+v)/2])


def G_trap(g):
    (a, b), (u, v), p = radii(g), heights(g), sp(g, 1.4)
    return (p, a, b, u, v), trap_pts(u, v, a, b, p)


def G_stein(g):
    b = U(g)
    a = b*g.choice([1., .4, .95])
    return (a, b), N.steinmetz(a, b, 'x', 60)


def G_plate(g):
    v = U(g), U(g), g.choice([0., g.uniform(-1.2, 1.2)])
    return v, N.move(N.platehole(*v), N.roty(-v[2]))


GEN = dict(cyl_mom=G_cyl, cone_mom=G_cone, trap_mom=G_trap, steinmetz=G_stein, platehole=G_plate)


def runtime(modname, fn, gen, ev, lift):
    def run(rng, n, hints):
        mod = real(modname)
        f = getattr(mod, fn)
        for i in range(n):
            args, pts = gen(rng)
            slow = i == n-1
            Lx = rng.choice([0, 1, 2, 3, 4, 5, 6, 7]) if not slow else 0
            rho = rng.choice([1., -1., 4e3])*U(rng)
            w = ev(Lx, N.with_density(pts, rho))
            rad = np.sqrt(np.sum(pts[:, 1:4]**2, 1))
            sc = np.abs(rho)*np.array([np.sum(np.abs(pts[:, 0])*lift(rad, l)) for l in range(Lx+1)])[:, None]*np.ones(2*Lx+1)
            if slow:
                c = eq_case(fn+' with scipy quadrature', (Lx, rho)+args, f, (Lx, rho)+args, w, 1e-6, sc)
            else:
                with K.patched(mod):
                    c = eq_case(fn, (Lx, rho)+args, f, (Lx, rho)+args, w, 1e-5 if fn == 'steinmetz' else 1e-8, sc)
            yield c
    return run


def limits_rt(modname, rows):
    """arguments outside the documented domain are refused"""
    def run(rng, n, hints):
        mod = real(modname)
        for i in range(n):
            for fn, args in rows(rng):
                with K.patched(mod):
                    yield rej_case(fn+' refuses', args, getattr(mod, fn), (1, 1.)+args)
    return run


def sym(ob):
    """the imaginary parts are odd under y -> -y (theta -> -theta) and the
    limits even, so they integrate to zero"""
    l, m, k = nat('l', 'm', 'k')
    x, y = reals('x', 'y')
    z = x+E.I*y
    ob.record('cartesian', S.prove_zero(E.conj(SP_(z, k, m))-SP_(E.conj(z), k, m)))
    for fn, (args, pre, hk) in BODY.items():
        _, a, b, g, h, q, r_, pt = hk

        def thunk():
            u, v, w = pt()
            if hk[0] is K.cart_inner:
                return [('y limits', S.prove_zero(g(u)+h(u))), ('z lower', S.prove_zero(q(u, v)-q(u, -v))),
                        ('z upper', S.prove_zero(r_(u, v)-r_(u, -v)))]
            return [('angles', S.prove_zero(a+b)), ('inner', S.prove_zero(g(u)-g(-u))), ('outer', S.prove_zero(h(u)-h(-u))),
                    ('z lower', S.prove_zero(q(u, v)-q(-u, v))), ('z upper', S.prove_zero(r_(u, v)-r_(-u, v)))]
        ob.paths(fn, thunk, pre=pre)


def SP_(z, k, m):
    return spec.pw(z, k)*spec.pw(E.conj(z), m+k)


inner_lift = lambda rad, l: np.max(rad)**l
UNITS = [Unit(k, ['qlmNum.'+k], [('all dimensions, every L, l, m', proof('qlmNum', k, *BODY[k]))],
              runtime('qlmNum', k, GEN[k], N.inner, inner_lift), n=16, budget=200,
              clauses='integrand, volume element and limits of the documented body; every entry filled') for k in BODY]
UNITS += [
    Unit('cyl_integrand_qlm', ['qlmNum.cyl_integrand_qlm'],
         [('all l, m and points', integrand_proof('qlmNum', 'cyl_integrand_qlm', K.cyl_inner, cyl_point))],
         clauses='r Re(R^l conj Y_lm) in cylindrical coordinates'),
    Unit('cart_integrand_qlm_zyx', ['qlmNum.cart_integrand_qlm_zyx'],
         [('all l, m and points', integrand_proof('qlmNum', 'cart_integrand_qlm_zyx', K.cart_inner, cart_point(r, R)))],
         clauses='Re(R^l conj Y_lm) in Cartesian coordinates'),
    Unit('symmetry', ['qlmNum.'+k for k in BODY], [('all bodies', sym)],
         clauses='lemma: bodies symmetric about y = 0, imaginary parts odd')]
