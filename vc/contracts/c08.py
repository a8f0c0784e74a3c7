"""C08: outer moments of extended sources"""
from .common import *
from .. import quadc as K, calc
from .c10 import solid
from . import c22 as T

L, = nat('L')
R, H, r0, r1 = pos('R', 'H', 'r0', 'r1')
x, y, z, phic, phih, DENS = reals('xb', 'yb', 'zb', 'phic', 'phih', 'dens')
TOP = 5


# ------------------------------------------------------------- homogeneous ball
def p_sphere(ob):
    f = src('bigQlm').sphere

    def val(l, m):
        d = F.sqrt(x*x+y*y+z*z)
        ph, th = F.arctan2(y, x), F.arccos(z/d)
        return DENS*4*E.PI*R**3/3*to_ex(F.sph_harm(m, l, ph, th))*spec.pw(d, -(to_ex(l)+1))
    spec.moment_array(ob, 'sphere', lambda: f(L, DENS, R, x, y, z), L, val, [lt(0, x*x+y*y+z*z)])


# ------------------------------------------------------------- annular section
def entry(l, m, sign):
    """integrand of the (l, m) moment in r and z after the azimuth, at
    r = r1, z = H; the section lies below the plane for sign < 0"""
    ang = 2*phih if m == 0 else 2*E.sin(m*phih)/m
    rho = F.sqrt(H*H+r1*r1)
    return DENS*ang*E.exp_i(m*phic)*solid(l, m, r1, E.ZERO, H)*r1*E.power(rho, -(2*l+1))*(1 if sign > 0 else (-1)**(l+m))


def p_annulus(ob):
    f = src('bigQlm').annulus
    pre = [lt(r0, r1), lt(0, phih), le(phih, E.PI)]
    for sign in (1, -1):
        def thunk():
            out = []
            ref = f(TOP, DENS, sign*H, r0, r1, phic, phih)
            G = {}
            for l in range(TOP+1):
                for m in range(l+1):
                    G[l, m] = to_ex(ref.read([l, TOP+m]))
                    for nm, ok in calc.double_integral(G[l, m], entry(l, m, sign), H, r0, r1):
                        out.append((f'{l},{m} {nm}', ok))
            for Lx in list(range(TOP+1))+[L]:
                if Lx is L:
                    CTX.assume(le(TOP, L))
                res = f(Lx, DENS, sign*H, r0, r1, phic, phih)
                Ln = to_ex(Lx)
                sh = [to_ex(s) for s in res.shape]
                out.append(('shape', len(sh) == 2 and S.prove_zero(sh[0]-Ln-1) and S.prove_zero(sh[1]-2*Ln-1)))
                top = TOP if Lx is L else Lx
                for l in range(top+1):
                    for m in range(top+1):
                        w = G[l, m] if m <= l else E.ZERO
                        out.append((f'L: {l},{m}', S.prove_zero(to_ex(res.read([l, Ln+m]))-w)))
                        if m:
                            out.append((f'L: {l},{-m}', S.prove_zero(to_ex(res.read([l, Ln-m]))-(-1)**m*E.conj(w))))
                if Lx is L:
                    l, m = CTX.fresh('l', 'nat'), CTX.fresh('m', 'nat')
                    CTX.assume(le(l, L))
                    CTX.assume(le(m, L))
                    for s in (1, -1):
                        for c in (lt(TOP, l), lt(TOP, m)):
                            def g():
                                CTX.assume(c)
                                return S.prove_zero(to_ex(res.read([l, Ln+s*m])))
                            for pc, rr, _ in CTX.explore(g):
                                ok = rr[0] == 'ok' and bool(rr[1])
                                if not ok and C.check_sat(CTX.pcs()+pc) == 'unsat':
                                    continue
                                out.append(('higher degrees', ok))
            return out
        ob.paths('annulus above' if sign > 0 else 'annulus below', thunk, pre=pre)


# ------------------------------------------------------- numerical integrations
IR, PH, h1, h2, OR = T.IR, T.PH, T.h1, T.h2, T.OR
NUMB = {
    'annulus': ((h1, h2, IR, OR, PH), [lt(IR, OR), lt(0, PH), le(PH, E.PI), lt(h1, h2), C.c_or(lt(0, IR), C.c_or(lt(0, h1), lt(h2, 0)))],
                (K.cyl_outer, -PH, PH, lambda x: IR, lambda x: OR, lambda x, y: h1, lambda x, y: h2, T.cyl_point)),
    'outer_cone': ((H, IR, OR, PH), [lt(0, IR), lt(IR, OR), lt(0, PH), le(PH, E.PI)],
                   (K.cyl_outer, -PH, PH, lambda x: IR, lambda x: OR, lambda x, y: E.ZERO, lambda x, y: H*(OR-y)/(OR-IR), T.cyl_point)),
    'trapezoid': ((h1, h2, IR, OR, PH), [lt(IR, OR), lt(0, PH), lt(PH, E.PI/2), lt(h1, h2), C.c_or(lt(0, IR), C.c_or(lt(0, h1), lt(h2, 0)))],
                  (K.cyl_outer, -PH, PH, T.cut(IR), T.cut(OR), lambda x, y: h1, lambda x, y: h2, T.cyl_point)),
}


# -------------------------------------------------------------------- runtime
def rt_sphere(g, n, hints):
    f = real('bigQlm').sphere
    for i in range(n):
        c = [dim(g, -3, 3) for _ in range(3)]
        k = g.random()
        if k < .2:
            c[0] = c[1] = 0.
        elif k < .4:
            c[g.randint(0, 2)] = 0.
        Rr, rho = dim(g, .1, 2), g.choice([1, -1])*g.uniform(.1, 9)
        M = rho*4/3*math.pi*Rr**3
        Lx = i if i < 8 else g.randint(0, 12)
        w = N.outer(Lx, np.array([[M]+c]))
        d = math.sqrt(sum(v*v for v in c))
        sc = abs(M)/d**(np.arange(Lx+1)+1.)[:, None]*np.ones(2*Lx+1)
        yield eq_case('sphere', (Lx, rho, Rr, *c), f, (Lx, rho, Rr, *c), w, 1e-9, sc)


def far(pts, l):
    return np.min(np.sqrt(np.sum(pts[:, 1:4]**2, 1)))**(-l-1.)


def outer_scale(pts, rho, Lx):
    rad = np.sqrt(np.sum(pts[:, 1:4]**2, 1))
    return np.abs(rho)*np.array([np.sum(np.abs(pts[:, 0])*rad**(-l-1.)) for l in range(Lx+1)])[:, None]*np.ones(2*Lx+1)


def sector_log(u, v, a, b, pc, p, n=40):
    """annular section, nodes in log r for small inner radii"""
    t, w = N._gl(math.log(a), math.log(b), n)
    rr = np.exp(t)
    zz, wz = [], []
    for lo, hi in ((u, v),):
        # geometric panels towards z = 0
        edges = sorted({lo, hi, *[e for k in range(6) for e in (a*2.**k, -a*2.**k, 0.) if lo < e < hi]})
        for e0, e1 in zip(edges, edges[1:]):
            q, wq = N._gl(e0, e1, 10)
            zz.append(q)
            wz.append(wq)
    zz, wz = np.concatenate(zz), np.concatenate(wz)
    f, wf = N._gl(pc-p, pc+p, 40)
    W = (w*rr*rr)[:, None, None]*wf[None, :, None]*wz
    return N._pts(W, rr[:, None, None]*np.cos(f)[None, :, None], rr[:, None, None]*np.sin(f)[None, :, None], zz[None, None, :])


def rt_annulus(g, n, hints):
    f = real('bigQlm').annulus
    for i in range(n):
        b = dim(g, .3, 2)
        a = b*g.choice([.5, .9, g.uniform(.1, .95)])
        h = g.choice([1, -1])*b*math.exp(g.uniform(-2, 1))
        pc, p = g.uniform(-7, 7), T.sp(g)
        rho = g.choice([1, -1])*g.uniform(.1, 9)
        pts = sector_log(min(h, 0), max(h, 0), a, b, pc, p)
        Lx = i if i < 8 else g.randint(0, 9)
        w = N.outer(Lx, N.with_density(pts, rho))
        w[6:] = 0
        yield eq_case('annulus', (Lx, rho, h, a, b, pc, p), f, (Lx, rho, h, a, b, pc, p), w, 1e-6, outer_scale(pts, rho, Lx))


def rr(g):
    b = dim(g, .4, 2)
    return b*g.choice([.5, .9, g.uniform(.3, .95)]), b


def hh(g, b):
    u = g.uniform(-1, 1)*b
    return u, u+g.uniform(.2, 1.5)*b


def G_ann(g):
    a, b = rr(g)
    (u, v), p = hh(g, b), T.sp(g)
    return (u, v, a, b, p), sector_log(u, v, a, b, 0., p)


def G_cone(g):
    a, b = rr(g)
    h_, p = g.uniform(.2, 1.5)*b, T.sp(g)
    return (h_, a, b, p), T.cone_pts(h_, a, b, p, 30)


def G_trap(g):
    a, b = rr(g)
    p = T.sp(g, .8)
    (u, v) = hh(g, b)
    t, w = N._gl(-p, p, 40)
    s, ws = N._gl(0, 1, 24)
    q, wq = N._gl(u, v, 40)
    lo, hi = a*math.cos(p)/np.cos(t), b*math.cos(p)/np.cos(t)
    r_ = lo[:, None]+(hi-lo)[:, None]*s
    W = (w*(hi-lo))[:, None]*ws*r_
    return (u, v, a, b, p), N._pts(W[:, :, None]*wq, (r_*np.cos(t)[:, None])[:, :, None], (r_*np.sin(t)[:, None])[:, :, None], q[None, None, :])


def rt_num(fn, gen):
    def run(g, n, hints):
        mod = real('bigQlmNum')
        f = getattr(mod, fn)
        for i in range(n):
            args, pts = gen(g)
            slow = i == n-1
            Lx = 0 if slow else g.choice([0, 1, 2, 3, 4, 5, 6])
            rho = g.choice([1., -1., 4e3])*g.uniform(.2, 2)
            w = N.outer(Lx, N.with_density(pts, rho))
            sc = outer_scale(pts, rho, Lx)
            if slow:
                yield eq_case(fn+' with scipy quadrature', (Lx, rho)+args, f, (Lx, rho)+args, w, 1e-5, sc)
            else:
                with K.patched(mod):
                    yield eq_case(fn, (Lx, rho)+args, f, (Lx, rho)+args, w, 1e-4, sc)
    return run


def p_integrand(ob):
    T.integrand_proof('bigQlmNum', 'cyl_integrand_Qlmb', K.cyl_outer, T.cyl_point)(ob)


UNITS = [
    Unit('bigQlm.sphere', ['bigQlm.sphere'], [('all L, l, m, centres and radii', p_sphere)], rt_sphere, n=40, budget=200,
         clauses='moments of a point of the same mass at the centre'),
    Unit('bigQlm.annulus', ['bigQlm.annulus'], [('all dimensions, every L', p_annulus)], rt_annulus, n=24, budget=600,
         clauses='each entry to degree five has the integrand as mixed derivative and vanishes for the empty body; mirror; zero elsewhere'),
    Unit('cyl_integrand_Qlmb', ['bigQlmNum.cyl_integrand_Qlmb'], [('all l, m and points', p_integrand)],
         clauses='r Re(Y_lm/R^(l+1)) in cylindrical coordinates'),
] + [Unit('bigQlmNum.'+k, ['bigQlmNum.'+k], [('all dimensions, every L, l, m', T.proof('bigQlmNum', k, *NUMB[k]))],
          rt_num(k, g_), n=14, budget=200, clauses='integrand, volume element and limits of the documented body; every entry filled')
     for k, g_ in (('annulus', G_ann), ('outer_cone', G_cone), ('trapezoid', G_trap))]
