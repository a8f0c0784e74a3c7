"""C07: the explicit low-degree moments are the volume integrals

Every entry up to degree five is compared with the integral of r^l conj(Y_lm)
over the documented body, carried out exactly (vc/integ.py) in symbolic
dimensions; all other entries are zero for every L."""
from .common import *
from .. import integ as I

x, y, z, h, t, r, R, Ri, d, H = pos('x', 'y', 'z', 'h', 't', 'r', 'R', 'Ri', 'dch', 'H')
r1, r2, w1, w2 = [E.sym(k, 'nonneg') for k in ('rc1', 'rc2', 'w1', 'w2')]
RHO, phic, phih, dd, y1, y2, th = reals('rho', 'phic', 'phih', 'dd', 'y1', 'y2', 'theta')
L, = nat('L')
TOP = 5


def area2():
    return C.absolute(to_ex(dd*(y1-y2)))


BODY = {
    'rect_prism': [((x, y, z), [], lambda: I.box(x, y, z))],
    'annulus': [((H, Ri, R, phic, phih), [lt(Ri, R), lt(0, phih), le(phih, E.PI)],
                 lambda: I.sector(-H/2, H/2, Ri, R, phic, phih)),
                ((H, E.ZERO, R, phic, phih), [lt(0, phih), le(phih, E.PI)],
                 lambda: I.sector(-H/2, H/2, E.ZERO, R, phic, phih))],
    'cone': [((h, r1, r2), [C.c_not(C.c_and(eq(r1, 0), eq(r2, 0)))], lambda: I.frustum(-h/2, h/2, r2, r1))],
    'cone2': [((h, r1, r2), [C.c_not(C.c_and(eq(r1, 0), eq(r2, 0)))], lambda: I.frustum(E.ZERO, h, r1, r2))],
    'tri_prism': [((h, dd, y1, y2), [ne(dd, 0), ne(y1, y2)], lambda: I.triangle_prism(h, dd, y1, y2, area2()))],
    'trapezoid': [((t, w1, w2, h), [lt(0, w1+w2)], lambda: I.trapezoid(t, w1, w2, h))],
    'cylindrical_section': [((t, r, d), [lt(d, r)], lambda: I.segment(t, r, d))],
    'tetrahedron': [((x, y, z), [], lambda: I.corner(x, y, z))],
    'cylhole': [((r, R), [lt(r, R)], lambda: I.holes(r, R)), ((r, r), [], lambda: I.holes(r, r))],
    'cylhole2': [((r, R), [lt(r, R)], lambda: I.holes(r, R)), ((r, r), [], lambda: I.holes(r, r))],
    'platehole': [((t, r, th), [lt(-E.PI/2, th), lt(th, E.PI/2)], lambda: I.platehole(t, r, th))],
    'pyramid': [((h, x, y), [], lambda: I.pyramid(h, x, y))],
}


def proof(fn):
    def run(ob):
        f = getattr(src('qlmACH'), fn)
        for args, pre, body in BODY[fn]:
            for Lx in list(range(TOP))+[L]:
                sym = Lx is L

                def thunk():
                    if sym:
                        CTX.assume(le(TOP, L))
                    res = f(Lx, RHO, *args)
                    Ln = to_ex(Lx)
                    out = []
                    sh = [to_ex(s) for s in res.shape]
                    out.append(('shape', len(sh) == 2 and S.prove_zero(sh[0]-Ln-1) and S.prove_zero(sh[1]-2*Ln-1)))
                    mono = body()
                    top = TOP if sym else Lx
                    for l in range(top+1):
                        for m in range(l+1):
                            w = RHO*I.moment(l, m, mono)
                            out.append((f'{l},{m}', S.prove_zero(to_ex(res.read([l, Ln+m]))-w)))
                            if m:
                                out.append((f'{l},{-m}', S.prove_zero(to_ex(res.read([l, Ln-m]))-(-1)**m*E.conj(w))))
                        for m in range(l+1, top+1):
                            for s in (1, -1):
                                out.append(('beyond', S.prove_zero(to_ex(res.read([l, Ln+s*m])))))
                    if sym:
                        l, m = CTX.fresh('l', 'nat'), CTX.fresh('m', 'nat')
                        CTX.assume(le(l, L))
                        CTX.assume(le(m, L))

                        def rest(s, c):
                            def g():
                                CTX.assume(c)
                                return S.prove_zero(to_ex(res.read([l, Ln+s*m])))
                            return g
                        for s in (1, -1):
                            for c in (lt(TOP, l), lt(TOP, m)):
                                for pc, rr, _ in CTX.explore(rest(s, c)):
                                    ok = rr[0] == 'ok' and bool(rr[1])
                                    if not ok and C.check_sat(CTX.pcs()+pc) == 'unsat':
                                        continue
                                    out.append(('higher degrees', ok))
                    return out
                ob.paths(f'{fn} L={Lx if not sym else ">=5"}', thunk, pre=pre)
    return run


# -------------------------------------------------------------------- runtime
def U(rng, lo=.2, hi=2.5):
    return dim(rng, lo, hi)


def ang(rng):
    return rng.uniform(-7, 7)


def span(rng):
    return rng.choice([math.pi, math.pi*rng.random() or .3, math.pi*.999, .01, math.pi/2])


def g_cone(rng):
    a, b = U(rng), U(rng)
    c = rng.random()
    return U(rng), (0. if c < .15 else a), (0. if .15 < c < .3 else (a if c > .9 else b))


def G_rect(g):
    v = U(g), U(g), U(g)
    return v, N.box(*v)


def G_annulus(g):
    Ro = U(g)
    v = U(g), Ro*g.choice([0., .5, g.random(), .98]), Ro, ang(g), span(g)
    return v, N.sector(-v[0]/2, v[0]/2, *v[1:])


def G_cone(g):
    v = g_cone(g)
    return v, N.frustum(-v[0]/2, v[0]/2, v[2], v[1], 0, math.pi)


def G_cone2(g):
    v = g_cone(g)
    return v, N.frustum(0, v[0], v[1], v[2], 0, math.pi)


def G_tri(g):
    d_ = U(g)*g.choice([1, 1, -1])
    v = U(g), d_, dim(g, -2, 2, False), g.choice([0., dim(g, -2, 2, False)])
    return v, N.tri_prism(v[0], (0, 0), (d_, v[2]), (d_, v[3]))


def G_trap(g):
    a, b = U(g), U(g)
    c = g.random()
    v = U(g), (0. if c < .15 else a), (0. if .15 < c < .3 else (a if c > .9 else b)), U(g)
    t_, a, b, h_ = v
    return v, np.concatenate([N.tri_prism(t_, (0, -a/2), (0, a/2), (h_, b/2)), N.tri_prism(t_, (0, -a/2), (h_, b/2), (h_, -b/2))])


def G_seg(g):
    r_ = U(g)
    v = U(g), r_, r_*g.choice([.5, .03+.94*g.random()])
    return v, N.seg(*v)


def G_tet(g):
    v = U(g), U(g), U(g)
    return v, N.simplex([(0, 0, 0), (v[0], 0, 0), (0, v[1], 0), (0, 0, v[2])])


def G_hole(g):
    R_ = U(g)
    v = R_*g.choice([1., .5, .05+.9*g.random()]), R_
    return v, N.steinmetz(v[0], R_, 'y', 60)


def G_plate(g):
    v = U(g), U(g), g.choice([0., g.uniform(-1.3, 1.3)])
    return v, N.platehole(*v)


def G_pyr(g):
    v = U(g), U(g), U(g)
    return v, N.pyramid(v[1]/2, v[2]/2, v[0])


GEN = dict(rect_prism=G_rect, annulus=G_annulus, cone=G_cone, cone2=G_cone2, tri_prism=G_tri, trapezoid=G_trap,
           cylindrical_section=G_seg, tetrahedron=G_tet, cylhole=G_hole, cylhole2=G_hole, platehole=G_plate, pyramid=G_pyr)


def runtime(fn):
    def run(rng, n, hints):
        f = getattr(real('qlmACH'), fn)
        for i in range(n):
            args, pts = GEN[fn](rng)
            Lx = i if i < 8 else rng.randint(0, 9)
            rho = rng.choice([1., -1., 19.3e3])*U(rng)
            ref = float(np.max(np.sqrt(np.sum(pts[:, 1:4]**2, 1))))
            want = N.inner(Lx, N.with_density(pts, rho))
            want[6:] = 0
            sc = np.abs(rho)*np.sum(np.abs(pts[:, 0]))*ref**np.arange(Lx+1)[:, None]*np.ones(2*Lx+1)
            yield eq_case(fn, (Lx, rho)+args, f, (Lx, rho)+args, want, 2e-8, sc)
    return run


UNITS = [Unit(k, ['qlmACH.'+k], [('all dimensions, every L', proof(k))], runtime(k), n=20, budget=400,
              clauses='every entry to degree five is the exact volume integral; mirror; zero elsewhere; shape') for k in BODY]
