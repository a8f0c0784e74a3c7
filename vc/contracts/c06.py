"""C06: closed-form inner moments of homogeneous solids, every degree"""
from .common import *

MASS, H, R, Ri, Ro, P, a, b, x, y, z = pos('mass', 'H', 'R', 'Ri', 'Ro', 'P', 'a', 'b', 'x', 'y', 'z')
phic, phih, d, y1, y2 = reals('phic', 'phih', 'd', 'y1', 'y2')
RI0 = E.sym('Ri0', 'nonneg')
L, = nat('L')
NN = E.sym('Nside', 'posint')
SPAN = [lt(0, phih), le(phih, E.PI)]

q = spec


def rect_A(a, b, phic):
    return q.quarter_turns(q.iso_triangle(a/2, b/a, phic), q.iso_triangle(b/2, a/b, phic))


def ngon_A(side, phic, n):
    """regular n-gon: n congruent isosceles triangles at phic + 2 pi j/n; the
    sum of the n-th roots of unity keeps m divisible by n only"""
    t = F.tan(E.PI/n)
    tri = q.iso_triangle(side/(2*t), t, phic)

    def A_(m, k):
        if not CTX.decide(A.divides(n, to_ex(m))):
            return E.ZERO
        return tri(m, k)
    return A_


SOLIDS = {
    'sphere': dict(args=lambda L: (L, MASS, R), pre=[],
                   val=lambda l, m: MASS/E.power(q.FOURPI, Q(1, 2))
                   if CTX.decide(eq(l, 0)) else E.ZERO),
    'cylinder': dict(args=lambda L: (L, MASS, H, R), pre=[],
                     val=lambda l, m: q.prism(l, m, MASS, H, q.annular_sector(E.ZERO, R, E.ZERO, E.PI))),
    'annulus': dict(args=lambda L: (L, MASS, H, RI0, Ro, phic, phih), pre=SPAN+[lt(RI0, Ro)],
                    val=lambda l, m: q.prism(l, m, MASS, H, q.annular_sector(RI0, Ro, phic, phih))),
    'cone': dict(args=lambda L: (L, MASS, P, R, phic, phih), pre=SPAN,
                 val=lambda l, m: q.pointed(l, m, MASS, P, q.annular_sector(E.ZERO, R, phic, phih))),
    'tri_iso_prism': dict(args=lambda L: (L, MASS, H, a, d, phic), pre=[ne(d, 0)],
                          val=lambda l, m: q.prism(l, m, MASS, H, q.iso_triangle(d, a/(2*d), phic))),
    'tri_iso_prism2': dict(args=lambda L: (L, MASS, H, R, phic, phih),
                           pre=[lt(0, phih), lt(phih, E.PI/2)],
                           val=lambda l, m: q.prism(l, m, MASS, H, q.iso_triangle(
                               R*E.cos(phih), F.tan(phih), phic))),
    'tri_prism': dict(args=lambda L: (L, MASS, H, d, y1, y2), pre=[ne(d, 0), ne(y1, y2)],
                      val=lambda l, m: q.prism(l, m, MASS, H, q.triangle(d, y1, y2))),
    'rect_prism': dict(args=lambda L: (L, MASS, H, a, b, phic), pre=[],
                       val=lambda l, m: q.prism(l, m, MASS, H, rect_A(a, b, phic))),
    'ngon_prism': dict(args=lambda L: (L, MASS, H, a, phic, NN), pre=[le(3, NN)],
                       val=lambda l, m: q.prism(l, m, MASS, H, ngon_A(a, phic, NN))),
    'tetrahedron': dict(args=lambda L: (L, MASS, x, y, z), pre=[],
                        val=lambda l, m: q.corner_simplex(l, m, MASS, x, y, z)),
    'tetrahedron2': dict(args=lambda L: (L, MASS, x, y1, y2, z), pre=[ne(y1, y2)],
                         val=lambda l, m: q.pointed(l, m, MASS, z, q.triangle(x, y1, y2))),
    'pyramid': dict(args=lambda L: (L, MASS, x, y, z), pre=[],
                    val=lambda l, m: q.pointed(l, m, MASS, z, rect_pair(x, y))),
}


def rect_pair(x, y):
    """base |X|<x, |Y|<y"""
    return q.quarter_turns(q.sym_triangle(x, y), q.sym_triangle(y, x))


# ---------------------------------------------------------------- run-time contract
def U(rng, lo=0.2, hi=2.5):
    return dim(rng, lo, hi)


def ang(rng):
    return rng.uniform(-7, 7)


def span(rng, top=math.pi):
    return rng.choice([top, top*rng.random() or .3, top*.999, .01])


def g_sphere(r):
    v = (U(r, .1, 9), U(r))
    return v, np.array([[v[0], 0, 0, 0]])


def g_cylinder(r):
    M, h, R_ = U(r), U(r), U(r)
    return (M, h, R_), N.scale_to_mass(N.sector(-h/2, h/2, 0, R_, 0, math.pi), M)


def g_annulus(r):
    M, h, Ro_ = U(r), U(r), U(r)
    Ri_ = Ro_*r.choice([0, r.random(), .99])
    pc, ph = ang(r), span(r)
    return (M, h, Ri_, Ro_, pc, ph), N.scale_to_mass(N.sector(-h/2, h/2, Ri_, Ro_, pc, ph), M)


def g_cone(r):
    M, P_, R_ = U(r), U(r), U(r)
    pc, ph = ang(r), span(r)
    return (M, P_, R_, pc, ph), N.scale_to_mass(N.frustum(0, P_, R_, 0, pc, ph), M)


def rot2(p, t):
    c, s = math.cos(t), math.sin(t)
    return (c*p[0]-s*p[1], s*p[0]+c*p[1])


def tri(h, M, A, B, t=0.):
    return N.scale_to_mass(N.tri_prism(h, (0, 0), rot2(A, t), rot2(B, t)), M)


def g_iso(r):
    M, h, a_ = U(r), U(r), U(r)
    d_ = U(r)*r.choice([1, 1, -1])
    pc = ang(r)
    return (M, h, a_, d_, pc), tri(h, M, (d_, -a_/2), (d_, a_/2), pc)


def g_iso2(r):
    M, h, R_ = U(r), U(r), U(r)
    pc, ph = ang(r), r.uniform(.05, 1.5)
    d_, t = R_*math.cos(ph), R_*math.sin(ph)
    return (M, h, R_, pc, ph), tri(h, M, (d_, -t), (d_, t), pc)


def g_tri(r):
    M, h, d_ = U(r), U(r), U(r)*r.choice([1, 1, -1])
    u, v = dim(r, -2, 2, False), dim(r, -2, 2, False)
    if r.random() < .2:
        u = 0.
    return (M, h, d_, u, v), tri(h, M, (d_, u), (d_, v))


def g_rect(r):
    M, h, a_, b_ = U(r), U(r), U(r), U(r)
    pc = ang(r)
    return (M, h, a_, b_, pc), N.move(N.scale_to_mass(N.box(a_, b_, h), M), N.rotz(pc))


def g_ngon(r):
    M, h, a_ = U(r), U(r), U(r)
    pc = ang(r)
    n = r.choice([3, 4, 5, 6, 7, 9])
    rho = a_/(2*math.sin(math.pi/n))
    V = [rot2((rho, 0), pc+2*math.pi*(j+.5)/n) for j in range(n)]
    return (M, h, a_, pc, n), N.scale_to_mass(N.polygon_prism(h, V), M)


def g_tet(r):
    M, x_, y_, z_ = U(r), U(r), U(r), U(r)
    return (M, x_, y_, z_), N.scale_to_mass(N.simplex([(0, 0, 0), (x_, 0, 0), (0, y_, 0), (0, 0, z_)]), M)


def g_tet2(r):
    M, x_, z_ = U(r), U(r), U(r)
    u, v = dim(r, -2, 2, False), dim(r, -2, 2, False)
    return (M, x_, u, v, z_), N.scale_to_mass(N.simplex([(0, 0, 0), (x_, u, 0), (x_, v, 0), (0, 0, z_)]), M)


def g_pyr(r):
    M, x_, y_, z_ = U(r), U(r), U(r), U(r)
    return (M, x_, y_, z_), N.scale_to_mass(N.pyramid(x_, y_, z_), M)


GEN = dict(sphere=g_sphere, cylinder=g_cylinder, annulus=g_annulus, cone=g_cone,
           tri_iso_prism=g_iso, tri_iso_prism2=g_iso2, tri_prism=g_tri,
           rect_prism=g_rect, ngon_prism=g_ngon, tetrahedron=g_tet,
           tetrahedron2=g_tet2, pyramid=g_pyr)


def runtime(fn):
    def run(rng, n, hints):
        f = getattr(real('qlm'), fn)
        for i in range(n):
            args, pts = GEN[fn](rng)
            Lmax = degree(rng, rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 10]))
            ref = float(np.max(np.sqrt(np.sum(pts[:, 1:4]**2, 1))))
            want = N.inner(Lmax, pts)
            scale = args[0]*np.maximum(ref, 1e-9)**np.arange(Lmax+1)[:, None]*np.ones(2*Lmax+1)
            yield eq_case(fn, (Lmax,)+args, f, (Lmax,)+args, want, 1e-9, scale)
    return run


def unit(fn):
    s = SOLIDS[fn]

    def unb(ob):
        f = getattr(src('qlm'), fn)
        spec.moment_array(ob, fn, lambda: f(*s['args'](L)), L, s['val'], s['pre'])

    def bnd(Lc):
        def run(ob):
            f = getattr(src('qlm'), fn)
            for Lx in range(Lc+1):
                spec.moment_array_upto(ob, f'{fn} L={Lx}', lambda: f(*s['args'](Lx)), Lx, s['val'], s['pre'])
        return run
    return Unit(fn, ['qlm.'+fn], [('all L, l, m and dimensions', unb),
                                  ('bounded: L<=4, all dimensions', bnd(4))],
                runtime(fn), budget=100,
                clauses='value(l,m) for every 0<=m<=l<=L, mirror, zero beyond, shape, no exception')


UNITS = [unit(k) for k in SOLIDS]
