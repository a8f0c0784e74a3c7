"""C14: uniform-grid solids fill the documented body with the stated mass

The nest over the grid cells is verified by the sequence contract of
vc/kept.py.  For an arbitrary cell of a grid of arbitrary numbers, and
arbitrary dimensions of the body: the cell is kept exactly when its centre is
in the documented body, its row is [mu, centre] with the same mu for all kept
cells, and the masses add up to the mass.  The grid is the equal division of
the bounding box of the body; the body lies in that box."""
import contextlib
from .common import *
from .. import kept

MASS, = pos('mass')
P1, P2, P3, P4 = pos('p1', 'p2', 'p3', 'p4')
Y1, Y2 = reals('yv1', 'yv2')
BETA, = pos('beta')
NX, = [E.sym('nx', 'posint')]
NY, = [E.sym('ny', 'posint')]
NZ_, = [E.sym('nz', 'posint')]
SIDES = E.sym('sides', 'posint')
H = Q(1, 2)


def centre(i, n, lo, hi):
    """centre of cell i of n equal cells on [lo, hi]"""
    return lo+(hi-lo)*(to_ex(i)+H)/to_ex(n)


def cart(q, bx, by, bz, n):
    """documented cell centre: q = (iz, iy, ix)"""
    return (centre(q[2], n[0], *bx), centre(q[1], n[1], *by), centre(q[0], n[2], *bz))


def ang(x, y):
    """direction of (x, y), uninterpreted"""
    return E.fn('polar', to_ex(y), to_ex(x))


# cos(beta), 1-cos(beta), sin(beta), tan(tilt) as values of their own
CB, SB, VB, W, YH, U = pos('cosb', 'sinb', 'versb', 'width', 'yhalf', 'secant')
TILT, = reals('tilt')


def folded(x):
    return any(E.ATOMS[a][:2] in (('f', 'mod'), ('f', 'floordiv'), ('fn', 'mod'), ('fn', 'floordiv')) for a in E.deep_atoms(to_ex(x)))


@contextlib.contextmanager
def trig(vals):
    """contract of arctan2 (uninterpreted), and the values of cos, sin, tan,
    sqrt at given arguments"""
    NP = shim.NP
    old = {k: getattr(NP, k) for k in ('arctan2', 'cos', 'sin', 'tan', 'sqrt')}

    def at(name):
        f = old[name]

        def g(x, *a):
            if isinstance(x, (Ex, int)):
                for arg, val in vals.get(name, ()):
                    if to_ex(x).same(arg):
                        return val
                if name == 'cos' and folded(x):
                    return E.fn('cosine', to_ex(x))
            return f(x, *a)
        setattr(NP, name, g)
    for k in ('cos', 'sin', 'tan', 'sqrt'):
        at(k)
    NP.arctan2 = lambda y, x: ang(x, y) if isinstance(y, (Ex, int)) and isinstance(x, (Ex, int)) else old['arctan2'](y, x)
    try:
        yield
    finally:
        for k, v in old.items():
            setattr(NP, k, v)


def at_beta(c, s):
    return {'cos': [(BETA, c)], 'sin': [(BETA, s)]}


def both(*cs):
    return C.c_and(*cs)


def rad(x, y):
    return F.sqrt(x*x+y*y)


SMALL, LARGE = lt(BETA, E.PI/2), le(E.PI/2, BETA)
N3 = (NX, NX, NZ_)
NXYZ = (NX, NY, NZ_)
SPECS = {}


def spec_(fn, args, n, boxes, inside, pre=(), vals=()):
    SPECS.setdefault(fn, []).append((args, n, boxes, inside, list(pre), dict(vals)))


def in_sector(x, y, r1, r2):
    r = rad(x, y)
    return both(le(C.absolute(ang(x, y)), BETA), le(r, r2), le(r1, r))


def build():
    a, b, t = P1, P2, P3
    sph = lambda x, y, z: le(x*x+y*y+z*z, a*a)
    spec_('sphere', (MASS, a, NX), (NX, NX, NX), ((-a, a),)*3, sph)
    spec_('rectangle', (MASS, a, b, t, NX, NY, NZ_), NXYZ, ((-a/2, a/2), (-b/2, b/2), (-t/2, t/2)), None)
    spec_('annulus', (MASS, a, b, t, NX, NZ_), N3, ((-b, b), (-b, b), (-t/2, t/2)),
          lambda x, y, z: both(le(a*a, x*x+y*y), le(x*x+y*y, b*b)), [lt(a, b)])
    for small in (True, False):
        if small:
            # the box is W wide and 2 YH high; any 0 < beta < pi/2
            side = [SMALL]
            bx0, by, bx = (E.ZERO, a), (-YH, YH), (b-W, b)
            tr0, tr = at_beta(CB, YH/a), at_beta((b-W)/a, YH/b)
            side2 = [SMALL, lt(W, b), lt(a, b)]
        else:
            side = [LARGE, le(BETA, E.PI), lt(1, VB)]
            bx0, by, bx = ((1-VB)*a, a), (-a, a), ((1-VB)*b, b)
            tr0 = tr = at_beta(1-VB, SB)
            side2 = side+[lt(a, b)]
        spec_('cone', (MASS, a, b, BETA, NX, NZ_), N3, (bx0, by, (E.ZERO, b)),
              lambda x, y, z: both(le(C.absolute(ang(x, y)), BETA), le(x*x+y*y, a*a*(1-z/b)**2)), side, tr0)
        by = by if small else (-b, b)
        spec_('wedge', (MASS, a, b, t, BETA, NX, NZ_), N3, (bx, by, (-t/2, t/2)),
              lambda x, y, z: in_sector(x, y, a, b), side2, tr)
        spec_('outer_cone', (MASS, a, b, t, BETA, NX, NZ_), N3, (bx, by, (E.ZERO, t)),
              lambda x, y, z: both(le(C.absolute(ang(x, y)), BETA), le(rad(x, y), b-z*(b-a)/t), le(a, rad(x, y))), side2, tr)
    spec_('trapezoid', (MASS, b-W, b, t, BETA, NX, NZ_), N3, (((b-W)*CB, b*CB), (-YH, YH), (-t/2, t/2)),
          lambda x, y, z: le(C.absolute(ang(x, y)), BETA), [SMALL, lt(W, b)], at_beta(CB, YH/b))
    for lo, hi, pre in tri_cases():
        spec_('tri_prism', (MASS, a, Y1, Y2, t, NX, NY, NZ_), NXYZ, ((E.ZERO, a), (lo, hi), (-t/2, t/2)),
              lambda x, y, z: both(le(x*Y1, y*a), le(y*a, x*Y2)), pre)
        spec_('tetrahedron', (MASS, a, Y1, Y2, t, NX, NY, NZ_), NXYZ, ((E.ZERO, a), (lo, hi), (E.ZERO, t)),
              lambda x, y, z: both(le(x*Y1, y*a), le(y*a, x*Y2), le(z, t*(1-x/a))), pre)
    spec_('pyramid', (MASS, a, b, t, NX, NY, NZ_), NXYZ, ((-a, a), (-b, b), (E.ZERO, t)),
          lambda x, y, z: both(le(z, t*(1-x/a)), le(z, t*(1+x/a)), le(z, t*(1-y/b)), le(z, t*(1+y/b))))
    spec_('cylhole', (MASS, a, b, NX, NZ_), N3, ((-a, a), (-a, a), (-b, b)),
          lambda x, y, z: both(le(x*x+y*y, a*a), le(y*y+z*z, b*b)), [le(a, b)])
    for sg in (1, -1):
        s = 2*(W-a*U)/t*sg              # the box is 2 W wide; U = sqrt(1+s^2)
        spec_('platehole', (MASS, t, a, TILT, NX, NY, NZ_), NXYZ, ((-W, W), (-a, a), (-t/2, t/2)),
              lambda x, y, z, s=s: le(y*y+(x-z*s)**2/(1+s*s), a*a), [le(0, s) if sg > 0 else lt(s, 0)],
              {'tan': [(TILT, s)], 'sqrt': [(1+s*s, U)]})


    # regular polygon with 3 or more sides; the side nearest to the direction q
    # has its normal at the multiple of 2 pi/N nearest to q
    PH = E.PI/SIDES

    def ngon(x, y, z):
        q = C.mod(ang(x, y), 2*PH)
        if CTX.decide(lt(PH, q)):
            q = q-2*PH
        return le(rad(x, y)*shim.NP.cos(q), a/(2*W))
    spec_('ngon_prism', (MASS, t, a, SIDES, NX, NZ_), N3, ((-a/(2*U), a/(2*U)),)*2+((-t/2, t/2),), ngon, [le(3, SIDES)],
          {'tan': [(PH, W)], 'sin': [(PH, U)]})


def tri_cases():
    """bounds in y of the triangle (0,0), (d,y1), (d,y2)"""
    return [(E.ZERO, Y2, [le(0, Y1), lt(Y1, Y2), lt(0, Y2)]), (Y1, Y2, [lt(Y1, 0), lt(0, Y2)]), (Y1, E.ZERO, [lt(Y1, Y2), le(Y2, 0), lt(Y1, 0)])]


build()


def same(a, b):
    a, b = to_ex(a), to_ex(b)
    return a.same(b) or S.prove_zero(a-b)


def index(c, bx, by, bz, n):
    """the (real) cell numbers of the centre c"""
    f = lambda v, b, m: (v-b[0])*to_ex(m)/(b[1]-b[0])-H
    return (f(c[2], bz, n[2]), f(c[1], by, n[1]), f(c[0], bx, n[0]))


def order(r, n):
    """(iz, iy, ix) in the order of the loops of the code; None: other extents"""
    if len(r.ids.dims) != 3:
        return None
    gen = tuple(E.atom_ex(a, 1) for a in r.ids.syms)
    use = {}
    for j in range(3):
        for pc, v, _ in CTX.explore(lambda: r.rd([gen, j+1])):
            if v[0] == 'ok':
                use[j] = set(E.deep_atoms(to_ex(v[1]))) & set(r.ids.syms)
                break
    perm = [[i for i in range(3) if r.ids.syms[i] in use.get(j, ())] for j in range(3)]
    if sorted(sum(perm, [])) != [0, 1, 2] or any(len(p) != 1 for p in perm):
        perm = [[2], [1], [0]]
    if any(not E.is_zero(to_ex(r.ids.dims[perm[j][0]])-to_ex(n[j])) for j in range(3)):
        return None

    def at(q):
        out = [None]*3
        for j in range(3):
            out[perm[j][0]] = q[2-j]
        return tuple(out)
    return at


def p_shape(fn, modname='glibShapes', specs=SPECS):
    def go(ob):
        for args, n, boxes, inside, pre, vals in specs[fn]:
            def thunk():
                f = getattr(src(modname), fn)
                with kept.rule(), trig(vals):
                    r = f(*args)
                    if not isinstance(r, A.FArr) or not hasattr(r.ids, 'fresh') or len(r.rest) != 1 or A.con(r.rest[0]) != 4:
                        return [('kept cells of the grid as rows [m, x, y, z]', False)]
                    at = order(r, n)
                    out = [('extents of the grid', at is not None)]
                    if at is None:
                        return out
                    # an arbitrary cell, described by its centre
                    c = [CTX.fresh('at', 'real') for _ in range(3)]
                    q = at(index(c, *boxes, n))
                    if inside is None:
                        ins = CTX.decide(r.ids.cond(q))
                        out.append(('every cell', ins))
                    else:
                        want = bool(CTX.decide(inside(*c)))
                        ins = bool(CTX.decide(r.ids.cond(q)))
                        out.append(('kept exactly the cells with the centre in the body', want == ins))
                    if ins:
                        for j in range(3):
                            out.append((f'centre {"xyz"[j]}', same(r.rd([q, j+1]), c[j])))
                        # an arbitrary other kept cell has the same mass
                        p = at(index([CTX.fresh('to', 'real') for _ in range(3)], *boxes, n))
                        m = r.rd([q, 0])
                        if inside is None or m.same(r.rd([p, 0])) or CTX.decide(r.ids.cond(p)):
                            out.append(('equal masses', same(m, r.rd([p, 0]))))
                    return out

            def total():
                f = getattr(src(modname), fn)
                with kept.rule(), trig(vals):
                    r = f(*args)
                    return [('total mass', same(r[:, 0].sum(), MASS))]
            ob.paths(f'{fn} cells', thunk, pre=pre)
            ob.paths(f'{fn} total', total, pre=pre)
    return go



# ------------------------------------------------------------ random points
def p_shell(ob):
    M, R = pos('mass', 'r')
    K = E.sym('N', 'posint')

    def rand(*shape):
        a = arr_in('rand', *shape)
        return a

    def floor(x):
        v = CTX.fresh('floor', 'nat')
        CTX.assume(le(v, x))
        CTX.assume(lt(x, v+1))
        CTX.assume(lt(0, v))
        return v

    def thunk():
        shim.RANDOM.rand = rand
        shim.NP.floor = floor
        try:
            f = src('glibShapes').spherical_random_shell
            with kept.rule():
                r = f(M, R, K)
                if not isinstance(r, A.FArr) or len(r.rest) != 1 or A.con(r.rest[0]) != 4:
                    return [('rows [m, x, y, z]', False)]
                n = kept.count_of(r)
                k = CTX.fresh('k', 'nat')
                CTX.assume(r.ids.cond(k))
                m, x, y, z = (to_ex(r.rd([k, j])) for j in range(4))
                return [('mass of a point', same(m*n, M)), ('on the sphere', same(x*x+y*y+z*z, R*R))]
        finally:
            del shim.RANDOM.rand, shim.NP.floor
    ob.paths('spherical_random_shell', thunk)


# ------------------------------------------------------------------ runtime
def grid(box, n):
    ax = [b[0]+(b[1]-b[0])*(np.arange(k)+.5)/k for b, k in zip(box, n)]
    return np.stack([g.ravel() for g in np.meshgrid(*ax, indexing='ij')], 1)


def wsect(x, y, beta):
    """angle inside the sector of half angle beta about x (negative: outside)"""
    return beta-np.abs(np.arctan2(y, x))


def rbox(beta, r1, r2):
    """bounding box of the sector r1 < r < r2, |angle| < beta"""
    c, s = math.cos(beta), math.sin(beta)
    if beta < math.pi/2:
        return (c*r1, r2), (-s*r2, s*r2)
    return (c*r2, r2), (-r2, r2)


# documented bodies: fn -> draw(rng) -> (args, n, box, margins of the point inside)
def d_sphere(g):
    a, n = dim(g, .1, 4), g.randint(1, 9)
    return (a, n), (n,)*3, ((-a, a),)*3, lambda x, y, z: [a*a-x*x-y*y-z*z]


def d_rectangle(g):
    a, b, c = (dim(g, .1, 4) for _ in 'abc')
    n = tuple(g.randint(1, 6) for _ in 'abc')
    return (a, b, c)+n, n, ((-a/2, a/2), (-b/2, b/2), (-c/2, c/2)), lambda x, y, z: [1+0*x]


def two(g):
    a, b = sorted(dim(g, .05, 4) for _ in 'ab')
    return a*.9, b


def d_annulus(g):
    a, b = two(g)
    t, n, nz = dim(g, .1, 4), g.randint(2, 10), g.randint(1, 5)
    return (a, b, t, n, nz), (n, n, nz), ((-b, b), (-b, b), (-t/2, t/2)), \
        lambda x, y, z: [b*b-x*x-y*y, x*x+y*y-a*a]


def angle(g):
    return g.choice([g.uniform(.2, 1.5), g.uniform(1.6, 3.1), math.pi, g.uniform(.2, 3.1)])


def d_cone(g):
    a, h, be, n, nz = dim(g, .1, 4), dim(g, .1, 4), angle(g), g.randint(1, 10), g.randint(1, 6)
    return (a, h, be, n, nz), (n, n, nz), rbox(be, 0, a)+((0, h),), \
        lambda x, y, z: [wsect(x, y, be), a*(1-z/h)-np.hypot(x, y)]


def d_wedge(g):
    a, b = two(g)
    t, be, n, nz = dim(g, .1, 4), angle(g), g.randint(2, 11), g.randint(1, 6)
    return (a, b, t, be, n, nz), (n, n, nz), rbox(be, a, b)+((-t/2, t/2),), \
        lambda x, y, z: [wsect(x, y, be), b-np.hypot(x, y), np.hypot(x, y)-a]


def d_outer_cone(g):
    a, b = two(g)
    t, be, n, nz = dim(g, .1, 4), angle(g), g.randint(2, 11), g.randint(1, 6)
    return (a, b, t, be, n, nz), (n, n, nz), rbox(be, a, b)+((0, t),), \
        lambda x, y, z: [wsect(x, y, be), b-z*(b-a)/t-np.hypot(x, y), np.hypot(x, y)-a]


def d_trapezoid(g):
    a, b = two(g)
    t, be, n, nz = dim(g, .1, 4), g.uniform(.1, 1.5), g.randint(1, 10), g.randint(1, 6)
    c, s = math.cos(be), math.sin(be)
    return (a, b, t, be, n, nz), (n, n, nz), ((a*c, b*c), (-b*s, b*s), (-t/2, t/2)), \
        lambda x, y, z: [wsect(x, y, be)]


def tri(g):
    d = dim(g, .1, 4)
    y1, y2 = sorted(g.choice([dim(g, -3, 3, False), dim(g, .1, 3, False), dim(g, -3, -.1, False)]) for _ in 'ab')
    c = g.random()
    if c < .15:
        y1 = 0.
        y2 = abs(y2)+.1
    elif c < .3:
        y1, y2 = -abs(y1)-.1, 0.
    return d, y1, y2, (min(0, y1), max(0, y2))


def d_tri_prism(g):
    d, y1, y2, by = tri(g)
    t, n = dim(g, .1, 4), tuple(g.randint(1, 8) for _ in 'abc')
    return (d, y1, y2, t)+n, n, ((0, d), by, (-t/2, t/2)), lambda x, y, z: [y*d-x*y1, x*y2-y*d]


def d_tetrahedron(g):
    d, y1, y2, by = tri(g)
    t, n = dim(g, .1, 4), tuple(g.randint(1, 8) for _ in 'abc')
    return (d, y1, y2, t)+n, n, ((0, d), by, (0, t)), lambda x, y, z: [y*d-x*y1, x*y2-y*d, t*(1-x/d)-z]


def d_ngon_prism(g):
    N_ = g.randint(3, 9)
    h, a, n, nz = dim(g, .1, 4), dim(g, .1, 4), g.randint(1, 12), g.randint(1, 4)
    b, d = a/2/math.tan(math.pi/N_), a/2/math.sin(math.pi/N_)
    return (h, a, N_, n, nz), (n, n, nz), ((-d, d), (-d, d), (-h/2, h/2)), \
        lambda x, y, z: [b-x*math.cos(2*math.pi*k/N_)-y*math.sin(2*math.pi*k/N_) for k in range(N_)]


def d_pyramid(g):
    a, b, c = (dim(g, .1, 4) for _ in 'abc')
    n = tuple(g.randint(1, 9) for _ in 'abc')
    return (a, b, c)+n, n, ((-a, a), (-b, b), (0, c)), lambda x, y, z: [c*(1-np.abs(x)/a)-z, c*(1-np.abs(y)/b)-z]


def d_cylhole(g):
    a, b = two(g)
    n, nz = g.randint(1, 9), g.randint(1, 9)
    return (a, b, n, nz), (n, n, nz), ((-a, a), (-a, a), (-b, b)), lambda x, y, z: [a*a-x*x-y*y, b*b-y*y-z*z]


def d_platehole(g):
    t, r, th = dim(g, .1, 4), dim(g, .1, 4), g.uniform(-1.3, 1.3)
    if g.random() < .15:
        th = 0.
    n = tuple(g.randint(1, 9) for _ in 'abc')
    w = r/math.cos(th)+t/2*abs(math.tan(th))
    # distance from the axis along (sin, 0, cos)
    return (t, r, th)+n, n, ((-w, w), (-r, r), (-t/2, t/2)), \
        lambda x, y, z: [r-np.hypot(y, x*math.cos(th)-z*math.sin(th))]


def rows_case(key, inputs, st, r, mass, want, keep, maybe, weight=None, tol=1e-9):
    """rows of a model against [mass, centres]; cells on the surface may be
    kept or not.  weight: relative masses (equal when None)"""
    if st == 'raise':
        return Case(key, inputs, False, f'raises {r!r}')
    r = np.asarray(r, float)
    if r.ndim != 2 or r.shape[1] != 4:
        return Case(key, inputs, False, f'shape {r.shape}')
    size = np.max(np.abs(want))+1e-300
    used = np.zeros(len(want), bool)
    at = np.zeros(len(r), int)
    for i, row in enumerate(r):
        if not np.all(np.isfinite(row)):
            return Case(key, inputs, False, f'row {i}: {row}')
        d = np.max(np.abs(want-row[1:]), 1)
        j = int(np.argmin(np.where(used, np.inf, d)))
        if used[j] or d[j] > tol*size:
            return Case(key, inputs, False, f'row {i} {row[1:]} is no centre of a cell')
        if not keep[j] and not maybe[j]:
            return Case(key, inputs, False, f'row {i} {row[1:]} lies outside the body')
        used[j] = True
        at[i] = j
    miss = np.nonzero(keep & ~maybe & ~used)[0]
    if len(miss):
        return Case(key, inputs, False, f'{len(miss)} cells of the body are missing, first {want[miss[0]]}')
    if len(r) == 0:
        return Case(key, inputs, True)
    w = np.ones(len(r)) if weight is None else weight[at]
    m = mass*w/np.sum(w)
    bad = np.nonzero(np.abs(r[:, 0]-m) > 1e-9*abs(mass))[0]
    if len(bad):
        return Case(key, inputs, False, f'mass of row {bad[0]}: {r[bad[0], 0]} for {m[bad[0]]}; total {r[:, 0].sum()} for {mass}')
    return Case(key, inputs, True)


def rt_shape(fn, modname='glibShapes'):
    draw = globals()['d_'+fn]

    def run(rng, n, hints):
        f = getattr(real(modname), fn)
        done = 0
        for _ in range(20*n):
            if done >= n:
                break
            args, nn, box, margins = draw(rng)
            mass = rng.choice([1., rng.uniform(.01, 50)])
            c = grid(box, nn)
            m = np.array(margins(*c.T))
            if CASE['scale'] != 1:
                m = m/(np.max(np.abs(m), 1)[:, None]+1e-300)
            size = max(1., np.max(np.abs(m)))
            keep = np.all(m > 0, 0)
            maybe = np.all(m > -1e-11*size, 0) & np.any(np.abs(m) <= 1e-11*size, 0)
            if not np.any(keep & ~maybe):
                continue                # no centre in the body: no model
            done += 1
            st, r = attempt(f, mass, *args)
            yield rows_case(fn, (mass,)+args, st, r, mass, c, keep, maybe)
    return run


def rt_shell(rng, n, hints):
    np.random.seed(rng.randrange(2**31))
    f = real('glibShapes').spherical_random_shell
    for i in range(n):
        mass, R, K = rng.uniform(.1, 9), rng.uniform(.1, 9), rng.choice([1000, 37, rng.randint(20, 4000)])
        st, r = attempt(f, mass, R, K)
        if st == 'raise':
            yield Case('spherical_random_shell', (mass, R, K), False, repr(r))
            continue
        ok = r.ndim == 2 and r.shape[1] == 4 and abs(len(r)-K) <= 8*math.sqrt(K)+2
        ok = ok and np.allclose(r[:, 0], mass/len(r), rtol=1e-12) and np.allclose(np.sum(r[:, 1:]**2, 1), R*R, rtol=1e-9)
        # uniform over the sphere: the centre and the second moments are those of a shell
        u = r[:, 1:]/R
        ok = ok and np.all(np.abs(u.mean(0)) < 6/math.sqrt(3*len(r))) and \
            np.all(np.abs(u.T@u/len(r)-np.eye(3)/3) < 6*.3/math.sqrt(len(r)))
        yield Case('spherical_random_shell', (mass, R, K), ok, f'{len(r)} points, mass {r[:, 0].sum()}, mean {u.mean(0)}')


CLAUSES = 'kept cells = cells with the centre in the body, centres of the equal division of the bounding box, equal masses, total mass'
UNITS = []
for fn in SPECS:
    UNITS.append(Unit(fn, ['glibShapes.'+fn], [('all dimensions and grids', p_shape(fn))], rt_shape(fn), budget=420, n=14, clauses=CLAUSES))
UNITS += [
    Unit('random shell', ['glibShapes.spherical_random_shell'], [('all masses, radii and numbers', p_shell)], rt_shell, n=12,
         clauses='all points on the sphere, equal masses, total mass; runtime: uniform over the sphere'),
]
