"""C17: shape objects

Class invariant: qlm is the moments (inner or outer as the flag says, up to
lmax) of a body B, mass is the mass of B, com is the centre of mass of B.
Moments are handled by the contracts of the functions that make and move them
(C05 - C10, C03): a moment array is the moments of a formal sum of solids, each
moved by a rotation and a displacement; every contract states what it does to
that body and what it needs (inner or outer).  Each method, started from an
arbitrary state that satisfies the invariant, re-establishes it for the moved or
combined body; so it holds after any sequence.  Refusals change nothing.  In a
sum of shapes of different lmax every part counts up to its own lmax."""
from .common import *
from ..bodies import *   # noqa

AL, BE, GA = reals('alpha', 'beta', 'gamma')
LM, = nat('lmax')
INNER = ('qlm', 'qlmACH', 'qlmNum')
OUTER = ('bigQlm', 'bigQlmNum')


def c_rot3(p, theta, axis):
    """C03: [m, R x] with R the rotation by theta about the axis"""
    ax = displacement(axis)
    c, s = E.cos(theta), E.sin(theta)
    n2 = sum((a*a for a in ax), E.ZERO)
    n = F.sqrt(n2)
    u = [a/n for a in ax]
    K = mat([[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]])
    KK = mm(K, K)
    R = [[EYE[i][j]+s*K[i][j]+(1-c)*KK[i][j] for j in range(3)] for i in range(3)]
    if p.ndim != 1:
        raise E.Unsupported('rows')
    x = mv(R, [p.read([Ex.const(i)]) for i in (1, 2, 3)])
    return A.asarr([p.read([Ex.const(0)])]+x)


# ------------------------------------------------------------ solids (C06 - C08)
def sinc(p):
    return E.sin(p)/p


def polar(r, phic, z):
    return [r*E.cos(phic), r*E.sin(phic), to_ex(z)]


def k_annulus(H, Ri, Ro, phic, phih):
    return polar(2*(Ro**3-Ri**3)/(3*(Ro**2-Ri**2))*sinc(phih), phic, 0)


def k_cone(P, R, phic, phih):
    return polar(R/2*sinc(phih), phic, P/4)


def frustum_mass(H, IR, OR, phih):
    """volume under H (OR-r)/(OR-IR) for IR < r < OR"""
    prim = lambda r: H/(OR-IR)*(OR*r**2/2-r**3/3)
    return 2*phih*(prim(OR)-prim(IR))


def k_outer_cone(H, IR, OR, phih):
    d = OR-IR
    h = lambda p, q: integral_h(p, q, H, IR, OR)
    return [h(2, 1)/h(1, 1)*sinc(phih), E.ZERO, h(1, 2)/2/h(1, 1)]


def integral_h(p, q, H, a, b):
    """integral of r^p (H (b-r)/(b-a))^q over [a, b], q = 1, 2"""
    prim = {1: lambda r: b*r**(p+1)/(p+1)-r**(p+2)/(p+2),
            2: lambda r: b*b*r**(p+1)/(p+1)-2*b*r**(p+2)/(p+2)+r**(p+3)/(p+3)}[q]
    return (H/(b-a))**q*(prim(b)-prim(a))


Z3 = [E.ZERO]*3
VOL = lambda name, *a: E.fn('volume '+name, *[to_ex(v) for v in a])
# function: (lmax, mass or density, *dimensions) -> (mass, centre)
SOLID = {
    'qlm.annulus': lambda M, H, Ri, Ro, pc, ph: (M, k_annulus(H, Ri, Ro, pc, ph)),
    'qlm.rect_prism': lambda M, *a: (M, Z3),
    'qlm.tri_prism': lambda M, H, d, y1, y2: (M, [2*d/3, (to_ex(y1)+y2)/3, E.ZERO]),
    'qlm.cone': lambda M, P, R, pc, ph: (M, k_cone(P, R, pc, ph)),
    'qlm.sphere': lambda M, R: (M, Z3),
    'qlm.ngon_prism': lambda M, *a: (M, Z3),
    'qlm.tetrahedron2': lambda M, x, y1, y2, z: (M, [to_ex(x)/2, (to_ex(y1)+y2)/4, to_ex(z)/4]),
    'qlm.pyramid': lambda M, x, y, z: (M, [E.ZERO, E.ZERO, to_ex(z)/4]),
    'qlmNum.steinmetz': lambda rho, r, R: (rho*VOL('steinmetz', r, R), Z3),
    'qlmNum.platehole': lambda rho, t, r, th: (rho*E.PI*r*r*t/E.cos(th), Z3),
    'bigQlm.sphere': lambda rho, R, x, y, z: (rho*4*E.PI*R**3/3, [to_ex(x), to_ex(y), to_ex(z)]),
    # from the plane z = 0 up (H > 0) or down (H < 0)
    'bigQlm.annulus': lambda rho, H, Ri, Ro, pc, ph: (rho*ph*(Ro*Ro-Ri*Ri)*C.absolute(H), k_annulus(H, Ri, Ro, pc, ph)[:2]+[to_ex(H)/2]),
    'bigQlmNum.outer_cone': lambda rho, H, IR, OR, ph: (rho*frustum_mass(H, IR, OR, ph), k_outer_cone(H, IR, OR, ph)),
}


def c_solid(name):
    mod = name.split('.')[0]

    def f(L, m, *a):
        mass, com = SOLID[name](to_ex(m), *[to_ex(v) for v in a])
        return Mom(mod in INNER, L, [Solid((name,)+tuple(to_ex(v).key() for v in a), mass, com)])
    return f


class Mesh:
    """stand-in for the CAD objects (not part of the property)"""
    pmass = True

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: Mesh()


CONTRACTS = {'rotations.rotate_qlm': c_rotate, 'translations.translate_qlm': c_move('inner'), 'translations.translate_q2Q': c_move('to outer'),
             'translations.translate_Qlmb': c_move('outer'), 'multipoleLib.embed_qlm': c_embed, 'glib.rotate_point_array': c_rot3}
CONTRACTS.update({k: c_solid(k) for k in SOLID})
GCAD = ['sphere', 'cylinder', 'annulus', 'cone', 'tri_iso_prism', 'tri_iso_prism2', 'tri_prism', 'rect_prism', 'trapezoid', 'ngon_prism', 'tetrahedron',
        'tetrahedron2', 'pyramid', 'cylhole', 'platehole', 'outercone', 'translate_mesh', 'rotate_mesh', 'sum_mesh']
CONTRACTS.update({'genCAD.'+k: lambda *a: Mesh() for k in GCAD})


def lib():
    return src('shapes', CONTRACTS)


# --------------------------------------------------------------- invariant
def com_of(s):
    return [to_ex(s.com.read([Ex.const(i)])) for i in range(3)]


def total(body):
    m = sum((s.mass for s in body), E.ZERO)
    return m, [sum((s.mass*s.center()[i] for s in body), E.ZERO) for i in range(3)]


def holds(s, body, inner, lmax, what=''):
    """obligations: s satisfies the invariant for the body"""
    m, first = total(body)
    out = [(what+'moments', isinstance(s.qlm, Mom) and s.qlm.inner == inner and same_body(s.qlm.body, body) and zero(s.qlm.lmax-lmax)),
           (what+'kind', bool(s.inner) == inner), (what+'degree', zero(to_ex(s.lmax)-lmax)), (what+'mass', zero(to_ex(s.mass)-m))]
    if isinstance(s.com, A.SArr) and s.com.ndim == 1:
        out += [(what+'centre '+'xyz'[i], zero(c*m-f)) for i, (c, f) in enumerate(zip(com_of(s), first))]
    else:
        out.append((what+'centre', False))
    return out


def any_shape(mod, k, inner, lmax=None):
    """an arbitrary object that satisfies the invariant"""
    s = mod.Shape.__new__(mod.Shape)
    m, = pos(f'mass{k}')
    b = Solid(('any', k), m, vec(f'c{k}'), [vec(f'R{k}{i}') for i in range(3)], vec(f't{k}'))
    s.inner, s.lmax, s.mass, s.mesh = inner, LM if lmax is None else lmax, m, Mesh()
    s.qlm = Mom(inner, s.lmax, [b])
    s.com = A.asarr([to_ex(v) for v in b.center()])
    return s, [b]


def state(s):
    return (s.inner, to_ex(s.lmax).key(), s.qlm, tuple(s.qlm.body), tuple(v.key() for v in com_of(s)), to_ex(s.mass).key())


def separate(sh):
    """no two shapes share an array"""
    ids = [id(x) for s in sh for x in (s.qlm, s.com.root())]
    return len(set(ids)) == len(ids)


def p_rotate(ob):
    for inner in (True, False):
        def thunk():
            m = lib()
            s, b = any_shape(m, 0, inner)
            s.rotate(AL, BE, GA)
            R = euler(AL, BE, GA)
            return holds(s, [x.moved(R, (0, 0, 0)) for x in b], inner, LM)
        ob.paths(f'rotate inner={inner}', thunk)


def p_translate(ob):
    d0 = vec('d')
    for inner in (True, False):
        for to in (True, False):
            if to and not inner:
                continue
            for as_list in (True, False):
                def thunk():
                    m = lib()
                    s, b = any_shape(m, 0, inner)
                    v = list(d0) if as_list else arr_in('disp', 3)
                    d = displacement(v)
                    s.translate(v, to)
                    return holds(s, [x.moved(EYE, d) for x in b], to, LM) + \
                        [('frame', True if as_list else untouched(v))]
                ob.paths(f'translate inner={inner} to_inner={to}', thunk)


def p_refuse(ob):
    def outin():
        m = lib()
        s, b = any_shape(m, 0, False)
        st = state(s)
        try:
            s.translate(vec('d'), True)
        except ValueError:
            return [('unchanged', state(s) == st)]
        return [('refused', False)]
    ob.paths('outer to inner', outin)
    for kinds in ((True, False), (False, True), (True, True, False), (False, False, True), (True, False, True)):
        def mixed():
            m = lib()
            sh = [any_shape(m, k, i)[0] for k, i in enumerate(kinds)]
            st = [state(s) for s in sh]
            try:
                sh[0].add(sh[1:] if len(sh) > 2 else sh[1])
            except TypeError:
                return [('unchanged', [state(s) for s in sh] == st)]
            return [('refused', False)]
        ob.paths('mixed sum', mixed)
    for bad in (3, None, 'x', (1, 2)):
        def other():
            m = lib()
            s, b = any_shape(m, 0, True)
            st = state(s)
            try:
                s.add(bad)
            except TypeError:
                return [('unchanged', state(s) == st)]
            return [('refused', False)]
        ob.paths('sum with something else', other)


def p_add(ob):
    sums(ob, ((2, False),))


def p_add_list(ob):
    sums(ob, ((1, True), (2, True), (3, True)))


def sums(ob, cases):
    for inner in (True, False):
        for n, as_list in cases:
            def thunk():
                m = lib()
                Ls = nat(*(f'lmax{k}' for k in range(n)))
                sb = [any_shape(m, k, inner, Ls[k]) for k in range(n)]
                sh = [s for s, _ in sb]
                st = [state(s) for s in sh[1:]]
                sh[0].add(sh[1] if not as_list else sh[1:])
                top = Ls[0]
                for v in Ls[1:]:
                    if CTX.decide(lt(top, v)):
                        top = v
                return holds(sh[0], sum((b for _, b in sb), []), inner, top) + [('frame', [state(s) for s in sh[1:]] == st), ('fresh', separate(sh))]
            ob.paths(f'add {n} shapes inner={inner}', thunk)


# ------------------------------------------------------------ constructors
H, RI, RO, DD, RR, XX, YY, ZZ = pos('H', 'Ri', 'Ro', 'd', 'R', 'x', 'y', 'z')
PHC, Y1, Y2, TH = reals('phic', 'y1', 'y2', 'theta')
PHH, = pos('phih')
NS, = [E.sym('sides', 'posint')]
MASS, = reals('mass')
CEN = displacement(arr_in('cen', 3))


def S_(name, *a):
    mass, com = SOLID[name](*[to_ex(v) for v in a])
    return Solid((name,)+tuple(to_ex(v).key() for v in a[1:]), mass, com)


def at(s, d):
    return s.moved(EYE, d)


# class, inner -> arguments after the mass, documented body, preconditions
def made():
    rho = MASS/(PHH*(RO*RO-RI*RI)*H)
    return [
        ('Annulus', True, (H, RI, RO, PHC, PHH), [S_('qlm.annulus', MASS, H, RI, RO, PHC, PHH)], [lt(RI, RO)]),
        ('Annulus', False, (H, RI, RO, PHC, PHH), [S_('bigQlm.annulus', rho, h, RI, RO, PHC, PHH) for h in (H/2, -H/2)], [lt(RI, RO)]),
        ('RectPrism', True, (H, XX, YY, PHC), [S_('qlm.rect_prism', MASS, H, XX, YY, PHC)], []),
        ('TriPrism', True, (H, DD, Y1, Y2), [S_('qlm.tri_prism', MASS, H, DD, Y1, Y2)], []),
        ('Cone', True, (H, RR, PHC, PHH), [S_('qlm.cone', MASS, H, RR, PHC, PHH)], []),
        ('Sphere', True, (RR, CEN), [at(S_('qlm.sphere', MASS, RR), CEN)], []),
        ('Sphere', False, (RR, CEN), [S_('bigQlm.sphere', MASS*3/(4*E.PI*RR**3), RR, *CEN)], []),
        ('NGon', True, (H, XX, PHC, NS), [S_('qlm.ngon_prism', MASS, H, XX, PHC, NS)], []),
        ('Tetrahedron', True, (XX, Y1, Y2, ZZ), [S_('qlm.tetrahedron2', MASS, XX, Y1, Y2, ZZ)], []),
        ('Pyramid', True, (XX, YY, ZZ), [S_('qlm.pyramid', MASS, XX, YY, ZZ)], []),
        ('OuterCone', False, (H, RI, RO, PHH), [S_('bigQlmNum.outer_cone', MASS/frustum_mass(H, RI, RO, PHH), H, RI, RO, PHH)], [lt(RI, RO)]),
        ('Cylhole', True, (RI, RO), [S_('qlmNum.steinmetz', MASS/VOL('steinmetz', RI, RO), RI, RO)], [le(RI, RO)]),
        ('Platehole', True, (H, RR, TH), [S_('qlmNum.platehole', MASS/(E.PI*RR*RR*H/E.cos(TH)), H, RR, TH)], [lt(0, E.cos(TH))]),
    ]


def p_make(ob):
    for cls, inner, args, body, pre in made():
        for arr in ((False, True) if cls == 'Sphere' else (False,)):
            def thunk():
                m = lib()
                cen = arr_in('cen', 3)
                a = tuple(cen if v is CEN and arr else v for v in args)
                head = (10,) if cls == 'Platehole' else ()
                s = getattr(m, cls)(*head, LM, inner, MASS, *a)
                return holds(s, body, inner, LM) + [('frame', all(untouched(v) for v in a if isinstance(v, A.SArr)))]
            ob.paths(f'{cls} inner={inner}', thunk, pre=pre)



# ------------------------------------------------------------------ runtime
class NoCad:
    """CAD stand-in for the run-time contract"""
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: NoCad()


def shapes():
    m = real('shapes')
    m.gcad = NoCad()
    return m


def com_num(p):
    return np.sum(p[:, :1]*p[:, 1:], 0)/np.sum(p[:, 0])


# class, inner -> draw: arguments after the mass, quadrature points of the documented body
def draws(g):
    U = lambda lo=.3, hi=2.: dim(g, lo, hi)/CASE["scale"]
    ri, ro = sorted((U(), U()))
    ro += .1
    h, r, x, y, z = U(), U(), U(), U(), U()
    pc, ph = g.uniform(-3, 3), g.choice([g.uniform(.2, 3), math.pi, math.pi/2])
    y1, y2 = sorted((g.uniform(-2, 2), g.uniform(-2, 2)))
    y2 += .1
    n = g.randint(3, 8)
    ap, circ = x/2/math.tan(math.pi/n), x/2/math.sin(math.pi/n)
    poly = [(circ*math.cos(pc+(2*k+1)*math.pi/n), circ*math.sin(pc+(2*k+1)*math.pi/n)) for k in range(n)]
    c = np.array(rvec(g, 3.))
    c += 2*np.sign(c)
    cen = g.choice([c, list(c)])
    ball = np.array([[1., *c]])
    th = g.uniform(-1.2, 1.2)
    return {
        ('Annulus', True): ((h, g.choice([0., ri]), ro, pc, ph), lambda a: N.sector(-h/2, h/2, a[1], ro, pc, ph)),
        ('Annulus', False): ((h, ri, ro, pc, ph), lambda a: N.sector(-h/2, h/2, ri, ro, pc, ph, 40)),
        ('RectPrism', True): ((h, x, y, pc), lambda a: N.move(N.box(x, y, h), R=N.rotz(pc))),
        ('TriPrism', True): ((h, x, y1, y2), lambda a: N.tri_prism(h, (0, 0), (x, y1), (x, y2))),
        ('Cone', True): ((h, r, pc, ph), lambda a: N.frustum(0, h, r, 0, pc, ph)),
        ('Sphere', True): ((r, cen), lambda a: ball),
        ('Sphere', False): ((r, cen), lambda a: ball),
        ('NGon', True): ((h, x, pc, n), lambda a: N.polygon_prism(h, poly)),
        ('Tetrahedron', True): ((x, y1, y2, z), lambda a: N.simplex([(x, y1, 0), (x, y2, 0), (0, 0, 0), (0, 0, z)])),
        ('Pyramid', True): ((x, y, z), lambda a: N.pyramid(x, y, z)),
        ('OuterCone', False): ((h, ri, ro, ph), lambda a: ring_cone(h, ri, ro, ph)),
        ('Cylhole', True): ((ri, ro), lambda a: N.steinmetz(ri, ro)),
        # hole along z through a plate tilted by theta
        ('Platehole', True): ((h, r, th), lambda a: tilted(h, r, th)),
    }


def ring_cone(h, a, b, ph, n=40):
    r, wr = N._gl(a, b, n)
    p, wp = N._gl(-ph, ph, n)
    s, ws = N._gl(0, 1, n)
    R, P, S_ = np.meshgrid(r, p, s, indexing='ij')
    top = h*(b-R)/(b-a)
    w = (wr[:, None, None]*wp[None, :, None]*ws[None, None, :])*R*top
    return N._pts(w, R*np.cos(P), R*np.sin(P), S_*top)


def tilted(t, r, th, n=16):
    rr, wr = N._gl(0, r, n)
    p = np.arange(40)*2*np.pi/40
    s, ws = N._gl(-.5, .5, n)
    R, P, S_ = np.meshgrid(rr, p, s, indexing='ij')
    h = t/math.cos(th)
    w = (wr[:, None, None]*np.ones(40)[None, :, None]*ws[None, None, :])*R*h
    X = R*np.cos(P)
    return N._pts(w, X, R*np.sin(P), X*math.tan(th)+S_*h)


SLOW = ('OuterCone', 'Cylhole', 'Platehole')


def build(m, g, cls, inner, Lx, mass):
    args, pts = draws(g)[(cls, inner)]
    head = (10,) if cls == 'Platehole' else ()
    from .. import quadc as K
    import contextlib as cl
    with cl.ExitStack() as st:
        if cls in SLOW:
            for mod in ('qlmNum', 'bigQlmNum'):
                st.enter_context(K.patched(real(mod)))
        s = getattr(m, cls)(*head, Lx, inner, mass, *args)
    return s, N.scale_to_mass(pts(args), mass), args


def rt_make(rng, n, hints):
    m = shapes()
    keys = list(draws(rng))
    for i in range(max(n, len(keys))):
        cls, inner = keys[i % len(keys)]
        Lx = rng.randint(0, 3 if cls in SLOW else 5)
        mass = rng.choice([rng.uniform(.1, 9), -rng.uniform(.1, 9)])
        st, r = attempt(build, m, rng, cls, inner, Lx, mass)
        key = f'{cls} inner={inner}'
        if st == 'raise':
            yield Case(key, (Lx, mass), False, f'raises {r!r}')
            continue
        s, p, args = r
        w = (N.inner if inner else N.outer)(Lx, p)
        rad = np.max(np.linalg.norm(p[:, 1:], axis=1)) if inner else 1/np.min(np.linalg.norm(p[:, 1:], axis=1))
        ok, d = judge(s, w, inner, Lx, mass, com_num(p), rad, 2e-4 if not inner and cls != 'Sphere' else 1e-6)
        yield Case(key, (Lx, mass, args), ok, d)


def judge(s, w, inner, Lx, mass, com, rad, tol=1e-6, upto=None):
    """state of s against moments w, mass and centre"""
    if bool(s.inner) != inner or s.lmax != Lx:
        return False, f'inner={s.inner} lmax={s.lmax}'
    q = np.asarray(s.qlm)
    if q.shape != (Lx+1, 2*Lx+1):
        return False, f'shape of the moments {q.shape}'
    if abs(s.mass-mass) > 1e-9*abs(mass):
        return False, f'mass {s.mass} for {mass}'
    size = max(1., np.max(np.abs(com)))
    if np.shape(s.com) != (3,) or np.max(np.abs(s.com-com)) > 1e-8*size:
        return False, f'centre of mass {s.com} for {com}'
    for l in range(Lx+1 if upto is None else min(Lx, upto)+1):
        sc = (np.max(np.abs(w[l]))+abs(mass)*rad**(l+(0 if inner else 1)))
        d = np.max(np.abs(q[l]-w[l]))
        if not d <= tol*sc:
            return False, f'degree {l}: {q[l]} for {w[l]}'
    return True, ''


def rt_history(rng, n, hints):
    """sequences of operations against the moved point masses"""
    m = shapes()
    fast = [k for k in draws(rng) if k[0] not in SLOW and k[1]]
    for i in range(n):
        Lx = rng.randint(1, 5)
        pool, log = [], []
        try:
            for k in range(rng.randint(1, 3)):
                cls, _ = rng.choice(fast)
                L1 = Lx if k == 0 else rng.randint(0, 5)
                s, p, args = build(m, rng, cls, True, L1, rng.uniform(.5, 3)*rng.choice([1, 1, 1, -.3]))
                log.append((cls, L1, args))
                pool.append([s, [(L1, p)]])
            outer = False
            bad = None
            for step in range(rng.randint(1, 5)):
                op = rng.choice(['rotate', 'rotate', 'translate', 'add', 'refused'])
                e = rng.choice(pool)
                if op == 'rotate':
                    a = [rng.uniform(-7, 7) for _ in range(3)]
                    e[0].rotate(*a)
                    e[1] = [(L1, N.move(p, R=N.euler(*a))) for L1, p in e[1]]
                elif op == 'translate':
                    a = np.array(rvec(rng, 1.5))
                    if rng.random() < .2:
                        a[:2] = 0
                    e[0].translate(rng.choice([a, list(a)]), True)
                    e[1] = [(L1, N.move(p, t=a)) for L1, p in e[1]]
                elif op == 'add' and len(pool) > 1:
                    a = None
                    rest = [x for x in pool if x is not e]
                    others = [rest[0]] if rng.random() < .5 else rest
                    arg = [x[0] for x in others]
                    keep = [(x[0].qlm.copy(), np.array(x[0].com), x[0].mass) for x in others]
                    e[0].add(arg[0] if len(arg) == 1 and rng.random() < .5 else arg)
                    for x, (q, c, mm_) in zip(others, keep):
                        if not (np.array_equal(x[0].qlm, q) and np.array_equal(x[0].com, c) and x[0].mass == mm_):
                            bad = 'an added shape changed'
                    e[1] = e[1]+sum((x[1] for x in others), [])
                else:
                    a = None
                    other = m.Shape(1, False)
                    q, c = e[0].qlm.copy(), np.array(e[0].com)
                    try:
                        e[0].add(other)
                        bad = 'mixed sum accepted'
                    except TypeError:
                        pass
                    if not (np.array_equal(e[0].qlm, q) and np.array_equal(e[0].com, c)):
                        bad = 'refused sum changed the shape'
                log.append((op, a))
            for s, body in pool:
                Lt = max(L1 for L1, _ in body)
                w = np.zeros([Lt+1, 2*Lt+1], complex)
                for L1, p in body:
                    w[:L1+1, Lt-L1:Lt+L1+1] += N.inner(L1, p)
                p = np.concatenate([p for _, p in body])
                M = np.sum(p[:, 0])
                if abs(M) < .05*np.sum(np.abs(p[:, 0])):
                    continue
                ok, d = judge(s, w, True, Lt, M, com_num(p), np.max(np.linalg.norm(p[:, 1:], axis=1)), upto=min(L1 for L1, _ in body))
                if not ok:
                    bad = d
            yield Case('history', log, bad is None, bad or '')
        except Exception as e_:
            yield Case('history', log, False, f'raises {e_!r}')


def rt_outer(rng, n, hints):
    """inner to outer, then outer operations (small far bodies: the series converge)"""
    m = shapes()
    for i in range(n):
        Lx = 6
        R, c = rng.uniform(.02, .05), np.array(rvec(rng, .05))
        mass = rng.uniform(.5, 3)
        args = (mass, R, c)
        log = [args]
        try:
            s = m.Sphere(Lx, True, *args)
            p = np.array([[mass, *c]])
            a = [rng.uniform(-7, 7) for _ in range(3)]
            s.rotate(*a)
            p = N.move(p, R=N.euler(*a))
            d = np.array(rvec(rng, 1.))
            d *= rng.uniform(6, 9)/np.linalg.norm(d)
            s.translate(d, False)
            p = N.move(p, t=d)
            log += [a, d]
            bad = None
            for step in range(rng.randint(1, 4)):
                op = rng.choice(['rotate', 'translate', 'refused', 'add'])
                a = [rng.uniform(-7, 7) for _ in range(3)]
                if op == 'rotate':
                    s.rotate(*a)
                    p = N.move(p, R=N.euler(*a))
                elif op == 'translate':
                    a = np.array(rvec(rng, .03))
                    s.translate(a, False)
                    p = N.move(p, t=a)
                elif op == 'add':
                    c2 = np.array(rvec(rng, 1.))
                    c2 *= rng.uniform(6, 9)/np.linalg.norm(c2)
                    s.add(m.Sphere(Lx, False, 1., .1, c2))
                    p = np.concatenate([p, [[1., *c2]]])
                    a = c2
                else:
                    st = s.qlm.copy(), np.array(s.com), s.inner
                    try:
                        s.translate(np.array([1., 2, 3]), True)
                        bad = 'outer to inner accepted'
                    except ValueError:
                        pass
                    if not (np.array_equal(st[0], s.qlm) and np.array_equal(st[1], s.com) and s.inner == st[2]):
                        bad = 'refused translation changed the shape'
                log.append((op, a))
            M = np.sum(p[:, 0])
            ok, d_ = judge(s, N.outer(Lx, p), False, Lx, M, com_num(p), 1/5.5, 1e-4, 3)
            yield Case('outer history', log, ok and bad is None, bad or d_)
        except Exception as e_:
            yield Case('outer history', log, False, f'raises {e_!r}')


UNITS = [
    Unit('rotate', ['shapes.Shape.rotate'], [('all states and angles', p_rotate)], rt_history, n=10,
         clauses='moments, mass, centre of mass of the rotated body; inner and outer'),
    Unit('translate', ['shapes.Shape.translate'], [('all states and displacements', p_translate)], rt_outer, n=10,
         clauses='moments, mass, centre of the moved body; the kind of moments changes as asked; frame'),
    Unit('refusals', ['shapes.Shape.translate', 'shapes.Shape.add'], [('all states', p_refuse)], rt_outer, n=6,
         clauses='outer to inner and mixed sums refused, nothing changed'),
    Unit('add', ['shapes.Shape.add'], [('all states, one shape added', p_add)], rt_history, n=10,
         clauses='moments, mass, centre of the union; the added shape unchanged and not shared'),
    Unit('add list', ['shapes.Shape.add'], [('bounded: all states, lists of up to two shapes', p_add_list)], rt_history, n=6, budget=250,
         clauses='moments, mass, centre of the union; added shapes unchanged and not shared'),
    Unit('constructors', ['shapes.'+c for c in sorted({c[0] for c in made()})], [('all dimensions', p_make)], rt_make, n=26,
         clauses='class invariant for the documented body, the mass given and its centre of mass'),
]
