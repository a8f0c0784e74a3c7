"""C18: dimensions outside the documented domain are rejected, everything
inside is accepted

Every argument is an unconstrained real.  For each documented limit, every
path of the source with that limit violated (and the other arguments
arbitrary) must raise ValueError; with no limit violated no path raises."""
from .common import *

L, = nat('L')
PI = E.PI


def le0(*ix):
    return {f'{i}<=0': (lambda v, i=i: le(v[i], 0)) for i in ix}


def span(i):
    return {'span<=0': lambda v: le(v[i], 0), 'span>pi': lambda v: lt(PI, v[i])}


def same(i, j):
    return {'degenerate edge': lambda v: eq(v[i], v[j])}


def zero(i):
    return {'zero depth': lambda v: eq(v[i], 0)}


def neg(*ix):
    return {f'{i}<0': (lambda v, i=i: lt(v[i], 0)) for i in ix}


def cond(name, f):
    return {name: f}


# (module, function): (number of leading free arguments after L, number of
# dimensions, limits, integer dimension)
FN = {
    ('qlm', 'sphere'): (1, 1, le0(0)),
    ('qlm', 'cylinder'): (1, 2, le0(0, 1)),
    ('qlm', 'annulus'): (1, 5, le0(0) | neg(1) | span(4) | cond('outer<=inner', lambda v: le(v[2], v[1]))),
    ('qlm', 'cone'): (1, 4, le0(0, 1) | span(3)),
    ('qlm', 'tri_iso_prism'): (1, 4, le0(0, 1) | zero(2)),
    ('qlm', 'tri_iso_prism2'): (1, 4, le0(0, 1) | {'span<=0': lambda v: le(v[3], 0), 'span>pi/2': lambda v: lt(PI/2, v[3])}),
    ('qlm', 'tri_prism'): (1, 4, le0(0) | zero(1) | same(2, 3)),
    ('qlm', 'rect_prism'): (1, 4, le0(0, 1, 2)),
    ('qlm', 'ngon_prism'): (1, 4, le0(0, 1) | cond('sides<3', lambda v: lt(v[3], 3))),
    ('qlm', 'tetrahedron'): (1, 3, le0(0, 1, 2)),
    ('qlm', 'tetrahedron2'): (1, 4, le0(0, 3) | same(1, 2)),
    ('qlm', 'pyramid'): (1, 3, le0(0, 1, 2)),
    ('qlmACH', 'rect_prism'): (1, 3, le0(0, 1, 2)),
    ('qlmACH', 'annulus'): (1, 5, le0(0) | neg(1) | span(4) | cond('outer<=inner', lambda v: le(v[2], v[1]))),
    ('qlmACH', 'cone'): (1, 3, le0(0) | neg(1, 2) | cond('both radii zero', lambda v: C.c_and(eq(v[1], 0), eq(v[2], 0)))),
    ('qlmACH', 'cone2'): (1, 3, le0(0) | neg(1, 2) | cond('both radii zero', lambda v: C.c_and(eq(v[1], 0), eq(v[2], 0)))),
    ('qlmACH', 'tri_prism'): (1, 4, le0(0) | zero(1) | same(2, 3)),
    ('qlmACH', 'trapezoid'): (1, 4, le0(0, 3) | neg(1, 2) | cond('both widths zero', lambda v: C.c_and(eq(v[1], 0), eq(v[2], 0)))),
    ('qlmACH', 'cylindrical_section'): (1, 3, le0(0, 2) | cond('plane outside', lambda v: le(v[1], v[2]))),
    ('qlmACH', 'tetrahedron'): (1, 3, le0(0, 1, 2)),
    ('qlmACH', 'cylhole'): (1, 2, le0(0) | cond('hole wider', lambda v: lt(v[1], v[0]))),
    ('qlmACH', 'cylhole2'): (1, 2, le0(0) | cond('hole wider', lambda v: lt(v[1], v[0]))),
    ('qlmACH', 'platehole'): (1, 3, le0(0, 1) | {'tilt<=-pi/2': lambda v: le(v[2], -PI/2), 'tilt>=pi/2': lambda v: le(PI/2, v[2])}),
    ('qlmACH', 'pyramid'): (1, 3, le0(0, 1, 2)),
    ('bigQlm', 'sphere'): (1, 4, le0(0) | cond('at the origin', lambda v: C.c_and(eq(v[1], 0), C.c_and(eq(v[2], 0), eq(v[3], 0))))),
    ('bigQlm', 'annulus'): (1, 5, zero(0) | le0(1) | span(4) | cond('outer<inner', lambda v: lt(v[2], v[1]))),
}
# inside but not promised: the triangle of half angle exactly pi/2
EXTRA = {('qlm', 'tri_iso_prism2'): lambda v: ne(v[3], PI/2)}


def dims(key):
    n = FN[key][1]
    v = [E.sym(f'd{i}', 'real') for i in range(n)]
    if key == ('qlm', 'ngon_prism'):
        v[3] = E.sym('sides', 'int')
    return v


def proof(key):
    def run(ob):
        mod, fn = key
        f = getattr(src(mod), fn)
        v = dims(key)
        mass = E.sym('mass', 'real')
        for name, c in FN[key][2].items():
            ob.paths(f'{fn} rejects {name}', lambda: f(L, mass, *v), pre=[c(v)], want=ValueError)
        pre = [C.c_not(c(v)) for c in FN[key][2].values()]
        if key in EXTRA:
            pre.append(EXTRA[key](v))

        def call():
            f(L, mass, *v)
            return True
        ob.paths(f'{fn} accepts the rest', call, pre=pre)
    return run


# -------------------------------------------------------------------- runtime
def U(g):
    return math.exp(g.uniform(-3, 3))


def S_(g):
    return U(g)*g.choice([1, -1])


def spn(g, top=math.pi):
    return g.choice([top, top*g.random() or 1., 1e-6, math.nextafter(top, 0)])


def two(g):
    a = U(g)
    return a, a*g.choice([1+g.random(), 1.000001, 20.])


def G_ann(g):
    a, b = two(g)
    return [U(g), g.choice([0., a]), b, g.uniform(-9, 9), spn(g)]


def G_cones(g):
    a, b = U(g), U(g)
    return [U(g)]+g.choice([[a, b], [0., b], [a, 0.], [a, a]])


def G_seg(g):
    a, b = two(g)
    return [U(g), b, a]


def G_hole(g):
    a, b = two(g)
    return [a, g.choice([a, b])]


def edge(g):
    a = g.uniform(-2, 2)
    return [a, g.choice([a+g.random()+1e-3, 0. if abs(a) > .1 else 1., a*2+1])]


def tilt(g):
    return g.choice([0., g.uniform(-1.5, 1.5), 1.5707, -1.5707])


def p3(g):
    return [U(g), U(g), U(g)]


def plus(*fs):
    return lambda g: [x for f in fs for x in (f(g) if isinstance(f(g), list) else [f(g)])]


GEN = {
    ('qlm', 'sphere'): lambda g: [U(g)],
    ('qlm', 'cylinder'): lambda g: [U(g), U(g)],
    ('qlm', 'annulus'): G_ann,
    ('qlm', 'cone'): lambda g: [U(g), U(g), g.uniform(-9, 9), spn(g)],
    ('qlm', 'tri_iso_prism'): lambda g: [U(g), U(g), S_(g), g.uniform(-9, 9)],
    ('qlm', 'tri_iso_prism2'): lambda g: [U(g), U(g), g.uniform(-9, 9), spn(g, 1.5707)],
    ('qlm', 'tri_prism'): lambda g: [U(g), S_(g)]+edge(g),
    ('qlm', 'rect_prism'): lambda g: p3(g)+[g.uniform(-9, 9)],
    ('qlm', 'ngon_prism'): lambda g: [U(g), U(g), g.uniform(-9, 9), g.randint(3, 12)],
    ('qlm', 'tetrahedron'): p3,
    ('qlm', 'tetrahedron2'): lambda g: [U(g)]+edge(g)+[U(g)],
    ('qlm', 'pyramid'): p3,
    ('qlmACH', 'rect_prism'): p3,
    ('qlmACH', 'annulus'): G_ann,
    ('qlmACH', 'cone'): G_cones,
    ('qlmACH', 'cone2'): G_cones,
    ('qlmACH', 'tri_prism'): lambda g: [U(g), S_(g)]+edge(g),
    ('qlmACH', 'trapezoid'): lambda g: G_cones(g)+[U(g)],
    ('qlmACH', 'cylindrical_section'): G_seg,
    ('qlmACH', 'tetrahedron'): p3,
    ('qlmACH', 'cylhole'): G_hole,
    ('qlmACH', 'cylhole2'): G_hole,
    ('qlmACH', 'platehole'): lambda g: [U(g), U(g), tilt(g)],
    ('qlmACH', 'pyramid'): p3,
    ('bigQlm', 'sphere'): lambda g: [U(g)]+g.choice([[S_(g), S_(g), S_(g)], [0., 0., S_(g)], [S_(g), 0., 0.]]),
    ('bigQlm', 'annulus'): lambda g: [S_(g)]+list(two(g))+[g.uniform(-9, 9), spn(g)],
}


def low(g, i):
    def f(v):
        v = list(v)
        v[i] = g.choice([0., -0., -1e-12, -U(g), -v[i] if v[i] > 0 else -1.])
        return v
    return f


def put(**kw):
    def f(v):
        v = list(v)
        for k, x in kw.items():
            v[int(k[1:])] = x(v) if callable(x) else x
        return v
    return f


def bad(g, key):
    """one violation of every documented limit of this function"""
    up = lambda x: math.nextafter(x, 9e9)
    big = lambda a: a+g.choice([1e-9*abs(a), U(g)])
    for name in FN[key][2]:
        if name.endswith('<=0') and name[0].isdigit():
            yield name, low(g, int(name[:-3]))
        elif name.endswith('<0') and name[0].isdigit():
            yield name, put(**{'i'+name[:-2]: g.choice([-1e-12, -U(g)])})
        elif name == 'span<=0':
            i = {'annulus': 4, 'cone': 3, 'tri_iso_prism2': 3}[key[1]]
            yield name, put(**{f'i{i}': g.choice([0., -1e-12, -1., -math.pi])})
        elif name == 'span>pi':
            i = {'annulus': 4, 'cone': 3}[key[1]]
            yield name, put(**{f'i{i}': g.choice([up(math.pi), 3.2, 2*math.pi, 50.])})
        elif name == 'span>pi/2':
            yield name, put(i3=g.choice([up(math.pi/2), 1.6, math.pi, 2*math.pi, 50.]))
        elif name == 'zero depth':
            yield name, put(**{f'i{ {"tri_iso_prism": 2, "tri_prism": 1, "annulus": 0}[key[1]]}': g.choice([0., -0.])})
        elif name == 'degenerate edge':
            i, j = (1, 2) if key[1] == 'tetrahedron2' else (2, 3)
            yield name, put(**{f'i{j}': lambda v: v[i]})
            yield name+' at 0', put(**{f'i{i}': 0., f'i{j}': 0.})
        elif name == 'outer<=inner':
            yield name, put(i1=lambda v: g.choice([v[2], big(v[2])]))
        elif name == 'outer<inner':
            yield name, put(i1=lambda v: big(v[2]))
        elif name == 'sides<3':
            yield name, put(i3=g.choice([2, 1, 0, -1, -4]))
        elif name in ('both radii zero', 'both widths zero'):
            yield name, put(i1=0., i2=0.)
        elif name == 'plane outside':
            yield name, put(i2=lambda v: g.choice([v[1], big(v[1])]))
        elif name == 'hole wider':
            yield name, put(i0=lambda v: big(v[1]))
        elif name == 'tilt<=-pi/2':
            yield name, put(i2=g.choice([-math.pi/2, -2., -math.pi]))
        elif name == 'tilt>=pi/2':
            yield name, put(i2=g.choice([math.pi/2, 2., math.pi]))
        elif name == 'at the origin':
            yield name, put(i1=0., i2=0., i3=0.)
        else:
            raise KeyError(name)


def runtime(key):
    def run(rng, n, hints):
        f = getattr(real(key[0]), key[1])
        for i in range(n):
            v = GEN[key](rng)
            Lx = rng.randint(0, 7)
            mass = S_(rng)
            st, r = attempt(f, Lx, mass, *v)
            ok = st == 'ok' and np.shape(r) == (Lx+1, 2*Lx+1) and bool(np.all(np.isfinite(r)))
            yield Case(f'{key[1]} accepts', (Lx, mass, v), ok, f'{st}: {r!r}'[:300])
            for name, mut in bad(rng, key):
                w = mut(v)
                yield rej_case(f'{key[1]} rejects {name}', (Lx, mass, w), f, (Lx, mass, *w))
    return run


UNITS = [Unit('.'.join(k), ['.'.join(k)], [('all arguments, every L', proof(k))], runtime(k), n=40, budget=300,
              clauses='ValueError on every path outside each documented limit; no exception inside') for k in FN]
