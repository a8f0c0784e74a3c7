"""C02: action-reaction, superposition and covariance of point-mass forces.
The lemmas are stated over the two real interaction functions, with nothing
assumed about what they call."""
from .common import *
from . import c01

M1, M2, N1 = nat('M1', 'M2', 'N1')
AL, LM = c01.AL, c01.LM
ANG = [E.angle(n) for n in ('a1', 'a2', 'a3')]
D = reals('dx', 'dy', 'dz')


def fn_of(yuk):
    f = src('glib')
    if yuk:
        return lambda a, b: f.point_matrix_yukawa(a, b, AL, LM)
    return f.point_matrix_gravity


def zero3(label, v):
    return [(f'{label} {j}', S.prove_zero(to_ex(v(j)))) for j in range(3)]


def diff(label, x, y, sg=-1):
    """obligations F, T of x plus sg times those of y vanish"""
    out = []
    for nm, u, w in zip(('force', 'torque'), x, y):
        out += zero3(f'{label} {nm}', lambda j: u.read([j])+sg*to_ex(w.read([j])))
    return out


def add(x, y):
    return [A.asarr([to_ex(u.read([j]))+w.read([j]) for j in range(3)]) for u, w in zip(x, y)]


def p_reaction(yuk):
    def run(ob):
        f = fn_of(yuk)
        for o1 in (False, True):
            for o2 in (False, True):
                def thunk():
                    a, b = c01.mk('a', o1, M1), c01.mk('b', o2, N1)
                    return diff('', f(a, b), f(b, a), 1)
                ob.paths(f'reaction {o1}{o2}', thunk)
    return run


def cat(a, b):
    return shim.concatenate([a, b])


def p_super(yuk):
    def run(ob):
        f = fn_of(yuk)

        def first():
            a, c, b = arr_in('a', M1, 4), arr_in('c', M2, 4), arr_in('b', N1, 4)
            w = add(f(a, b), f(c, b))
            return diff('joined', f(cat(a, c), b), w)+diff('reordered', f(cat(c, a), b), w)

        def second():
            a, c, b = arr_in('a', M1, 4), arr_in('c', M2, 4), arr_in('b', N1, 4)
            w = add(f(b, a), f(b, c))
            return diff('joined', f(b, cat(a, c)), w)+diff('reordered', f(b, cat(c, a)), w)
        ob.paths('first set', first)
        ob.paths('second set', second)
    return run


def moved(a, tr):
    rd = a.snap()

    def base(q):
        j = A.con(to_ex(q[1]))
        if not isinstance(j, int):
            raise E.Unsupported('symbolic column')
        if j == 0:
            return rd([q[0], 0])
        return tr([rd([q[0], k]) for k in (1, 2, 3)])[j-1]
    return A.SArr(a.shape, base, 'f')


def rot(p):
    c = [E.cos(x) for x in ANG]
    s = [E.sin(x) for x in ANG]
    p = [c[2]*p[0]-s[2]*p[1], s[2]*p[0]+c[2]*p[1], p[2]]
    p = [c[1]*p[0]+s[1]*p[2], p[1], -s[1]*p[0]+c[1]*p[2]]
    return [c[0]*p[0]-s[0]*p[1], s[0]*p[0]+c[0]*p[1], p[2]]


def p_motion(yuk):
    def run(ob):
        f = fn_of(yuk)

        def turn():
            a, b = arr_in('a', M1, 4), arr_in('b', N1, 4)
            F0, T0 = f(a, b)
            w = [A.asarr(rot([to_ex(v.read([j])) for j in range(3)])) for v in (F0, T0)]
            return diff('rotated', f(moved(a, rot), moved(b, rot)), w)

        def shift():
            a, b = arr_in('a', M1, 4), arr_in('b', N1, 4)
            F0, T0 = f(a, b)
            g = [to_ex(F0.read([j])) for j in range(3)]
            dxf = [D[1]*g[2]-D[2]*g[1], D[2]*g[0]-D[0]*g[2], D[0]*g[1]-D[1]*g[0]]
            w = [F0, A.asarr([to_ex(T0.read([j]))+dxf[j] for j in range(3)])]
            t = lambda p: [u+v for u, v in zip(p, D)]
            return diff('translated', f(moved(a, t), moved(b, t)), w)
        ob.paths('rotation', turn)
        ob.paths('translation', shift)
    return run


def p_scale(yuk):
    c, = reals('c')

    def sc(a):
        rd = a.snap()
        return A.SArr(a.shape, lambda q: rd(q)*c if CTX.decide(eq(q[1], 0)) else rd(q), 'f')

    def run(ob):
        f = fn_of(yuk)
        for k in (0, 1):
            def thunk():
                a, b = arr_in('a', M1, 4), arr_in('b', N1, 4)
                w = [A.asarr([to_ex(v.read([j]))*c for j in range(3)]) for v in f(a, b)]
                return diff('scaled', f(sc(a), b) if k == 0 else f(a, sc(b)), w)
            ob.paths(f'scaling set {k}', thunk)
    return run


def sizes(a, b, al=None, lm=None):
    d = np.linalg.norm(a[:, None, 1:4]-b[None, :, 1:4], axis=2)
    k = c01.GF*np.abs(a[:, None, 0]*b[None, :, 0])/d**2
    if al is not None:
        k = k*abs(al)*np.exp(-d/lm)*(1+d/lm)
    return np.sum(k)


def rt(yuk):
    fn = 'point_matrix_yukawa' if yuk else 'point_matrix_gravity'

    def run(rng, n, hints):
        g = getattr(real('glib'), fn)
        for i in range(n):
            s = rng.choice([.05, 1, 30.])
            a = cloud(rng, rng.choice([1, 1, 2, 3, 8]), s)
            b = cloud(rng, rng.choice([1, 2, 3, 5, 20]), s, rng.choice([(0, 0, 0), (4*s, 0, 0)]))
            if i % 5 == 4:
                a[0, 0] = 0.
            if i % 6 == 2:
                b[:, 1:3] = a[0, 1:3]     # stacked along one axis
            al, lm = rng.choice([1., -.3, 2.5]), s*rng.choice([.2, 1., 8.])
            ex = (al, lm) if yuk else ()
            f = lambda x, y: attempt(g, x, y, *ex)
            R, t = N.euler(*rvec(rng)), np.array(rvec(rng, s))
            st, r0 = f(a, b)
            if st == 'raise':
                yield Case(fn, (a.tolist(), b.tolist(), ex), False, repr(r0))
                continue
            F0, T0 = map(np.array, r0)
            sz = sizes(a, b, *(ex or (None, None)))
            arm = np.max(np.abs(np.vstack([a, b])[:, 1:4]))+np.max(np.abs(t))
            sc = (sz, sz*arm)
            key = (a.tolist(), b.tolist(), ex)
            yield both('reaction', key, f(b, a), (-F0, -T0), sc)
            for nm, x, swap in (('first', a, False), ('second', b, True)):
                k = rng.randint(0, len(x))
                o = b if not swap else a
                h = (lambda p: f(p, o)) if not swap else (lambda p: f(o, p))
                tot = [np.zeros(3), np.zeros(3)]
                bad = None
                for part in (x[:k], x[k:]):
                    if len(part):
                        st, r = h(part if len(part) > 1 or rng.random() < .5 else part[0])
                        if st == 'raise':
                            bad = r
                            break
                        tot = [tot[0]+r[0], tot[1]+r[1]]
                if bad is not None:
                    yield Case('superposition '+nm, key, False, repr(bad))
                else:
                    yield both('superposition '+nm, key, ('ok', tot), (F0, T0), sc)
                yield both('permutation '+nm, key, h(x[rng.sample(range(len(x)), len(x))]), (F0, T0), sc)
                y = x.copy()
                y[:, 0] *= -2.5
                yield both('scaling '+nm, key, h(y), (-2.5*F0, -2.5*T0), sc)
                yield both('zero mass '+nm, key, h(np.vstack([x, [0., 9.1*s, 8.3*s, 7.7*s]])), (F0, T0), sc)
            yield both('rotation', key, f(N.move(a, R), N.move(b, R)), (R @ F0, R @ T0), sc)
            yield both('translation', key, f(N.move(a, t=t), N.move(b, t=t)), (F0, T0+np.cross(t, F0)), sc)
    return run


UNITS = []
for y in (False, True):
    nm = 'point_matrix_yukawa' if y else 'point_matrix_gravity'
    tg = ['glib.'+nm, 'glib.'+('yukawa_array' if y else 'gmmr2_array')]
    UNITS += [
        Unit(nm+' action-reaction', tg, [('all M, N, masses and positions', p_reaction(y))], rt(y), n=40, budget=300,
             clauses='F12 + F21 = 0, T12 + T21 = 0'),
        Unit(nm+' superposition', tg, [('all sizes, masses and positions', p_super(y))], budget=300,
             clauses='concatenating and exchanging blocks of either set'),
        Unit(nm+' rigid motion', tg, [('all sizes, all rotations and displacements', p_motion(y))], budget=300,
             clauses='force and torque turn with the bodies; torque picks up d x F'),
        Unit(nm+' scaling', tg, [('all sizes and factors', p_scale(y))], budget=300, clauses='linear in the masses of each set')]
