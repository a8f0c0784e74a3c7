"""C03: translating and rotating point-mass arrays is an exact rigid motion"""
from .common import *

NB, = nat('N')
TH = E.angle('th') if hasattr(E, 'angle') else reals('th')[0]
t1, t2, t3, u1, u2, u3 = reals('t1', 't2', 't3', 'u1', 'u2', 'u3')


def pts(one):
    return arr_in('p', 4) if one else arr_in('p', NB, 4)


def at(p, i, c):
    return p.read([c]) if p.ndim == 1 else p.read([i, c])


def rows(one, f):
    if one:
        return [4], lambda c: f(E.ZERO, A.con(c))
    return [NB, 4], lambda i, c: f(i, A.con(c))


def p_translate(ob):
    f = src('glib').translate_point_array
    for one in (False, True):
        def thunk():
            p = pts(one)
            v = A.asarr([t1, t2, t3])
            r = f(p, v)
            sh, en = rows(one, lambda i, c: at(p, i, c) if c == 0 else at(p, i, c)+[t1, t2, t3][c-1])
            return same_array(r, sh, en)+[('frame', untouched(p)), ('fresh', fresh_result(r, p))]
        ob.paths('translate '+('1-d' if one else 'Nx4'), thunk)


AXES = {'generic': (u1, u2, u3), 'z': (E.ZERO, E.ZERO, u3), 'x': (u1, E.ZERO, E.ZERO),
        'y': (E.ZERO, u2, E.ZERO)}


def rodrigues(x, ax, th):
    n2 = ax[0]*ax[0]+ax[1]*ax[1]+ax[2]*ax[2]
    u = [to_ex(v)*E.power(n2, Q(-1, 2)) for v in ax]
    c, s = E.cos(th), E.sin(th)
    d = u[0]*x[0]+u[1]*x[1]+u[2]*x[2]
    cr = [u[1]*x[2]-u[2]*x[1], u[2]*x[0]-u[0]*x[2], u[0]*x[1]-u[1]*x[0]]
    return [x[j]*c+cr[j]*s+u[j]*d*(1-c) for j in range(3)]


def p_rotate(ob):
    f = src('glib').rotate_point_array
    for nm, ax in AXES.items():
        for one in (False, True):
            def thunk():
                CTX.assume(lt(0, ax[0]*ax[0]+ax[1]*ax[1]+ax[2]*ax[2]))
                p = pts(one)
                v = A.asarr(list(ax))
                r = f(p, TH, v)

                def en(i, c):
                    if c == 0:
                        return at(p, i, 0)
                    return rodrigues([at(p, i, k) for k in (1, 2, 3)], ax, TH)[c-1]
                sh, e = rows(one, en)
                return same_array(r, sh, e)+[('frame', untouched(p)), ('fresh', fresh_result(r, p))]
            ob.paths(f'rotate about {nm} axis '+('1-d' if one else 'Nx4'), thunk)


def p_rigid(ob):
    """the contract of the rotation implies: lengths and mutual distances kept,
    axis fixed, handedness kept, inverse by the opposite angle"""
    def thunk():
        ax = (u1, u2, u3)
        CTX.assume(lt(0, u1*u1+u2*u2+u3*u3))
        x, y = reals('x1', 'x2', 'x3'), reals('y1', 'y2', 'y3')
        rx, ry = rodrigues(x, ax, TH), rodrigues(y, ax, TH)
        dot = lambda a, b: a[0]*b[0]+a[1]*b[1]+a[2]*b[2]
        cr = lambda a, b: [a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]]
        z = S.prove_zero
        back = rodrigues(rx, ax, -TH)
        fix = rodrigues(list(ax), ax, TH)
        rc = rodrigues(cr(x, y), ax, TH)
        c2 = cr(rx, ry)
        return [('inner product', z(dot(rx, ry)-dot(x, y)))] + \
            [('inverse', z(back[j]-x[j])) for j in range(3)] + \
            [('axis fixed', z(fix[j]-ax[j])) for j in range(3)] + \
            [('handedness', z(rc[j]-c2[j])) for j in range(3)]
    ob.paths('lemma', thunk)


def num_rod(P, th, ax):
    u = np.array(ax, float)/np.linalg.norm(ax)
    P = np.array(P, float)
    x = P[..., 1:4]
    d = (x @ u)[..., None]
    P[..., 1:4] = x*math.cos(th)+np.cross(u, x)*math.sin(th)+u*d*(1-math.cos(th))
    return P


def rt_translate(rng, n, hints):
    f = real('glib').translate_point_array
    for i in range(n):
        p = cloud(rng, rng.choice([1, 1, 2, 5, 30]), rng.choice([1e-3, 1, 100]))
        if i % 5 == 4:
            p = np.round(p*3).astype(int)
        v = np.array(rvec(rng))
        if i % 4 == 1:
            v = np.array([0, 0, rng.uniform(-3, 3)])
        if i % 9 == 2:
            v = np.zeros(3)
        pp = p[0] if len(p) == 1 and rng.random() < .6 else p
        want = np.array(pp, float)
        want[..., 1:4] += v
        v = list(v) if i % 3 == 0 else v
        yield eq_case('translate', (pp, v), f, (pp, v), want, 1e-12, np.max(np.abs(want))+1)


def rt_rotate(rng, n, hints):
    f = real('glib').rotate_point_array
    for i in range(n):
        sc = rng.choice([1e-3, 1, 100])
        p = cloud(rng, rng.choice([1, 1, 2, 5, 30]), sc)
        if i % 5 == 4:
            p = np.round(p*3).astype(int)
        ax = np.array(rvec(rng))*rng.choice([1e-3, 1, 1, 100])
        if i % 3 == 1:
            ax = np.eye(3)[rng.randrange(3)]*rng.choice([1, -1, 2.5, -.1])
        if i % 7 == 2:
            ax = np.array([rng.choice([0, 1, -1, 2]) for _ in range(3)])
            if not ax.any():
                ax = np.array([1, -1, 0])
        th = rng.choice([rng.uniform(-10, 10), math.pi, -math.pi/2, 2*math.pi, 0., 1e-4, math.pi-1e-9])
        pp = p[0] if len(p) == 1 and rng.random() < .6 else p
        want = num_rod(pp, th, ax)
        yield eq_case('rotate', (pp, th, ax), f, (pp, th, ax), want, 1e-12, np.max(np.abs(want))+1e-3)


UNITS = [
    Unit('translate_point_array', ['glib.translate_point_array'],
         [('all N, points and vectors', p_translate)], rt_translate, n=60,
         clauses='mass column kept, positions shifted, fresh result, input untouched'),
    Unit('rotate_point_array', ['glib.rotate_point_array'],
         [('all N, points, axes and angles', p_rotate)], rt_rotate, n=80,
         clauses='mass column kept, right-handed rotation about the axis through the origin'),
    Unit('rigidity', ['glib.rotate_point_array'], [('all', p_rigid)],
         clauses='lemma over the rotation contract'),
]
