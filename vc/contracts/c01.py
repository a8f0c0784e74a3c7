"""C01: Newtonian and Yukawa force and torque between point masses"""
from .common import *

G = Q('6.67428e-11')
GF = 6.67428e-11
NA, NB = nat('M', 'N')
AL, = reals('alpha')
LM, = pos('lmbd')


def kernel(m1, p1, m2, p2, j, yuk):
    """component j of the force on (m1, p1) exerted by (m2, p2)"""
    d = [to_ex(b)-a for a, b in zip(p1, p2)]
    r2 = d[0]*d[0]+d[1]*d[1]+d[2]*d[2]
    r = E.power(r2, Q(1, 2))
    f = G*m1*m2*d[j]*E.power(r2, Q(-3, 2))
    if yuk:
        f = AL*f*F.exp(-r/LM)*(1+r/LM)
    return f


def row(a, i):
    if a.ndim == 1:
        return a.read([0]), [a.read([c]) for c in (1, 2, 3)]
    return a.read([i, 0]), [a.read([i, c]) for c in (1, 2, 3)]


def over(a, f):
    return f(E.ZERO) if a.ndim == 1 else ssum(a.shape[0], f)


def spec_force(m1, p1, b, j, yuk):
    return over(b, lambda i: kernel(m1, p1, *row(b, i), j, yuk))


def mk(name, one, n):
    return arr_in(name, 4) if one else arr_in(name, n, 4)


def pair_unit(fn, yuk):
    def proof(ob):
        f = getattr(src('glib'), fn)
        for one in (False, True):
            def thunk():
                a, b = arr_in('a', 4), mk('b', one, NB)
                r = f(a, b, AL, LM) if yuk else f(a, b)
                m1, p1 = row(a, 0)
                out = same_array(r, [3], lambda j: spec_force(m1, p1, b, A.con(j), yuk))
                return out+[('frame', untouched(a, b)), ('fresh', fresh_result(r, a, b))]
            ob.paths(f'{fn} mass2 {"1-d" if one else "Nx4"}', thunk)
    return Unit(fn, ['glib.'+fn], [('all N, masses and positions', proof)], rt(fn, yuk, False),
                clauses='force on mass1 = sum of pair kernels, any N; inputs untouched', n=60)


def matrix_unit(fn, callee, yuk):
    def contract(a, b, *k):
        """contract of the callee, verified in its own unit"""
        a, b = A.asarr(a), A.asarr(b)
        m1, p1 = row(a, 0)
        if yuk:
            assert k[0].same(AL) and k[1].same(LM)
        return A.asarr([spec_force(m1, p1, b, j, yuk) for j in range(3)])

    def proof(ob):
        f = getattr(src('glib', {'glib.'+callee: contract}), fn)
        for o1 in (False, True):
            for o2 in (False, True):
                def thunk():
                    a, b = mk('a', o1, NA), mk('b', o2, NB)
                    F_, T_ = f(a, b, AL, LM) if yuk else f(a, b)

                    def fj(j):
                        return over(a, lambda i: spec_force(*row(a, i), b, j, yuk))

                    def tj(j):
                        def one(i):
                            m, p = row(a, i)
                            u, v = (j+1) % 3, (j+2) % 3
                            return p[u]*spec_force(m, p, b, v, yuk)-p[v]*spec_force(m, p, b, u, yuk)
                        return over(a, one)
                    out = [('force '+x, y) for x, y in same_array(F_, [3], lambda j: fj(A.con(j)))]
                    out += [('torque '+x, y) for x, y in same_array(T_, [3], lambda j: tj(A.con(j)))]
                    return out+[('frame', untouched(a, b))]
                ob.paths(f'{fn} {"1-d" if o1 else "Mx4"},{"1-d" if o2 else "Nx4"}', thunk)
    return Unit(fn, ['glib.'+fn], [('all M, N, masses and positions', proof)], rt(fn, yuk, True),
                clauses='force and torque about the origin = sums over all pairs', n=60)


def rt(fn, yuk, full):
    def run(rng, n, hints):
        f = getattr(real('glib'), fn)
        for i in range(n):
            s = rng.choice([1e-3, 1, 50.])*CASE['scale']
            a = cloud(rng, 1 if not full else rng.choice([1, 1, 2, 3, 7]), s)
            b = cloud(rng, rng.choice([1, 1, 2, 3, 4, 9, 30]), s, rng.choice([(0, 0, 0), (5*s, 0, 0)]))
            if i % 7 == 3:
                a[:, 1:4] /= CASE['scale']
                b[:, 1:4] /= CASE['scale']
                a, b = np.round(a*3+.5), np.round(b*3+20)
                a, b = a.astype(int), b.astype(int)     # lengths below a thousand: products of integers stay exact
                s = 20.
            if i % 7 == 5:
                b[:, 1:3] = 0
                a[:, 1:3] = 0      # on a common line
            al, lm = rng.uniform(-2, 2), s*rng.choice([.1, 1., 30.])
            aa = a[0] if (not full or (len(a) == 1 and rng.random() < .5)) else a
            bb = b[0] if len(b) == 1 and rng.random() < .5 else b
            args = (aa, bb)+((al, lm) if yuk else ())
            Fw, Tw = N.newton(aa, bb, GF, *((al, lm) if yuk else ()))
            d = np.linalg.norm(np.atleast_2d(a)[:, None, 1:4]-np.atleast_2d(b)[None, :, 1:4], axis=2)
            mag = GF*np.abs(np.atleast_2d(a)[:, None, 0]*np.atleast_2d(b)[None, :, 0])/d**2
            if yuk:
                mag = mag*abs(al)*np.exp(-d/lm)*(1+d/lm)
            sc = np.sum(mag)
            arm = np.max(np.linalg.norm(np.atleast_2d(a)[:, 1:4], axis=1))
            if full:
                yield both(fn, args, attempt(f, *args), (Fw, Tw), (sc, sc*arm))
            else:
                yield eq_case(fn, args, f, args, Fw, 1e-9, sc)
    return run


def const_unit():
    def proof(ob):
        g = src('constants').BIG_G
        ob.record('BIG_G', to_ex(g).same(to_ex(G)))

    def run(rng, n, hints):
        yield Case('BIG_G', 'newt.constants', real('constants').BIG_G == GF)
    return Unit('BIG_G', ['constants.BIG_G'], [('all', proof)], run)


UNITS = [pair_unit('gmmr2_array', False), pair_unit('yukawa_array', True),
         matrix_unit('point_matrix_gravity', 'gmmr2_array', False),
         matrix_unit('point_matrix_yukawa', 'yukawa_array', True), const_unit()]
