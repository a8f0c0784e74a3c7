"""C21: cylindrical and Cartesian coordinates"""
from .common import *

NR, = nat('n')


def polar(x, y):
    return F.sqrt(x*x+y*y)


def p_c2c(ob):
    f = src('glibShapes').cart_2_cyl

    def thunk():
        a = arr_in('a', NR, 3)
        r = f(a)
        i = CTX.fresh('i', 'nat')
        CTX.assume(lt(i, NR))
        x, y, z = [a.read([i, j]) for j in range(3)]
        R, q, zz = [to_ex(r.read([i, j])) for j in range(3)]
        out = [('shape', len(r.shape) == 2 and S.prove_zero(to_ex(r.shape[0])-NR)
                and A.con(to_ex(r.shape[1])) == 3)]
        out.append(('radius', S.prove_zero(R-polar(x, y))))
        out.append(('height', S.prove_zero(zz-z)))
        out.append(('range', bool(CTX.decide(le(0, q))) and bool(CTX.decide(lt(q, 2*E.PI)))))
        out.append(('x', S.prove_zero(R*E.cos(q)-x)))
        out.append(('y', S.prove_zero(R*E.sin(q)-y)))
        return out+[('frame', untouched(a)), ('fresh', fresh_result(r, a))]
    ob.paths('cart_2_cyl', thunk)


def p_back(ob):
    f = src('glibShapes').cyl_2_cart

    def thunk():
        a = arr_in('a', NR, 3)
        r = f(a)

        def entry(i, j):
            R, q, z = [a.read([i, k]) for k in range(3)]
            return [R*E.cos(q), R*E.sin(q), z][int(A.con(j))]
        return same_array(r, [NR, 3], entry)+[('frame', untouched(a)), ('fresh', fresh_result(r, a))]
    ob.paths('cyl_2_cart', thunk)


def p_trip(ob):
    m = src('glibShapes')

    def thunk():
        a = arr_in('a', NR, 3)
        return same_array(m.cyl_2_cart(m.cart_2_cyl(a)), [NR, 3], lambda i, j: a.read([i, j]))
    ob.paths('round trip', thunk)


def pts(rng, n):
    out = []
    for _ in range(n):
        s = rng.choice([1e-3, 1., 1., 100.])
        p = rvec(rng, s)
        for k in range(3):
            if rng.random() < .3:
                p[k] = 0.
        out.append(p)
    return np.array(out).reshape(n, 3)


def rt(rng, n, hints):
    m = real('glibShapes')
    for i in range(n):
        a = pts(rng, rng.choice([0, 1, 2, 5, 40])) if i else np.array(
            [[x, y, z] for x in (-1, 0, 2) for y in (-3, 0, 1) for z in (-1, 0, 5)])
        if i == 1:
            a = np.array([[1., -1e-18, 2], [1, -1e-300, 0], [-1., -1e-18, 0]])
        keep = a.copy()
        st, r = attempt(m.cart_2_cyl, a)
        if st == 'raise' or np.shape(r) != a.shape:
            yield Case('cart_2_cyl', a.tolist(), False, repr(r))
            continue
        want = np.stack([np.hypot(a[:, 0], a[:, 1]), r[:, 1], a[:, 2]], 1)
        ok, d = close(r, want, np.abs(want)+1e-30, 1e-12)
        yield Case('cart_2_cyl', a.tolist(), ok, d)
        yield Case('cart_2_cyl azimuth range', a.tolist(), np.all((r[:, 1] >= 0) & (r[:, 1] < 2*np.pi)), repr(r[:, 1]))
        for k, g in ((0, np.cos), (1, np.sin)):
            ok, d = close(want[:, 0]*g(r[:, 1]), a[:, k], want[:, 0]+1e-300, 1e-9)
            yield Case('cart_2_cyl azimuth', a.tolist(), ok, d)
        ok, d = close(attempt(m.cyl_2_cart, r)[1], a, want[:, :1]+np.abs(a)+1e-30, 1e-9)
        yield Case('round trip', a.tolist(), ok, d)
        yield Case('cart_2_cyl frame', a.tolist(), np.array_equal(a, keep) and not np.shares_memory(r, a))
        b = pts(rng, rng.choice([0, 1, 3, 20]))
        b[:, 1] *= 5
        keep = b.copy()
        w = np.stack([b[:, 0]*np.cos(b[:, 1]), b[:, 0]*np.sin(b[:, 1]), b[:, 2]], 1)
        yield eq_case('cyl_2_cart', b.tolist(), m.cyl_2_cart, (b,), w, 1e-12, np.abs(b[:, :1])+np.abs(b)+1e-30)
        st, r = attempt(m.cyl_2_cart, b)
        yield Case('cyl_2_cart frame', b.tolist(), st == 'ok' and np.array_equal(b, keep) and not np.shares_memory(r, b))
        c = np.array([[rng.uniform(0, 3), rng.uniform(0, 2*np.pi), rng.uniform(-1, 1)] for _ in range(3)])
        st, r = attempt(m.cyl_2_cart, c)
        if st == 'ok':
            yield eq_case('round trip cylindrical', c.tolist(), m.cart_2_cyl, (r,), c, 1e-6)


UNITS = [
    Unit('cart_2_cyl', ['glibShapes.cart_2_cyl'], [('all n, all points', p_c2c)], rt, n=25,
         clauses='radius, azimuth in [0, 2 pi) with r cos, r sin = x, y, height; shape; frame; fresh'),
    Unit('cyl_2_cart', ['glibShapes.cyl_2_cart'], [('all n, all points', p_back)], clauses='x, y, z; shape; frame; fresh'),
    Unit('round trip', ['glibShapes.cart_2_cyl', 'glibShapes.cyl_2_cart'], [('all n, all points', p_trip)],
         clauses='cyl_2_cart(cart_2_cyl(a)) = a'),
]
