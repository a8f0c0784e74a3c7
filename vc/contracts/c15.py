"""C15: Gauss-Legendre solids

Contract of numpy's leggauss(n): nodes s_i and weights w_i, sum w_i s_i^a =
integral of s^a over [-1, 1] for a < 2n.  For arbitrary nodes and weights, an
arbitrary cell and arbitrary dimensions: the node of the product rule on the
bounding box of the body is kept exactly when it is inside the body, its mass
is in proportion to the product of the weights, and the masses add up to the
mass.  For the box every node is kept, so polynomials are integrated exactly."""
from .common import *
from .. import kept
from . import c14
from .c14 import MASS, P1 as a, P2 as b, P3 as t, Y1, Y2, BETA, NX, NY, NZ_, N3, NXYZ, CB, SB, VB, W, YH, SMALL, LARGE, trig, at_beta, both as conj, in_sector, \
    tri_cases, order, same

NODE = {}


def leggauss(n):
    """arbitrary nodes and weights of the rule with n points"""
    k = to_ex(n)
    nm = str(hash(k.key()))
    return arr_in('node'+nm, k), arr_in('weight'+nm, k)


BOX = lambda *h: tuple((-v, v) for v in h)
SPECS = {}


def spec_(fn, args, n, boxes, inside, pre=(), vals=()):
    SPECS.setdefault(fn, []).append((args, n, boxes, inside, list(pre), dict(vals)))


spec_('rectangle', (MASS, a, b, t, NX, NY, NZ_), NXYZ, BOX(a/2, b/2, t/2), None)
spec_('sphere', (MASS, a, NX), (NX,)*3, BOX(a, a, a), lambda x, y, z: le(x*x+y*y+z*z, a*a))
spec_('annulus', (MASS, a, b, t, NX, NZ_), N3, BOX(b, b, t/2), lambda x, y, z: conj(le(a*a, x*x+y*y), le(x*x+y*y, b*b)), [lt(a, b)])
# apex at the origin, base of radius R at z = H
spec_('cone', (MASS, a, b, NX, NZ_), N3, BOX(a, a)+((E.ZERO, b),), lambda x, y, z: le(x*x+y*y, (z*a/b)**2))
spec_('wedge', (MASS, a, b, t, BETA, NX, NZ_), N3, ((b-W, b), (-YH, YH), (-t/2, t/2)),
      lambda x, y, z: in_sector(x, y, a, b), [SMALL, lt(W, b), lt(a, b)], at_beta((b-W)/a, YH/b))
spec_('wedge', (MASS, a, b, t, BETA, NX, NZ_), N3, (((1-VB)*b, b), (-b, b), (-t/2, t/2)),
      lambda x, y, z: in_sector(x, y, a, b), [LARGE, le(BETA, E.PI), lt(1, VB), lt(a, b)], at_beta(1-VB, SB))
for lo, hi, pre in tri_cases():
    spec_('tri_prism', (MASS, a, Y1, Y2, t, NX, NY, NZ_), NXYZ, ((E.ZERO, a), (lo, hi), (-t/2, t/2)),
          lambda x, y, z: conj(le(x*Y1, y*a), le(y*a, x*Y2)), pre)


class rule:
    """loop contract and contract of leggauss"""
    def __init__(self, vals):
        self.cm = [kept.rule(), trig(vals)]

    def __enter__(self):
        shim.HOOK['leggauss'] = leggauss
        for c in self.cm:
            c.__enter__()

    def __exit__(self, *a):
        del shim.HOOK['leggauss']
        for c in self.cm[::-1]:
            c.__exit__(*a)


def p_shape(fn):
    def go(ob):
        for args, n, boxes, inside, pre, vals in SPECS[fn]:
            def model(q):
                """product weight and mapped node of the cell q = (iz, iy, ix)"""
                w, c = E.ONE, []
                for j in range(3):
                    s, g = leggauss(n[j])
                    k = q[2-j]
                    w = w*g.read([k])
                    lo, hi = boxes[j]
                    c.append((hi-lo)/2*s.read([k])+(hi+lo)/2)
                return w, c

            def thunk():
                f = getattr(src('gShapeGL'), fn)
                with rule(vals):
                    r = f(*args)
                    if not hasattr(getattr(r, 'ids', None), 'fresh') or len(r.rest) != 1 or A.con(r.rest[0]) != 4:
                        return [('kept nodes as rows [m, x, y, z]', False)]
                    at = order(r, n)
                    if at is None:
                        return [('extents of the rule', False)]
                    q = [CTX.fresh('node', 'nat') for _ in range(3)]
                    for v, k in zip(q, n[::-1]):
                        CTX.assume(lt(v, k))
                    w, c = model(q)
                    out = []
                    if inside is None:
                        ins = CTX.decide(r.ids.cond(at(q)))
                        out.append(('every node', ins))
                    else:
                        want = bool(CTX.decide(inside(*c)))
                        ins = bool(CTX.decide(r.ids.cond(at(q))))
                        out.append(('kept exactly the nodes in the body', want == ins))
                    if ins:
                        for j in range(3):
                            out.append((f'node {"xyz"[j]}', same(r.rd([at(q), j+1]), c[j])))
                        m = r.rd([at(q), 0])
                        if inside is None:
                            out.append(('mass of the node', same(m, MASS*w/8)))
                        else:
                            # masses of two kept nodes are as the product weights
                            p = [CTX.fresh('other', 'nat') for _ in range(3)]
                            for v, k in zip(p, n[::-1]):
                                CTX.assume(lt(v, k))
                            w2, c2 = model(p)
                            if CTX.decide(r.ids.cond(at(p))):
                                out.append(('masses as the weights', same(m*w2, to_ex(r.rd([at(p), 0]))*w)))
                    return out

            def total():
                f = getattr(src('gShapeGL'), fn)
                with rule(vals):
                    r = f(*args)
                    if inside is None:
                        return powers(r, n, [(0, 0, 0)])
                    return [('total mass', same(r[:, 0].sum(), MASS))]
            ob.paths(f'{fn} nodes', thunk, pre=pre)
            ob.paths(f'{fn} total', total, pre=pre)
    return go


def powers(r, n, exps):
    """sums over the rows of m x^i y^j z^k are the products of the rules in one
    dimension, sum w s^e, which leggauss makes equal to 2/(e+1) or 0 for e < 2n"""
    out = []
    for e in exps:
        f = r[:, 0]
        want = MASS/8
        for j in range(3):
            f = f*r[:, j+1]**e[j] if e[j] else f
            s, g = leggauss(n[j])
            want = want*((a, b, t)[j]/2)**e[j]*A.sum_over(n[j], lambda i: g.read([i])*s.read([i])**e[j])
        out.append((f'x^{e[0]} y^{e[1]} z^{e[2]}', same(f.sum(), want)))
    return out


def p_exact(ob):
    """m x^i y^j z^k summed over the box factors into the one-dimensional rules"""
    args, n, boxes, inside, pre, vals = SPECS['rectangle'][0]

    def thunk():
        with rule({}):
            r = src('gShapeGL').rectangle(*args)
            return powers(r, n, [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (2, 0, 0), (0, 2, 0), (0, 0, 2), (1, 1, 0), (4, 2, 3), tuple(E.sym(n, 'posint') for n in ('ex', 'ey', 'ez'))])
    ob.paths('rectangle polynomials', thunk)



# ------------------------------------------------------------------ runtime
def nodes(box, n):
    """product rule on the box: nodes and products of the weights"""
    ax, wt = [], []
    for (lo, hi), k in zip(box, n):
        s, w = np.polynomial.legendre.leggauss(k)
        ax.append((hi-lo)/2*s+(hi+lo)/2)
        wt.append(w)
    return np.stack([g.ravel() for g in np.meshgrid(*ax, indexing='ij')], 1), \
        np.prod([g.ravel() for g in np.meshgrid(*wt, indexing='ij')], 0)


def d_cone(g):
    R, h, n, nz = dim(g, .1, 4), dim(g, .1, 4), g.randint(1, 10), g.randint(1, 6)
    return (R, h, n, nz), (n, n, nz), ((-R, R), (-R, R), (0, h)), lambda x, y, z: [z*R/h-np.hypot(x, y)]


def rt_shape(fn):
    draw = d_cone if fn == 'cone' else getattr(c14, 'd_'+fn)

    def run(rng, n, hints):
        f = getattr(real('gShapeGL'), fn)
        done = 0
        for _ in range(20*n):
            if done >= n:
                break
            args, nn, box, margins = draw(rng)
            mass = rng.choice([1., rng.uniform(.01, 50)])
            c, w = nodes(box, nn)
            m = np.array(margins(*c.T))
            if CASE['scale'] != 1:
                m = m/(np.max(np.abs(m), 1)[:, None]+1e-300)
            size = max(1., np.max(np.abs(m)))
            keep = np.all(m > 0, 0)
            maybe = np.all(m > -1e-11*size, 0) & np.any(np.abs(m) <= 1e-11*size, 0)
            if not np.any(keep & ~maybe):
                continue                # no node in the body: no model
            done += 1
            st, r = attempt(f, mass, *args)
            yield c14.rows_case(fn, (mass,)+args, st, r, mass, c, keep, maybe, w)
    return run


def integral(e, h):
    """mean of x^e over [-h, h]"""
    return 0. if e % 2 else h**e/(e+1)


def rt_exact(rng, n, hints):
    f = real('gShapeGL').rectangle
    for i in range(n):
        d = [dim(rng, .1, 4) for _ in range(3)]
        nn = [rng.randint(1, 9) for _ in range(3)]
        mass = rng.uniform(.1, 9)
        st, r = attempt(f, mass, *d, *nn)
        if st == 'raise':
            yield Case('rectangle', (mass, d, nn), False, repr(r))
            continue
        for e in [(0, 0, 0)]+[tuple(rng.randint(0, 2*k-1) for k in nn) for _ in range(6)]:
            got = np.sum(r[:, 0]*r[:, 1]**e[0]*r[:, 2]**e[1]*r[:, 3]**e[2])
            want, size = mass, mass
            for j in range(3):
                want *= integral(e[j], d[j]/2)
                size *= (d[j]/2)**e[j]
            yield Case(f'rectangle polynomial', (mass, d, nn, e), abs(got-want) <= 1e-10*size, f'{got} for {want}')


UNITS = []
for fn in SPECS:
    UNITS.append(Unit(fn, ['gShapeGL.'+fn], [('all dimensions and rules', p_shape(fn))], rt_shape(fn), budget=300, n=14,
                      clauses='kept nodes = nodes of the product rule on the bounding box inside the body, masses as the product weights, total mass'))
UNITS.append(Unit('exact', ['gShapeGL.rectangle'], [('all dimensions and rules', p_exact)], rt_exact, n=14,
                  clauses='sum of m x^i y^j z^k = mass/8 times the product of the one-dimensional rules; runtime: exact up to degree 2n-1'))
