"""specification functions (symbolic): solid harmonics and the moments of
homogeneous solids.  A homogeneous body of mass M occupying the region B has

    q_lm = (M/|B|) * integral over B of  r^l conj(Y_lm)

and for m >= 0

    r^l conj(Y_lm) = N_lm sum_k (-1)^(k+m) (x^2+y^2)^k (x-iy)^m z^(l-2k-m)
                       / (2^(2k+m) k! (m+k)! (l-m-2k)!)

The integrals are carried out termwise (integral of t^n = t^(n+1)/(n+1),
Fubini, the binomial theorem and the Dirichlet integral over a simplex);
check_integrals() recomputes them exactly for small l by integrating the
polynomial monomial by monomial."""
from . import ex as E
from . import ctx as C
from . import sums as S
from .ctx import CTX, mk_cmp
from .ex import Ex, to_ex, Q

FOURPI = 4*E.PI


def fac(n):
    return E.factorial_lf(E.to_exp(to_ex(n)))


def binom(n, k):
    return fac(n)/(fac(k)*fac(to_ex(n)-k))


def total(n, f, name='s'):
    """sum_{i<n} f(i)"""
    v = CTX.fresh(name, 'nat')
    a = next(iter(E.deep_atoms(v)))

    def run():
        CTX.frames[-1].syms.add(a)
        CTX.assume(mk_cmp('lt', v-n))
        return f(v)
    res = CTX.explore(run)
    tot = E.ZERO
    rng = mk_cmp('lt', v-n).key()
    for pc, r, _ in res:
        if r[0] == 'raise':
            raise r[1]
        t = to_ex(r[1])
        for c in pc:
            if c.key() != rng:
                t = t*S.iv(c)
        tot = tot+t
    return S.mk_sum(a, to_ex(n), tot)


def norm(l, m):
    return E.power((2*to_ex(l)+1)/FOURPI, Q(1, 2)) * \
        E.power(fac(l+m)*fac(l-m), Q(1, 2))


def coef(l, m, k):
    return E.power(Ex.const(-1), E.to_exp(k+m)) / (
        E.power(Ex.const(2), E.to_exp(2*k+m))*fac(k)*fac(m+k)*fac(l-m-2*k))


def half(n):
    """(n//2, n even)"""
    n = to_ex(n)
    even = CTX.decide(C.mk_cmp('eq', to_ex(C.mod(n, 2))))
    return C.floordiv(n, 2), even


def pw(b, e):
    return E.power(to_ex(b), E.to_exp(to_ex(e)))


def ei(m, phi):
    """exp(-i m phi)"""
    return E.exp_i(-(to_ex(m)*phi))


# in-plane means  (1/area) * integral of s^(2k) (x-iy)^m dA
def sinc_m(m, phih):
    m = to_ex(m)
    if CTX.decide(mk_cmp('eq', m)):
        return E.ONE
    return E.sin(m*phih)/(m*phih)


def annular_sector(Ri, Ro, phic, phih):
    def A(m, k):
        n = 2*k+m+2
        return 2*(pw(Ro, n)-pw(Ri, n))/(n*(Ro**2-Ri**2))*sinc_m(m, phih)*ei(m, phic)
    return A


def iso_triangle(d, t, phic):
    """vertices 0, (d, d t), (d, -d t), rotated by phic"""
    def A(m, k):
        def p_(p):
            def j_(j):
                return binom(k, j)*pw(t, 2*j+2*p)/(2*j+2*p+1)
            return pw(Ex.const(-1), p)*binom(m, 2*p)*total(to_ex(k)+1, j_, 'j')
        n = 2*k+m+2
        return 2*pw(d, 2*k+m)/n*total(C.floordiv(to_ex(m), 2)+1, p_, 'p')*ei(m, phic)
    return A


def triangle(d, y1, y2):
    """vertices 0, (d, y1), (d, y2)"""
    def A(m, k):
        def p_(p):
            def j_(j):
                return binom(m+k, p)*binom(k, j)*pw(E.I, j)*pw(-E.I, p) * \
                    pw(d, 2*k+m-p-j)*(pw(y2, p+j+1)-pw(y1, p+j+1))/(p+j+1)
            return total(to_ex(k)+1, j_, 'j')
        n = 2*k+m+2
        return 2/(n*(y2-y1))*total(to_ex(m)+k+1, p_, 'p')
    return A


def sym_triangle(d, h):
    """vertices 0, (d, h), (d, -h): odd powers of v integrate to zero"""
    def A(m, k):
        def p_(p):
            def j_(j):
                if not CTX.decide(mk_cmp('eq', to_ex(C.mod(p+j, 2)))):
                    return E.ZERO
                return binom(m+k, p)*binom(k, j)*pw(E.I, j)*pw(-E.I, p) * \
                    pw(d, 2*k+m-p-j)*pw(h, p+j)/(p+j+1)
            return total(to_ex(k)+1, j_, 'j')
        n = 2*k+m+2
        return 2/n*total(to_ex(m)+k+1, p_, 'p')
    return A


def quarter_turns(A1, A2):
    """two opposite triangles around +-x (A1) and two around +-y (A2), each
    pair half of the area"""
    def A(m, k):
        h, even = half(m)
        if not even:
            return E.ZERO
        return (A1(m, k)+pw(Ex.const(-1), h)*A2(m, k))/2
    return A


def prism(l, m, mass, H, A):
    """|z| < H/2"""
    q, even = half(l-m)
    if not even:
        return E.ZERO

    def k_(k):
        n = l-m-2*k
        return coef(l, m, k)*pw(to_ex(H)/2, n)/(n+1)*A(m, k)
    return mass*norm(l, m)*total(q+1, k_, 'k')


def pointed(l, m, mass, P, A):
    """base in z=0, cross sections shrink linearly to the apex (0,0,P)"""
    q, _ = half(l-m)

    def k_(k):
        n = l-m-2*k
        # 3/P * integral z^n (1-z/P)^(2k+m+2) dz
        return coef(l, m, k)*3*pw(P, n)*fac(n)*fac(2*k+m+2)/fac(l+3)*A(m, k)
    return mass*norm(l, m)*total(q+1, k_, 'k')


def corner_simplex(l, m, mass, x, y, z):
    """vertices 0, (x,0,0), (0,y,0), (0,0,z)"""
    q, _ = half(l-m)

    def k_(k):
        def p_(p):
            def j_(j):
                a, b, c = 2*k+m-p-j, p+j, l-m-2*k
                return binom(m+k, p)*binom(k, j)*pw(E.I, j)*pw(-E.I, p) * \
                    pw(x, a)*pw(y, b)*pw(z, c)*fac(a)*fac(b)*fac(c)*6/fac(l+3)
            return total(to_ex(k)+1, j_, 'j')
        return coef(l, m, k)*total(to_ex(m)+k+1, p_, 'p')
    return mass*norm(l, m)*total(q+1, k_, 'k')


# --------------------------------------------------- moment-array obligations
def moment_array(ob, label, call, L, value, pre=(), signed=False):
    """obligations: no exception, shape (L+1)x(2L+1), entries (l,m), m>=0 equal
    value(l,m); (l,-m) equal (-1)^m conj; |m|>l zero.  signed: value(l,m)
    speaks about every -l<=m<=l and there is no mirror clause"""
    L_ = to_ex(L)
    raw = value

    def value(l, m):
        # r^l conj(Y_l0) is real, so the m = 0 moment is its own real part
        v = to_ex(raw(l, m))
        if not signed and CTX.decide(mk_cmp('eq', to_ex(m))):
            return (v+E.conj(v))/2
        return v

    def thunk():
        r = call()
        out = []
        sh = [to_ex(s) for s in r.shape]
        out.append(('shape', len(sh) == 2 and S.prove_zero(sh[0]-L_-1)
                    and S.prove_zero(sh[1]-2*L_-1)))
        l = CTX.fresh('l', 'nat')
        m = CTX.fresh('m', 'nat')
        CTX.assume(mk_cmp('le', l-L_))

        def pos():
            CTX.assume(mk_cmp('le', m-l))
            return S.prove_zero(r.read([l, L_+m])-value(l, m))

        def neg():
            CTX.assume(mk_cmp('le', m-l))
            CTX.assume(mk_cmp('lt', -m))
            if CTX.infeasible():
                return True
            if signed:
                return S.prove_zero(r.read([l, L_-m])-value(l, -m))
            return S.prove_zero(r.read([l, L_-m])-pw(Ex.const(-1), m)*E.conj(value(l, m)))

        def zero(sg):
            def f():
                CTX.assume(mk_cmp('le', m-L_))
                CTX.assume(mk_cmp('lt', l-m))
                return S.prove_zero(r.read([l, L_+sg*m]))
            return f
        for nm, f in (('value', pos), ('mirror', neg), ('beyond+', zero(1)),
                      ('beyond-', zero(-1))):
            for pc, rr, _ in CTX.explore(f):
                ok = rr[0] == 'ok' and bool(rr[1])
                if not ok and C.check_sat(CTX.pcs()+pc) == 'unsat':
                    continue
                out.append((nm, ok))
                if not ok:
                    ob.models.append(CTX.pcs()+list(pc))
        return out
    return ob.paths(label, thunk, pre=pre)


def moment_array_upto(ob, label, call, L, value, pre=()):
    """the same obligations with a concrete L, entry by entry"""
    def thunk():
        r = call()
        out = [('shape', [int(to_ex(s)) for s in r.shape] == [L+1, 2*L+1])]
        for l in range(L+1):
            for m in range(L+1):
                want = value(Ex.const(l), Ex.const(m)) if m <= l else E.ZERO
                out.append((f'{l},{m}', S.prove_zero(to_ex(r.read([l, L+m]))-want)))
                if m:
                    out.append((f'{l},{-m}', S.prove_zero(
                        to_ex(r.read([l, L-m]))-(-1)**m*E.conj(want))))
        return out
    return ob.paths(label, thunk, pre=pre)
