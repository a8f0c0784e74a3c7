"""Exact integrals of the solid harmonics over homogeneous bodies.

moment(l, m, mono) = integral of r^l conj(Y_lm) over a body whose monomial
integrals are mono(a, b, c) = integral of x^a y^b z^c.  The monomial integrals
below are iterated antiderivatives in the coordinates named in each docstring;
none of them comes from /repo."""
import functools
import math
from .ex import Ex, to_ex, Q
from . import ex as E
from . import funcs as F
from . import ctx as C

half = Q(1, 2)
fact = math.factorial


@functools.lru_cache(maxsize=None)
def poly(l, m):
    """r^l conj(Y_lm)/norm as ((a, b, c), coefficient, power of i), m >= 0"""
    out = {}
    for k in range((l-m)//2+1):
        q = Q((-1)**(k+m), 2**(m+2*k)*fact(m+k)*fact(k)*fact(l-m-2*k))
        for i in range(k+1):              # (x^2+y^2)^k
            for j in range(m+1):          # (x-iy)^m
                key = (2*(k-i)+m-j, 2*i+j, l-m-2*k)
                re, im = out.get(key, (Q(0), Q(0)))
                v = q*math.comb(k, i)*math.comb(m, j)
                s = (1, 0), (0, -1), (-1, 0), (0, 1)
                c = s[j % 4]
                out[key] = (re+v*c[0], im+v*c[1])
    return [(k, v) for k, v in out.items() if v != (0, 0)]


def norm(l, m):
    return E.power(to_ex(Q((2*l+1)*fact(l-m)*fact(l+m)))/(4*E.PI), half)


def moment(l, m, mono):
    t = E.ZERO
    for (a, b, c), (re, im) in poly(l, m):
        v = to_ex(mono(a, b, c))
        if v.d:
            t = t+v*re+v*im*E.I
    return norm(l, m)*t


def pw(x, n):
    return E.power(to_ex(x), n)


def sym(x, n):
    """integral of t^n over |t| < x/2"""
    return E.ZERO if n % 2 else 2*pw(to_ex(x)/2, n+1)/(n+1)


def bern(pairs):
    """integral over 0<u<1 of prod (p(1-u)+q u)^n for (p, q, n) in pairs"""
    poly_ = {(0, 0): E.ONE}
    for p, q, n in pairs:
        new = {}
        for (i, j), v in poly_.items():
            for k in range(n+1):
                t = v*math.comb(n, k)*pw(p, n-k)*pw(q, k)
                if t.d:
                    key = (i+n-k, j+k)
                    new[key] = new.get(key, E.ZERO)+t
        poly_ = new
    t = E.ZERO
    for (i, j), v in poly_.items():
        t = t+v*Q(fact(i)*fact(j), fact(i+j+1))
    return t


@functools.lru_cache(maxsize=None)
def trig(a, b):
    """cos^a sin^b = sum c_n e^{i n t}: {n: (re, im)}"""
    out = {0: (Q(1), Q(0))}
    for kind, n in (('c', a), ('s', b)):
        for _ in range(n):
            new = {}
            for k, (re, im) in out.items():
                for d, sg in ((1, 1), (-1, 1 if kind == 'c' else -1)):
                    r, i = re/2*sg, im/2*sg
                    if kind == 's':          # divide by i
                        r, i = i, -r
                    x, y = new.get(k+d, (Q(0), Q(0)))
                    new[k+d] = (x+r, y+i)
            out = new
    return {k: v for k, v in out.items() if v != (0, 0)}


def cplx(v):
    return to_ex(v[0])+E.I*v[1]


def angular(a, b, pc, ph):
    """integral of cos^a sin^b over |t-pc|<ph"""
    t = E.ZERO
    for n, v in trig(a, b).items():
        if n == 0:
            t = t+cplx(v)*2*ph
        else:
            t = t+cplx(v)*E.exp_i(pc*n)*2*E.sin(ph*n)/n
    return t


def turn(a, b):
    v = trig(a, b).get(0)
    return 2*E.PI*cplx(v) if v else E.ZERO


# ---------------------------------------------------------------------- bodies
def box(x, y, z):
    return lambda a, b, c: sym(x, a)*sym(y, b)*sym(z, c)


def sector(zlo, zhi, Ri, Ro, pc, ph):
    """cylindrical coordinates"""
    def f(a, b, c):
        n = a+b+2
        return (pw(Ro, n)-pw(Ri, n))/n*angular(a, b, pc, ph)*(pw(zhi, c+1)-pw(zlo, c+1))/(c+1)
    return f


def frustum(zlo, zhi, Rlo, Rhi, pc=None, ph=None):
    """cylindrical coordinates, radius linear in z"""
    def f(a, b, c):
        n = a+b+2
        ang = turn(a, b) if pc is None else angular(a, b, pc, ph)
        return ang*bern([(zlo, zhi, c), (Rlo, Rhi, n)])*(to_ex(zhi)-zlo)/n if ang.d else ang
    return f


def triangle_prism(h, d, y1, y2, area2):
    """0, (d, y1), (d, y2) times |z|<h/2; area2 = |d (y2-y1)|"""
    def f(a, b, c):
        return pw(d, a)*bern([(y1, y2, b)])/(a+b+2)*area2*sym(h, c)
    return f


def trapezoid(t, w1, w2, h):
    def f(a, b, c):
        if b % 2:
            return E.ZERO
        return bern([(0, h, a), (to_ex(w1)/2, to_ex(w2)/2, b+1)])*2*h/(b+1)*sym(t, c)
    return f


def segment(t, r, d):
    """d < x < r: x = r cos u, |y| < r sin u"""
    al = F.arccos(to_ex(d)/r)
    s = F.sqrt(1-(to_ex(d)/r)**2)
    e = to_ex(d)/r+E.I*s

    def f(a, b, c):
        if b % 2:
            return E.ZERO
        v = E.ZERO
        for n, k in trig(a, b+2).items():
            v = v+cplx(k)*(al if n == 0 else ((e if n > 0 else E.conj(e))**abs(n)-1)/(E.I*n))
        return v*2*pw(r, a+b+2)/(b+1)*sym(t, c)
    return f


def corner(x, y, z):
    """Dirichlet"""
    return lambda a, b, c: pw(x, a+1)*pw(y, b+1)*pw(z, c+1)*Q(fact(a)*fact(b)*fact(c), fact(a+b+c+3))


def corner2(x, y1, y2, z, area2):
    """0, (x, y1, 0), (x, y2, 0), (0, 0, z): triangles shrinking to the apex"""
    tri = triangle_prism(1, x, y1, y2, area2)
    return lambda a, b, c: tri(a, b, 0)*bern([(0, z, c), (1, 0, a+b+2)])*z


def pyramid(h, x, y):
    """total base lengths x, y, apex (0, 0, h)"""
    return lambda a, b, c: sym(x, a)*sym(y, b)*bern([(0, h, c), (1, 0, a+b+2)])*h


def holes(r, R):
    """x^2+y^2<r^2, |z|<sqrt(R^2-x^2): with x = r sqrt(t)"""
    def f(a, b, c):
        if a % 2 or b % 2 or c % 2:
            return E.ZERO
        k2 = (to_ex(r)/R)**2
        # Beta((a+1)/2, (b+3)/2) = pi * rational
        beta = gam2(a+1)*gam2(b+3)/fact((a+b)//2+1)
        return Q(4, (b+1)*(c+1))*pw(r, a+b+2)*pw(R, c+1)*beta*E.PI * \
            F.hyp2f1(-Q(c+1, 2), Q(a+1, 2), (a+b)//2+2, k2)
    return f


def gam2(n):
    """Gamma(n/2)/sqrt(pi), n odd"""
    r = Q(1)
    for k in range(1, n, 2):
        r *= Q(k, 2)
    return r


def platehole(t, r, theta):
    """x = z tan(theta) + r/cos(theta) s cos u, y = r s sin u"""
    tn = F.tan(theta)
    sec = F.sqrt(1+tn*tn)

    def f(a, b, c):
        v = E.ZERO
        for k in range(a+1):
            n = a-k+b
            ang = turn(a-k, b)
            if ang.d:
                v = v+ang*math.comb(a, k)*pw(tn, k)*pw(sec, a-k)*sym(t, c+k)*pw(r, n)/(n+2)
        return v*r*r*sec
    return f


def ball(R):
    def f(a, b, c):
        if a % 2 or b % 2 or c % 2:
            return E.ZERO
        n = a+b+c+3
        return 2*E.PI*gam2(a+1)*gam2(b+1)*gam2(c+1)/gam2(n)*pw(R, n)/n
    return f
