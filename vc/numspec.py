"""Numeric evaluation of the specification side of the contracts.

Everything here is written from the definitions (Newton's law, solid harmonics
as polynomials, a solid as a region of space) and imports nothing from /repo.
It is used to replay counterexamples on the real code and for the CPython
cross-check of the verifier; it never decides a proof.
"""
import functools
import math
import numpy as np
from numpy.polynomial.legendre import leggauss


# ------------------------------------------------------------ solid harmonics
def solid_R(l, m, x, y, z):
    """r^l Y_lm, orthonormal with the Condon-Shortley phase (any sign of m)."""
    if m < 0:
        return (-1)**m*np.conj(solid_R(l, -m, x, y, z))
    x, y, z = (np.asarray(v, dtype=float) for v in (x, y, z))
    s = 0
    for k in range((l-m)//2+1):
        c = (-1)**k/(2.**(m+2*k)*math.factorial(m+k)*math.factorial(k)
                     * math.factorial(l-m-2*k))
        s = s + c*(x**2+y**2)**k*z**(l-m-2*k)
    n = (-1)**m*math.sqrt((2*l+1)/(4*math.pi)*math.factorial(l-m)
                          * math.factorial(l+m))
    return n*s*(x+1j*y)**m


def inner(L, pts):
    """inner moments of weighted points [w, x, y, z]: sum w conj(r^l Y_lm)"""
    pts = np.atleast_2d(np.asarray(pts, dtype=float))
    q = np.zeros([L+1, 2*L+1], dtype=complex)
    for l in range(L+1):
        for m in range(-l, l+1):
            q[l, L+m] = np.sum(pts[:, 0]*np.conj(solid_R(l, m, *pts[:, 1:4].T)))
    return q


def outer(L, pts):
    """outer moments: sum w Y_lm / r^(l+1)"""
    pts = np.atleast_2d(np.asarray(pts, dtype=float))
    q = np.zeros([L+1, 2*L+1], dtype=complex)
    r = np.sqrt(np.sum(pts[:, 1:4]**2, 1))
    for l in range(L+1):
        for m in range(-l, l+1):
            q[l, L+m] = np.sum(pts[:, 0]*solid_R(l, m, *pts[:, 1:4].T)
                               / r**(2*l+1))
    return q


# ------------------------------------------------------------------- geometry
def rotz(a):
    c, s = math.cos(a), math.sin(a)
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.]])


def roty(a):
    c, s = math.cos(a), math.sin(a)
    return np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])


def euler(al, be, ga):
    return rotz(al) @ roty(be) @ rotz(ga)


def move(pts, R=None, t=None):
    pts = np.array(pts, dtype=float)
    if R is not None:
        pts[:, 1:4] = pts[:, 1:4] @ np.asarray(R).T
    if t is not None:
        pts[:, 1:4] += np.asarray(t, dtype=float)
    return pts


# ------------------------------------------------- exact quadrature of solids
# each returns weighted points [dV, x, y, z]; exact for polynomials of degree
# <= n (the trigonometric ones: to rounding)
def _gl(a, b, n):
    s, w = leggauss(n)
    return (b-a)/2*s+(a+b)/2, w*(b-a)/2


def _pts(w, x, y, z):
    w, x, y, z = np.broadcast_arrays(w, x, y, z)
    return np.stack([v.ravel() for v in (w, x, y, z)], 1)


def box(a, b, h, n=12):
    x, wx = _gl(-a/2, a/2, n)
    y, wy = _gl(-b/2, b/2, n)
    z, wz = _gl(-h/2, h/2, n)
    return _pts(wx[:, None, None]*wy[None, :, None]*wz, x[:, None, None],
                y[None, :, None], z[None, None, :])


def sector(h1, h2, ri, ro, phic, phih, n=14, nphi=44):
    """annular sector h1<z<h2"""
    r, wr = _gl(ri, ro, n)
    p, wp = _gl(phic-phih, phic+phih, nphi)
    z, wz = _gl(h1, h2, n)
    r_ = r[:, None, None]
    return _pts((wr*r)[:, None, None]*wp[None, :, None]*wz,
                r_*np.cos(p)[None, :, None], r_*np.sin(p)[None, :, None],
                z[None, None, :])


def frustum(z1, z2, R1, R2, phic, phih, n=14, nphi=44, ri=None):
    """radius R1 at z1, R2 at z2 (linear between), optional hole radius ri"""
    z, wz = _gl(z1, z2, n)
    p, wp = _gl(phic-phih, phic+phih, nphi)
    Rz = R1+(R2-R1)*(z-z1)/(z2-z1)
    lo = 0 if ri is None else ri
    s, ws = _gl(0, 1, n)
    r = lo+(Rz[:, None]-lo)*s[None, :]
    wr = (Rz[:, None]-lo)*ws[None, :]*r
    r_ = r[:, :, None]
    return _pts(wz[:, None, None]*wr[:, :, None]*wp,
                r_*np.cos(p), r_*np.sin(p), z[:, None, None])


def simplex(verts, n=12):
    """tetrahedron with the four vertices, positive volume"""
    v = np.asarray(verts, dtype=float)
    J = abs(np.linalg.det(v[1:]-v[0]))
    s, ws = _gl(0, 1, n)
    a = s[:, None, None]
    b = (1-a)*s[None, :, None]
    c = (1-a-b)*s[None, None, :]
    w = ws[:, None, None]*ws[None, :, None]*ws*(1-a)*(1-a-b)*J
    P = (v[0]+a[..., None]*(v[1]-v[0])+b[..., None]*(v[2]-v[0])
         + c[..., None]*(v[3]-v[0]))
    return _pts(w, P[..., 0], P[..., 1], P[..., 2])


def tri_prism(h, A, B, C, n=12):
    """prism over the triangle ABC, |z|<h/2"""
    A, B, C = (np.asarray(v, dtype=float) for v in (A, B, C))
    J = abs((B-A)[0]*(C-A)[1]-(B-A)[1]*(C-A)[0])
    s, ws = _gl(0, 1, n)
    z, wz = _gl(-h/2, h/2, n)
    a = s[:, None, None]
    b = (1-a)*s[None, :, None]
    w = ws[:, None, None]*ws[None, :, None]*(1-a)*J*wz
    x = A[0]+a*(B-A)[0]+b*(C-A)[0]
    y = A[1]+a*(B-A)[1]+b*(C-A)[1]
    return _pts(w, x, y, z[None, None, :])


def polygon_prism(h, verts, n=12):
    """prism over the star-shaped (about the origin) polygon, signed areas"""
    out = []
    for A, B in zip(verts, verts[1:]+verts[:1]):
        P = tri_prism(h, (0, 0), A, B, n)
        if A[0]*B[1]-A[1]*B[0] < 0:
            P[:, 0] *= -1
        out.append(P)
    return np.concatenate(out)


def pyramid(x, y, z, n=12):
    """base half lengths x, y, apex (0,0,z)"""
    zz, wz = _gl(0, z, n)
    f = 1-zz/z
    s, ws = leggauss(n)
    w = wz[:, None, None]*(f**2)[:, None, None]*x*y*ws[None, :, None]*ws
    return _pts(w, f[:, None, None]*x*s[None, :, None],
                f[:, None, None]*y*s[None, None, :], zz[:, None, None])


def steinmetz(r, R, axis='x', n=40):
    """x^2+y^2<=r^2 and (y^2+z^2<=R^2 for axis x, x^2+z^2<=R^2 for axis y)"""
    t, wt = _gl(-np.pi/2, np.pi/2, n)
    y = r*np.sin(t)
    wy = wt*r*np.cos(t)
    s, ws = leggauss(n)
    X = np.sqrt(r**2-y**2)
    Z = np.sqrt(np.maximum(R**2-y**2, 0))
    w = (wy*X*Z)[:, None, None]*ws[None, :, None]*ws
    a = X[:, None, None]*s[None, :, None]
    c = Z[:, None, None]*s[None, None, :]
    b = y[:, None, None]
    if axis == 'x':
        return _pts(w, a, b, c)
    return _pts(w, b, a, c)


def platehole(t, r, theta, n=14, nphi=44):
    """|z|<t/2 within distance r of the axis (sin th, 0, cos th)"""
    th = math.tan(theta)
    rr, wr = _gl(0, r, n)
    p, wp = _gl(-np.pi, np.pi, nphi)
    z, wz = _gl(-t/2, t/2, n)
    x = rr[:, None, None]*np.cos(p)[None, :, None]/math.cos(theta)
    y = rr[:, None, None]*np.sin(p)[None, :, None]
    w = ((wr*rr)[:, None, None]*wp[None, :, None]*wz)/math.cos(theta)
    return _pts(w, x+z[None, None, :]*th, y, z[None, None, :])


def seg(t, r, d, n=40):
    """d<x, x^2+y^2<r^2, |z|<t/2"""
    a, wa = _gl(-math.acos(d/r), math.acos(d/r), n)
    # polar: x from d; rho from d/cos(a) to r
    s, ws = _gl(0, 1, n)
    lo = d/np.cos(a)
    rho = lo[:, None]+(r-lo)[:, None]*s
    w2 = wa[:, None]*(r-lo)[:, None]*ws*rho
    z, wz = _gl(-t/2, t/2, 12)
    return _pts(w2[:, :, None]*wz, (rho*np.cos(a)[:, None])[:, :, None],
                (rho*np.sin(a)[:, None])[:, :, None], z[None, None, :])


def scale_to_mass(pts, mass):
    pts = np.array(pts)
    pts[:, 0] *= mass/np.sum(pts[:, 0])
    return pts


def with_density(pts, dens):
    pts = np.array(pts)
    pts[:, 0] *= dens
    return pts


# ----------------------------------------------------------------- point laws
def newton(pa, pb, G, alpha=None, lam=None):
    pa, pb = np.atleast_2d(pa), np.atleast_2d(pb)
    F, T = np.zeros(3), np.zeros(3)
    for a in pa:
        for b in pb:
            d = b[1:4]-a[1:4]
            r = math.sqrt(float(d @ d))
            f = G*a[0]*b[0]*d/r**3
            if alpha is not None:
                f = f*alpha*math.exp(-r/lam)*(1+r/lam)
            F += f
            T += np.cross(a[1:4], f)
    return F, T


@functools.lru_cache(maxsize=None)
def cg(j1, j2, m1, m2, J, M):
    """<j1 m1 j2 m2|J M> (Racah), exact rational arithmetic under the root"""
    from fractions import Fraction as Q
    if m1+m2 != M or J < abs(j1-j2) or J > j1+j2 or abs(m1) > j1 or \
            abs(m2) > j2 or abs(M) > J:
        return 0.0
    def f(x):
        assert abs(x-round(x)) < 1e-9
        return math.factorial(int(round(x)))
    pre = Q(int(round(2*J+1))*f(J+j1-j2)*f(J-j1+j2)*f(j1+j2-J), f(j1+j2+J+1))
    pre *= f(J+M)*f(J-M)*f(j1-m1)*f(j1+m1)*f(j2-m2)*f(j2+m2)
    s = Q(0)
    for k in range(0, int(round(j1+j2-J))+1):
        a = [j1+j2-J-k, j1-m1-k, j2+m2-k, J-j2+m1+k, J-j1-m2+k]
        if min(a) < -1e-9:
            continue
        d = f(k)
        for v in a:
            d *= f(v)
        s += Q((-1)**k, d)
    return math.copysign(math.sqrt(pre*s*s), s) if s else 0.0


# --------------------------------------------------- translation of moments
def translate_inner(q, d):
    """moments of the body moved by d (inner -> inner): exact"""
    Lx = len(q)-1
    out = np.zeros_like(q, dtype=complex)
    for L in range(Lx+1):
        for M in range(-L, L+1):
            for l in range(L+1):
                n = L-l
                c = math.sqrt(4*math.pi*math.factorial(2*L+1)/math.factorial(2*n+1)/math.factorial(2*l+1))
                for m in range(-l, l+1):
                    if abs(M-m) <= n:
                        out[L, Lx+M] += c*cg(n, l, M-m, m, L, M)*np.conj(solid_R(n, M-m, *d))*q[l, Lx+m]
    return out


def translate_outer(Q, d):
    """outer moments of the body moved by d, truncated at the given degree"""
    Lx = len(Q)-1
    out = np.zeros_like(Q, dtype=complex)
    for L in range(Lx+1):
        for M in range(-L, L+1):
            for l in range(L, Lx+1):
                n = l-L
                c = math.sqrt(4*math.pi*math.factorial(2*l)/math.factorial(2*n+1)/math.factorial(2*L))
                for m in range(-l, l+1):
                    if abs(M-m) <= n:
                        out[L, Lx+M] += c*cg(n, l, M-m, m, L, M)*solid_R(n, M-m, *d)*Q[l, Lx+m]
    return out


def translate_in_out(q, d):
    """outer moments of the body moved by d, from its inner moments, truncated"""
    Lx = len(q)-1
    r = math.sqrt(sum(c*c for c in d))
    out = np.zeros_like(q, dtype=complex)
    for L in range(Lx+1):
        for M in range(-L, L+1):
            for n in range(Lx+1):
                l = L+n
                c = math.sqrt(4*math.pi*math.factorial(2*l)/math.factorial(2*n+1)/math.factorial(2*L))
                for m in range(-n, n+1):
                    if abs(M+m) <= l:
                        out[L, Lx+M] += (-1)**m*c*cg(n, l, -m, M+m, L, M)*q[n, Lx+m] * \
                            solid_R(l, M+m, *d)/r**(2*l+1)
    return out


# --------------------------------------------------- rotation of moments
def wigner(l, al, be, ga):
    """D[m', m] of R = Rz(al) Ry(be) Rz(ga) in the convention
    q'(l, m') = sum_m D[m', m] q(l, m) for inner moments of the rotated body"""
    f = math.factorial
    c, s = math.cos(be/2), math.sin(be/2)
    D = np.zeros((2*l+1, 2*l+1), dtype=complex)
    for a in range(-l, l+1):
        for b in range(-l, l+1):
            t = 0.
            for k in range(max(0, b-a), min(l+b, l-a)+1):
                t += (-1)**(a-b+k)*c**(2*l+b-a-2*k)*s**(a-b+2*k)/(
                    f(l+b-k)*f(k)*f(a-b+k)*f(l-a-k))
            t *= math.sqrt(f(l+a)*f(l-a)*f(l+b)*f(l-b))
            D[l+a, l+b] = t*np.exp(-1j*(al*a+ga*b))
    return D
