"""C11: Clebsch-Gordan coefficients"""
from .common import *

J1, J2, J = nat('j1', 'j2', 'J')
M1, M2, M = (E.sym(n, 'int') for n in ('m1', 'm2', 'M'))
fac = spec.fac
half = Q(1, 2)


def emax(xs):
    b = xs[0]
    for x in xs[1:]:
        if CTX.decide(lt(b, x)):
            b = x
    return b


def emin(xs):
    b = xs[0]
    for x in xs[1:]:
        if CTX.decide(lt(x, b)):
            b = x
    return b


def racah(j1, j2, m1, m2, J, M):
    """<j1 m1 j2 m2|J M> for M >= 0"""
    j1, j2, m1, m2, J, M = map(to_ex, (j1, j2, m1, m2, J, M))
    pre = E.power(2*J+1, half)*E.power(
        fac(J+j1-j2)*fac(J-j1+j2)*fac(j1+j2-J)/fac(j1+j2+J+1)
        * fac(J+M)*fac(J-M)*fac(j1-m1)*fac(j1+m1)*fac(j2-m2)*fac(j2+m2), half)
    lo = emax([E.ZERO, j2-m1-J, j1+m2-J])
    hi = emin([j1+j2-J, j1-m1, j2+m2])

    def t(i):
        k = lo+i
        return E.power(Ex.const(-1), E.to_exp(k))/(
            fac(k)*fac(j1+j2-J-k)*fac(j1-m1-k)*fac(j2+m2-k)*fac(J-j2+m1+k)*fac(J-j1-m2+k))
    return pre*spec.total(hi-lo+1, t, 'k')


def cg(j1, j2, m1, m2, J, M):
    if not CTX.decide(eq(M, m1+m2)):
        return E.ZERO
    if CTX.decide(lt(M, 0)):
        return E.power(Ex.const(-1), E.to_exp(J-j1-j2))*racah(j1, j2, -m1, -m2, J, -M)
    return racah(j1, j2, m1, m2, J, M)


def inside():
    """|m| <= j, |M| <= J, triangle inequality"""
    return [le(M1, J1), le(-M1, J1), le(M2, J2), le(-M2, J2), le(M, J), le(-M, J),
            le(J, J1+J2), le(J1-J2, J), le(J2-J1, J)]


CASES = [('M>0', [lt(0, M), eq(M, M1+M2)]), ('M=0', [eq(M, 0), eq(M1, -M2)]),
         ('M<0', [lt(M, 0), eq(M, M1+M2)]), ('M+', [lt(M, M1+M2)]), ('M-', [lt(M1+M2, M)])]


def unit(fn, sub, last):
    def proof(ob):
        f = getattr(src('clebschGordan'), fn)

        def value():
            return S.prove_zero(to_ex(f(J1, J2, M1, M2, J, M))-cg(J1, J2, M1, M2, J, M))
        for nm, c in sub:
            ob.paths(f'{fn} value {nm}', value, pre=c+inside())
        if not last:
            return
        for i, c in enumerate(inside()):
            ob.paths(f'{fn} outside {i}', lambda: S.prove_zero(to_ex(f(J1, J2, M1, M2, J, M))),
                     pre=[C.c_not(c)])
    return Unit(fn+' '+sub[0][0], ['clebschGordan.'+fn], [('all j1, j2, m1, m2, J, M', proof)],
                rt(fn, last), n=1, budget=650, clauses='Racah value, 0 when a selection rule fails')


def rt(fn, every):
    def run(rng, n, hints):
        f = getattr(real('clebschGordan'), fn)
        for j1 in range(4 if every else 0):
            for j2 in range(4):
                for Jx in range(0, 8):
                    for m1 in range(-j1-1, j1+2):
                        for m2 in range(-j2-1, j2+2):
                            for Mx in {m1+m2, m1+m2+1, -m1-m2}:
                                a = (j1, j2, m1, m2, Jx, Mx)
                                yield eq_case(fn, a, f, a, N.cg(*a), 1e-11, 1.)
        for i in range(30*n):
            # high degrees, few terms
            j1, j2 = rng.randint(10, 45), rng.randint(10, 45)
            Jx = min(abs(j1-j2)+rng.choice([0, 0, 0, 1, 2]), j1+j2)
            m1 = rng.randint(-j1, j1)
            m2 = max(-j2, min(j2, rng.randint(-Jx, Jx)-m1))
            if abs(m1+m2) <= Jx:
                a = (j1, j2, m1, m2, Jx, m1+m2)
                yield eq_case(fn, a, f, a, N.cg(*a), 1e-8, 1.)
        for i in range(150*n):
            j1, j2 = rng.randint(0, 12), rng.randint(0, 12)
            Jx = rng.randint(abs(j1-j2), j1+j2)
            m1, m2 = rng.randint(-j1, j1), rng.randint(-j2, j2)
            if abs(m1+m2) > Jx:
                continue
            a = (j1, j2, m1, m2, Jx, m1+m2)
            yield eq_case(fn, a, f, a, N.cg(*a), 1e-8, 1.)
    return run


def orthonormality(ob):
    """unitarity of the specification (and so of both functions), exact"""
    for j1 in range(3):
        for j2 in range(3):
            for Ja in range(abs(j1-j2), j1+j2+1):
                for Jb in range(abs(j1-j2), j1+j2+1):
                    for Mx in range(-min(Ja, Jb), min(Ja, Jb)+1):
                        t = E.ZERO
                        for m1 in range(-j1, j1+1):
                            t = t+F.cg_value(j1, j2, m1, Mx-m1, Ja, Mx)*F.cg_value(j1, j2, m1, Mx-m1, Jb, Mx)
                        ob.record('orthonormal', S.prove_zero(t-(1 if Ja == Jb else 0)))


UNITS = [unit(f, [c], i == 4) for f in ('cgCoeff', 'cgCoeff2') for i, c in enumerate(CASES)]+[
         Unit('orthonormal', ['clebschGordan.cgCoeff'], [('bounded: j1, j2 <= 2', orthonormality)],
              clauses='sum over m1 of two coefficients = delta(J, J\')')]
