"""C13: the multipole torque

n_lm = -4 pi i G m q_lm Q_lm/(2l+1); the torque about z on the sensor turned by
phi about z is Re sum n_lm exp(-i m phi)."""
from .common import *
from .c10 import CONTRACTS, VAL, dmat, symq, any_q
from . import c01, c09, c10

L, M_ = nat('L', 'nang')
CN, = reals('cnst')
EU = reals('al', 'be', 'ga')
D3 = reals('rx', 'ry', 'rz')


def p_lm(ob):
    f = src('multipoleLib').torque_lm

    def thunk():
        q, Qo = (arr_in(k, L+1, 2*L+1, kind='c') for k in ('q', 'Q'))
        nlm, nc, ns = f(q, Qo, CN)

        def w(l, i):
            return -4*E.PI*E.I*CN*(i-L)/(2*l+1)*q.read([l, i])*Qo.read([l, i])

        def col(k):
            return spec.total(L+1, lambda l: w(l, L+k), 'l')
        return same_array(nlm, [L+1, 2*L+1], w) + \
            [('cosine '+a, b) for a, b in same_array(nc, [L+1], lambda k: col(k)+col(-k))] + \
            [('sine '+a, b) for a, b in same_array(ns, [L+1], lambda k: col(k)-col(-k))] + \
            [('frame', untouched(q, Qo)), ('fresh', fresh_result(nlm, q, Qo))]
    ob.paths('torque_lm', thunk)


def angle_value(tc, ts, a, sg):
    def t(k):
        c, s = E.cos(sg*k*a), E.sin(sg*k*a)
        x, y = to_ex(tc.read([k])), to_ex(ts.read([k]))
        return x.real*c+x.imag*s+y.imag*s+y.real*c
    x, y = to_ex(tc.read([Ex.const(0)])), to_ex(ts.read([Ex.const(0)]))
    return x.real/2+y.imag/2+spec.total(L, lambda k: t(k+1), 'k')


def p_angle(ob):
    f = src('multipoleLib').torques_at_angle
    for out in (False, True):
        for scalar in (False, True):
            def thunk():
                tc, ts = (arr_in(k, L+1, kind='c') for k in ('tc', 'ts'))
                a = reals('phi')[0] if scalar else arr_in('phi', M_)
                r = f(tc, ts, a, out)
                sg = -1 if out else 1
                fr = [('frame', untouched(tc, ts, *(() if scalar else (a,))))]
                if scalar:
                    return [('value', S.prove_zero(to_ex(r)-angle_value(tc, ts, a, sg)))]+fr
                if not isinstance(r, A.SArr):      # no order above zero
                    return [('value', CTX.implied(le(L, 0)) and S.prove_zero(to_ex(r)-angle_value(tc, ts, a.read([E.ZERO]), sg)))]+fr
                return same_array(r, [M_], lambda i: angle_value(tc, ts, a.read([i]), sg))+fr
            ob.paths(f'torques_at_angle outer={out} scalar={scalar}', thunk)


def p_lemma(ob):
    """for torque amplitudes of order k and -k that are conjugate (real bodies)
    the cosine/sine form is the real torque at the angle phi"""
    n, = [E.atom_ex(E.atom('el', 'n', (Ex.const(0),), True, False), 1)]
    k, = nat('k')
    phi, = reals('phi')
    for sg in (1, -1):
        tc, ts = n+E.conj(n), n-E.conj(n)
        c, s = E.cos(sg*k*phi), E.sin(sg*k*phi)
        got = tc.real*c+tc.imag*s+ts.imag*s+ts.real*c
        e = E.exp_i(-sg*k*phi)
        ob.record('torque at angle', S.prove_zero(got-(n*e+E.conj(n*e))))


# ------------------------------------------------------- bodies moved inside
TYPES = ('inner-inner', 'outer-outer', 'inner-outer')
FN = {'inner-inner': 'translate_qlm', 'outer-outer': 'translate_Qlmb', 'inner-outer': 'translate_q2Q'}


def rotated(q, Lx, sg):
    """contract of the rotation (C09), sg=-1: outer moments"""
    c, s = E.cos(EU[1]), E.sin(EU[1])
    ea, eg = E.exp_i(sg*EU[0]), E.exp_i(sg*EU[2])
    rows = []
    for l in range(Lx+1):
        d = dmat(l, c, s, ea, eg)
        rows.append([sum((d[m, k]*q.read([l, Lx+k]) for k in range(-l, l+1)), E.ZERO) if abs(m) <= l else E.ZERO
                     for m in range(-Lx, Lx+1)])
    return A.asarr(rows)


def only(q, Lx, k):
    return A.asarr([[q.read([l, Lx+m]) if m == k else E.ZERO for m in range(-Lx, Lx+1)] for l in range(Lx+1)])


def p_move(tt, Lmax):
    def run(ob):
        f = src('multipoleLib', CONTRACTS).torque
        X, Z = pos('X', 'Z')
        dirs = {'generic': D3, '+z': [E.ZERO, E.ZERO, Z], '-z': [E.ZERO, E.ZERO, -Z], '-x': [-X, E.ZERO, E.ZERO]}
        if tt != 'inner-outer':
            dirs['zero'] = [E.ZERO]*3
        for Lx in range(Lmax+1):
            for nm, d in dirs.items():
                def thunk():
                    if nm == 'generic':
                        CTX.assume(lt(0, d[0]*d[0]+d[1]*d[1]))
                    q, Qo = symq('q', Lx), symq('Q', Lx)
                    nlm, nc, ns = f(q, Qo, EU, d, tt, CN)
                    out = [('shape', [A.con(to_ex(n)) for n in nlm.shape] == [Lx+1, 2*Lx+1])]
                    body, other = (q, Qo) if tt == 'inner-inner' else (Qo, q)
                    cols = {}
                    for k in range(-Lx, Lx+1):
                        b = rotated(only(body, Lx, k), Lx, -1 if tt == 'outer-outer' else 1)
                        w = E.ZERO
                        for l in range(Lx+1):
                            for m in range(-l, l+1):
                                v = b.read([l, Lx+m]) if nm == 'zero' else \
                                    VAL[FN[tt]](b, Ex.const(Lx), Ex.const(l), Ex.const(m), d)
                                w = w-4*E.PI*E.I*CN*m*Q(1, 2*l+1)*other.read([l, Lx+m])*v
                        cols[k] = w
                        g = sum((to_ex(nlm.read([l, Lx+k])) for l in range(Lx+1)), E.ZERO)
                        out.append((f'order {k}', S.prove_zero(g-w)))
                    for k in range(Lx+1):
                        a, b = to_ex(nc.read([k])), to_ex(ns.read([k]))
                        g = [sum((to_ex(nlm.read([l, Lx+s*k])) for l in range(Lx+1)), E.ZERO) for s in (1, -1)]
                        out.append((f'cosine {k}', S.prove_zero(a-g[0]-g[1])))
                        out.append((f'sine {k}', S.prove_zero(b-g[0]+g[1])))
                    return out+[('frame', untouched(q, Qo))]
                ob.paths(f'{tt} L={Lx} {nm}', thunk)
    return run


# every degree: torque() moves the other body instead, by the transposed
# matrices in the opposite order
def euler_entry(k, a, b, al, ga):
    at = E.atom('el', 'de', tuple(E.to_exp(to_ex(x)) for x in (k, a, b)), False, False)
    return E.atom_ex(at, 1)*E.exp_i(-(a*al+b*ga))


def swapped(D):
    return lambda k, a, b: D(k, b, a)


def torque_contracts(ob, d, tt):
    base = c10.trr_contracts(ob, d, FN[tt])

    def wig(n, al, be, ga):
        n, al, be, ga = map(to_ex, (n, al, be, ga))
        for sg in (1, -1):
            if al.same(sg*EU[0]) and ga.same(sg*EU[2]) and be.same(EU[1]):
                return c10.Wig(n+1, lambda k: A.SArr([2*to_ex(k)+1]*2, lambda q: euler_entry(
                    k, to_ex(q[0])-k, to_ex(q[1])-k, al, ga), 'c', name='De'))
        return base['rotations.wignerDl'](n, al, be, ga)

    def rot(q, ds, conj_trans=False):
        q = A.asarr(q)
        if not isinstance(ds, c10.Wig):
            raise E.Structure('other matrices')
        ob.record('precondition of rotate_qlm_Ds_right', S.prove_zero(to_ex(ds.n)-c10.L-1) and S.prove_zero(to_ex(q.shape[0])-c10.L-1))
        D = lambda k, a, b: ds[k].read([k+a, k+b])
        return c10.mom(c10.rotated(q.snap(), swapped(D), bool(conj_trans)), 'rot')

    def app(q, efms, q2Q=False):
        q = A.asarr(q)
        ob.record('precondition of apply_trans_mat_right', isinstance(efms, A.SymList) and not isinstance(efms, c10.Wig)
                  and S.prove_zero(to_ex(efms.n)-c10.L-1) and S.prove_zero(to_ex(q.shape[0])-c10.L-1))
        e = c10.coaxed(q, True, bool(q2Q))
        return c10.mom(lambda ix: e(*ix), 'coax')
    out = {**base, 'rotations.wignerDl': wig, 'rotations.rotate_qlm_Ds_right': rot, 'translationRecurs.apply_trans_mat_right': app}
    for k in ('rotations.rotate_qlm_Ds', 'translationRecurs.apply_trans_mat'):
        del out[k]
    return out


def back_moved(q, tt, d, nm):
    """the other body's moments times the transposed matrix of: turn by the
    Euler angles, then translate (the contract of translationRecurs in C10)"""
    fn, flip = FN[tt], tt == 'inner-outer'
    sg = -1 if tt == 'outer-outer' else 1
    De = lambda k, a, b: euler_entry(k, a, b, sg*EU[0], sg*EU[2])
    if nm not in ('zero', '+z'):
        _, ph, th = c10.polar(d)
        ga = c10.azim(d, ph, -ph)
        D = lambda k, a, b: c10.wig_entry(th, k, a, b, E.ZERO, -th, ga)
        Dc = lambda k, a, b: E.conj(D(k, a, b))
        q = c10.mom(c10.rotated(q.snap(), swapped(D if fn == 'translate_qlm' else Dc), True), 'rot')
    if nm != 'zero':
        e = c10.coaxed(q, True, flip)
        q = c10.mom(lambda ix, e=e: e(*ix), 'coax')
    if nm not in ('zero', '+z'):
        q = c10.mom(c10.rotated(q.snap(), swapped(Dc if fn == 'translate_Qlmb' else D), False), 'rot')
    return c10.rotated(q.snap(), swapped(De), False)


def p_move_all(tt):
    def run(ob):
        n = c10.L
        Z, = pos('Z')
        dirs = {'generic': D3, '+z': [E.ZERO, E.ZERO, Z], '-z': [E.ZERO, E.ZERO, -Z]}
        if tt != 'inner-outer':
            dirs['zero'] = [E.ZERO]*3
        for nm, d in dirs.items():
            f = src('multipoleLib', torque_contracts(ob, d, tt)).torque

            def thunk():
                if nm == 'generic':
                    CTX.assume(lt(0, d[0]*d[0]+d[1]*d[1]))
                q, Qo = (arr_in(k, n+1, 2*n+1, kind='c') for k in ('q', 'Q'))
                nlm, nc, ns = f(q, Qo, EU, d, tt, CN)
                body, other = (q, Qo) if tt == 'inner-inner' else (Qo, q)
                dens = c10.mom(lambda ix: other.read(ix)*(ix[1]-n)/(2*to_ex(ix[0])+1), 'dens')
                w = back_moved(dens, tt, d, nm)
                W = lambda l, i: -4*E.PI*E.I*CN*body.read([l, i])*w([l, i])
                out = same_array(nlm, [n+1, 2*n+1], W)

                def col(k):
                    return spec.total(n+1, lambda l: nlm.read([l, n+k]), 'l')
                return out+[('cosine '+a, b) for a, b in same_array(nc, [n+1], lambda k: col(k)+col(-k))] + \
                    [('sine '+a, b) for a, b in same_array(ns, [n+1], lambda k: col(k)-col(-k))] + \
                    [('frame', untouched(q, Qo)), ('fresh', all(fresh_result(r, q, Qo) for r in (nlm, nc, ns)))]
            ob.paths(f'{tt} {nm}', thunk)
    return run


def p_adjoint(ob):
    """the functions ending in _right multiply by the transposed matrices:
    sum of A * right(B) is sum of left(A) * B, both by their contracts of C09
    and C10.  So the sum over l of n_lm is the torque of order m on the body
    turned and moved, term by term the addition theorem of C10."""
    n = c09.L
    for ct in (False, True):
        def th(right):
            q = arr_in('q', n+1, 2*n+1, kind='c')
            Wf = lambda k, a, b: c09.W(k, k+a, k+b)
            w = c10.rotated(q.snap(), swapped(Wf) if right else Wf, ct)
            return same_array(A.SArr([n+1, 2*n+1], w, 'c', name='w'), [n+1, 2*n+1], c09.applied(q, right, ct))
        for right in (False, True):
            ob.paths(f'turned, right={right} ct={ct}', lambda: th(right))
    k, i, l = nat('k', 'i', 'l')
    m, = [E.sym('m', 'int')]
    # weight of B[k, mB] in right(B)[l, m] and of A[l, m] in left(A)[k, mB]
    n = c10.L
    for flip in (False, True):
        def th2():
            mB = -m if flip else m
            a = abs_(m)
            CTX.assume(le(a, l))
            CTX.assume(le(a, k))
            x = term_at(c10.coaxed(arr_in('B', n+1, 2*n+1, kind='c'), True, flip), l, n+m, k-a)
            y = term_at(c10.coaxed(arr_in('A', n+1, 2*n+1, kind='c'), False, flip), k, n+mB, l-a)
            bx, ay = (E.atom_ex(E.atom('el', nm, tuple(E.to_exp(v) for v in ix), True, False), 1)
                      for nm, ix in (('B', (k, n+mB)), ('A', (l, n+m))))
            return S.prove_zero(x*ay-y*bx)
        ob.paths(f'coaxial flip={flip}', th2, pre=[le(l, n), le(k, n)])


def abs_(m):
    return m if CTX.decide(le(0, m)) else -m


def term_at(entry, l, j, i):
    """term i of the sum that entry(l, j) is"""
    got = []
    keep = spec.total
    spec.total = lambda n, f, name='s': got.append((n, f)) or E.ZERO
    try:
        entry(l, j)
    finally:
        spec.total = keep
    if len(got) != 1 or not CTX.decide(lt(i, got[0][0])) or CTX.decide(lt(i, 0)):
        raise E.Structure('no such term')
    return got[0][1](i)


def p_bad(ob):
    f = src('multipoleLib', CONTRACTS).torque
    for t in ('outer-inner', 'inner', '', None):
        ob.paths('unknown kind', lambda: f(symq('q', 1), symq('Q', 1), EU, D3, t), pre=[lt(0, D3[0]*D3[0]+D3[1]*D3[1])],
                 want=ValueError)


# -------------------------------------------------------------------- runtime
def rt_lm(rng, n, hints):
    f = real('multipoleLib').torque_lm
    for i in range(n):
        Lx = i if i < 3 else degree(rng, rng.randint(0, 9))
        q, Qo = any_q(rng, Lx), any_q(rng, Lx)
        if i % 3 == 0:
            q = q+np.array([[complex(rng.random(), rng.random()) for _ in range(2*Lx+1)] for _ in range(Lx+1)])
        cn = rng.choice([1., 6.7e-11, -3.])
        w = np.array([[-4j*math.pi*cn*m/(2*l+1)*q[l, Lx+m]*Qo[l, Lx+m] for m in range(-Lx, Lx+1)] for l in range(Lx+1)])
        c = w.sum(0)
        keep = q.copy(), Qo.copy()
        args = (q, Qo, cn)
        if i % 4 == 1:
            w, args = w/cn*c01.GF, (q, Qo)
            c = w.sum(0)
        yield both('torque_lm', (q.tolist(), Qo.tolist(), cn), attempt(f, *args), (w, c[Lx:]+c[Lx::-1], c[Lx:]-c[Lx::-1]),
                   [np.max(np.abs(w))+1e-300]*3, 1e-10)
        yield Case('torque_lm frame', Lx, np.array_equal(keep[0], q) and np.array_equal(keep[1], Qo))


def sensor_torque(q, Qo, phi, G):
    """z torque on the sensor turned by phi about z, from the moments"""
    Lx = len(q)-1
    t = 0.
    for l in range(Lx+1):
        for m in range(-l, l+1):
            t += -4j*math.pi*G*m/(2*l+1)*q[l, Lx+m]*Qo[l, Lx+m]*np.exp(-1j*m*phi)
    return t.real


def rt_angle(rng, n, hints):
    ml = real('multipoleLib')
    f = ml.torques_at_angle
    for i in range(n):
        Lx = i if i < 3 else degree(rng, rng.randint(0, 9))
        tc, ts = (np.array([complex(rng.uniform(-1, 1), rng.uniform(-1, 1)) for _ in range(Lx+1)]) for _ in 'cs')
        a = np.array([rng.uniform(-7, 7) for _ in range(rng.randint(1, 6))])
        if i % 4 == 3:
            a = a[0]
        o = bool(i % 2)
        sg = -1 if o else 1
        w = tc[0].real/2+ts[0].imag/2+0*a
        for k in range(1, Lx+1):
            w = w+(tc[k].real+ts[k].real)*np.cos(sg*k*a)+(tc[k].imag+ts[k].imag)*np.sin(sg*k*a)
        st, r = attempt(f, tc, ts, a, o)
        r = r+0*a if st == 'ok' and Lx == 0 else r
        ok, d = (False, repr(r)) if st == 'raise' else close(r, w, 1+Lx, 1e-9)
        yield Case('torques_at_angle', (tc.tolist(), ts.tolist(), np.asarray(a).tolist(), o), ok, d)
        # torque of two bodies at every turntable angle
        q, Qo = any_q(rng, Lx), any_q(rng, Lx)
        a = np.array([rng.uniform(-7, 7) for _ in range(4)])
        st, r = attempt(lambda: f(*ml.torque_lm(q, Qo, 1.)[1:], a))
        w = np.array([sensor_torque(q, Qo, p, 1.) for p in a])
        r = r+0*a if st == 'ok' and Lx == 0 else r
        ok, d = (False, repr(r)) if st == 'raise' else close(r, w, 1+np.max(np.abs(w)), 1e-9)
        yield Case('torque at angle', (q.tolist(), Qo.tolist(), a.tolist()), ok, d)
    for i in range(n//4+1):
        a, b = cloud(rng, rng.randint(1, 4), .4), cloud(rng, rng.randint(1, 3), .5)
        b[:, 1:4] += np.array(rng.choice([[3, 0, 0], [-2, 2.5, 0], [0, 1, -3.5], [2, -2, 2]]))
        phi = np.array([rng.uniform(-4, 4) for _ in range(3)])
        Lx = 12
        w = np.array([N.newton(N.move(a, R=N.rotz(p)), b, c01.GF)[1][2] for p in phi])
        st, r = attempt(lambda: f(*ml.torque_lm(N.inner(Lx, a), N.outer(Lx, b))[1:], phi))
        mag = c01.GF*np.sum(np.abs(a[:, 0]))*np.sum(np.abs(b[:, 0]))/4
        ok, d = (False, repr(r)) if st == 'raise' else close(r, w, mag, 2e-3)
        yield Case('direct torque', (a.tolist(), b.tolist(), phi.tolist()), ok, d)


def disp(rng, tt):
    s = rng.uniform(.8, 4) if tt == 'inner-outer' else rng.uniform(.05, 1)
    d = np.array(rvec(rng, 1.))
    d /= np.linalg.norm(d)
    c = rng.random()
    if c < .3:
        d = np.array(rng.choice([[0, 0, 1.], [0, 0, -1.], [1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0]]), float)
    elif c < .38:
        d[2] = 0
    elif c < .46 and tt != 'inner-outer':
        d[:] = 0
    elif c < .5:
        d[:2] *= 1e-7
    return d*s


def rt_move(tt):
    def run(rng, n, hints):
        ml = real('multipoleLib')
        f = ml.torque
        for i in range(n):
            Lx = i if i < 3 else degree(rng, rng.randint(1, 8), 12)
            q, Qo = any_q(rng, Lx), any_q(rng, Lx)
            d = disp(rng, tt)
            e = [rng.choice([0., math.pi/2, math.pi, -math.pi, rng.uniform(-3.2, 3.2), rng.uniform(-3.2, 3.2)]) for _ in range(3)]
            if i % 6 == 5:
                e = [0., 0., 0.]
            p = rng.uniform(-3.2, 3.2)
            # the moved body starts turned by p about its own z axis
            if tt == 'inner-inner':
                b = turned(q, Lx, e, p, 1)
                q2, Q2 = (b if not np.any(d) else N.translate_inner(b, d)), Qo
            elif tt == 'outer-outer':
                b = turned(Qo, Lx, e, p, -1)
                q2, Q2 = q, (b if not np.any(d) else N.translate_outer(b, d))
            else:
                q2, Q2 = q, N.translate_in_out(turned(Qo, Lx, e, p, 1), d)
            w = sensor_torque(q2, Q2, 0., 1.)
            mag = 0.
            for l in range(Lx+1):
                mag += 4*math.pi*np.sum(np.abs(q2[l])*np.abs(Q2[l]))
            g = 1.
            if rng.random() < .35:
                # any units of mass and length
                u, a_, b_ = 10**rng.uniform(-8, 8), 10**rng.uniform(-8, 8), 10**rng.uniform(-8, 8)
                ls = np.arange(Lx+1)[:, None]
                q, Qo = q*a_*u**ls, Qo*b_*(u**ls if tt == 'inner-outer' else u**(-ls-1.))
                d, g = d*u, a_*b_/u
            keep = q.copy(), Qo.copy()
            st, r = attempt(lambda: ml.torques_at_angle(*f(q, Qo, e, d, tt, 1.)[1:], np.array([p]), tt == 'outer-outer'))
            if Lx == 0 and st == 'ok':
                r = r+np.zeros(1)
            ok, dd = (False, repr(r)) if st == 'raise' else close(r, np.array([w*g]), (mag+1e-12)*g, 1e-7)
            key = (q.tolist(), Qo.tolist(), e, d.tolist(), p)
            yield Case(tt, key, ok, dd)
            yield Case(tt+' frame', key, np.array_equal(keep[0], q) and np.array_equal(keep[1], Qo))
            if i % 5 == 0:
                st, r = attempt(lambda: f(q, Qo, e, d, tt)[0].sum())
                st2, r2 = attempt(lambda: f(q, Qo, e, d, tt, 1.)[0].sum())
                ok = st == st2 == 'ok' and abs(r-c01.GF*r2) <= 1e-9*c01.GF*(mag+1e-12)*g
                yield Case(tt+' default constant', key, ok, f'{r} {r2}')
        for bad in ('outer-inner', 'inner', '', None):
            q = any_q(rng, 2)
            yield rej_case('unknown kind', bad, f, (q, q, [.1, .2, .3], [1., 2., 3.], bad))
    return run


def turned(q, Lx, e, p, sg):
    out = np.zeros_like(q)
    for l in range(Lx+1):
        out[l, Lx-l:Lx+l+1] = N.wigner(l, sg*e[0], e[1], sg*(e[2]+p)) @ q[l, Lx-l:Lx+l+1]
    return out


UNITS = [
    Unit('torque_lm', ['multipoleLib.torque_lm'], [('all L and moments', p_lm)], rt_lm, n=25,
         clauses='n_lm entry by entry; cosine and sine amplitudes; frame; fresh'),
    Unit('torques_at_angle', ['multipoleLib.torques_at_angle'], [('all L, amplitudes and angles', p_angle)], rt_angle, n=25,
         clauses='Fourier sum of the amplitudes at every angle'),
    Unit('torque at angle', ['multipoleLib.torques_at_angle'], [('all orders, lemma', p_lemma)],
         clauses='lemma: the amplitudes of real bodies give the torque on the turned sensor'),
    Unit('unknown kind', ['multipoleLib.torque'], [('all, rejected', p_bad)], clauses='unknown translations are rejected'),
    Unit('transposed moves', ['rotations.rotate_qlm_Ds_right', 'translationRecurs.apply_trans_mat_right'], [('all L and matrices', p_adjoint)],
         clauses='lemma: the functions ending in _right multiply by the transposed matrices'),
] + [Unit('torque '+t, ['multipoleLib.torque', 'rotations.rotate_qlm_Ds_right', 'translationRecurs.apply_trans_mat_right'],
          [('all L, moments, angles and displacements', p_move_all(t)), ('bounded: L <= 2, all moments, angles and displacements', p_move(t, 2))], rt_move(t), n=40, budget=800,
          clauses='order by order, the torque of the moved body') for t in TYPES]
