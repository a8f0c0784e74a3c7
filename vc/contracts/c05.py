"""C05: layout, symmetry and prefix property of every moment array

The obligations compare the function with itself: nothing here depends on what
the moments are, only on where they are stored."""
from .common import *
from .. import quadc as K
from . import c06, c07, c08, c22, c09, c10
from .c09 import W, dmats

L, M_ = nat('L', 'Lsmall')
NB, = nat('N')
RHO = c07.RHO
LMB, = pos('lmbd')


def layout(r, Lx, herm=True):
    """shape, zeros beyond, symmetry"""
    Ln = to_ex(Lx)
    out = []
    sh = [to_ex(s) for s in r.shape]
    out.append(('shape', len(sh) == 2 and S.prove_zero(sh[0]-Ln-1) and S.prove_zero(sh[1]-2*Ln-1)))
    out.append(('complex', r.kind == 'c'))
    if not out[0][1]:
        return out
    l, m = CTX.fresh('l', 'nat'), CTX.fresh('m', 'nat')
    CTX.assume(le(l, Ln))

    def mirror():
        CTX.assume(le(m, l))
        a, b = to_ex(r.read([l, Ln+m])), to_ex(r.read([l, Ln-m]))
        return S.prove_zero(b-spec.pw(Ex.const(-1), m)*E.conj(a))

    def zero(sg):
        def f():
            CTX.assume(le(m, Ln))
            CTX.assume(lt(l, m))
            return S.prove_zero(to_ex(r.read([l, Ln+sg*m])))
        return f
    return out+run([('beyond +', zero(1)), ('beyond -', zero(-1))]+([('mirror', mirror)] if herm else []))


def run(fs):
    out = []
    for nm, f in fs:
        for pc, rr, _ in CTX.explore(f):
            ok = rr[0] == 'ok' and bool(rr[1])
            if not ok and C.check_sat(CTX.pcs()+pc) == 'unsat':
                continue
            out.append((nm, ok))
    return out


def prefix(a, La, b, Lb):
    """every moment of b (degree Lb) is the moment of a (degree La >= Lb)"""
    l, m = CTX.fresh('l', 'nat'), CTX.fresh('m', 'nat')
    CTX.assume(le(l, Lb))
    CTX.assume(le(m, l))

    def f(s):
        return lambda: S.prove_zero(to_ex(a.read([l, to_ex(La)+s*m]))-to_ex(b.read([l, to_ex(Lb)+s*m])))
    return run([('prefix +', f(1)), ('prefix -', f(-1))])


def moments_proof(mod, calls, ctxm=None):
    """calls: [(args of (L, ...), preconditions)]"""
    fn, lst = calls

    def go(ob):
        f = getattr(src(mod), fn)

        def call(*a):
            if ctxm is None:
                return f(*a)
            with ctxm():
                return f(*a)
        for mk, pre in lst:
            def thunk():
                big = call(*mk(L))
                return layout(big, L)+prefix(big, L, call(*mk(M_)), M_)
            ob.paths(fn, thunk, pre=pre+[le(M_, L)])
    return go


def tabulated_proof(mod, calls, top):
    """the source lists the moments to degree top one by one: those are
    compared one by one, every other entry is zero; degrees below top are
    enumerated"""
    fn, lst = calls

    def go(ob):
        f = getattr(src(mod), fn)
        for mk, pre in lst:
            def thunk():
                CTX.assume(le(top, L))
                out, ref = [], f(*mk(L))

                def look(r, Lx, upto):
                    Ln = to_ex(Lx)
                    sh = [to_ex(s) for s in r.shape]
                    out.append(('shape', len(sh) == 2 and S.prove_zero(sh[0]-Ln-1) and S.prove_zero(sh[1]-2*Ln-1)))
                    out.append(('complex', r.kind == 'c'))
                    for l in range(upto+1):
                        for m in range(upto+1):
                            a, b = to_ex(r.read([l, Ln+m])), to_ex(r.read([l, Ln-m]))
                            if m > l:
                                out.append(('beyond', S.prove_zero(a) and S.prove_zero(b)))
                                continue
                            out.append(('mirror', S.prove_zero(b-(-1)**m*E.conj(a))))
                            if r is not ref:
                                out.append(('prefix', S.prove_zero(a-to_ex(ref.read([l, L+m])))))
                look(ref, L, top)
                l, m = CTX.fresh('l', 'nat'), CTX.fresh('m', 'nat')
                CTX.assume(le(l, L))
                CTX.assume(le(m, L))

                def rest(s, c):
                    def g():
                        CTX.assume(c)
                        return S.prove_zero(to_ex(ref.read([l, L+s*m])))
                    return g
                out.extend(run([('higher degrees', rest(s, c)) for s in (1, -1) for c in (lt(top, l), lt(top, m))]))
                for k in range(top):
                    look(f(*mk(k)), k, k)
                return out
            # the moments up to the top degree do not depend on L >= top:
            # the entries read above are free of it
            ob.paths(fn, thunk, pre=pre)

            def free():
                CTX.assume(le(top, M_))
                CTX.assume(le(M_, L))
                a, b = f(*mk(L)), f(*mk(M_))
                return [(f'prefix {l},{m}', S.prove_zero(to_ex(a.read([l, L+m]))-to_ex(b.read([l, M_+m]))))
                        for l in range(top+1) for m in range(-l, l+1)]
            ob.paths(fn+' any two degrees', free, pre=pre)
    return go


# --------------------------------------------------------------- point masses
def cloud_proof(fn, yuk):
    def go(ob):
        f = getattr(src('pg2Multi'), fn)

        def thunk():
            p = arr_in('p', NB, 4)
            a = (LMB, p) if yuk else (p,)
            if fn == 'Qmomentsb':
                i = CTX.fresh('i', 'nat')
                CTX.assume(lt(i, NB))
            big = f(L, *a)
            return layout(big, L)+prefix(big, L, f(M_, *a), M_)+[('frame', untouched(p))]
        ob.paths(fn, thunk, pre=[le(M_, L)])
    return go


# ---------------------------------------------------- rotations, translations
def herm(name, Lx):
    """moments of a real body: |m| > l zero, q(l,-m) = (-1)^m conj q(l,m)"""
    def at(l, m):
        return E.atom_ex(E.atom('el', name, (E.to_exp(l), E.to_exp(m)), True, False), 1)

    def base(q):
        l, m = to_ex(q[0]), to_ex(q[1])-Lx
        if CTX.decide(lt(l, m)) or CTX.decide(lt(l, -m)):
            return E.ZERO
        if CTX.decide(eq(m, 0)):
            v = at(l, m)
            return (v+E.conj(v))/2
        if CTX.decide(lt(0, m)):
            return at(l, m)
        return spec.pw(Ex.const(-1), m)*E.conj(at(l, -m))
    return A.SArr([to_ex(Lx)+1, 2*to_ex(Lx)+1], base, 'c', name=name)


def p_translate(fn):
    def go(ob):
        f = getattr(src('translations', {'clebschGordan.cgCoeff': c10.cg_contract}), fn)

        def thunk():
            q = arr_in('q', L+1, 2*L+1, kind='c')
            r = f(q, c10.D3)
            out = layout(r, L, herm=fn != 'translate_q2Q')
            if fn == 'translate_qlm':
                # the moments to a lower degree do not depend on the higher ones
                k = A.SArr([M_+1, 2*M_+1], lambda i: q.read([i[0], to_ex(i[1])+L-M_]), 'c', name='qsmall')
                out += prefix(r, L, f(k, c10.D3), M_)
            return out
        ob.paths(fn, thunk, pre=c10.away()+[le(M_, L)])
    return go


def p_rotated(ob):
    """rotate_qlm, rotate_qlm_Ds: zeros beyond and prefix for any matrices; the
    result is symmetric because term b of the sum for order -m is (-1)^m times
    the conjugate of term -b of the sum for order m (matrices with the symmetry
    of the Wigner matrices, lemma below)"""
    def wig(n, *ang):
        return dmats(to_ex(n)+1)
    m = src('rotations', {'rotations.wignerDl': wig})
    cases = {'rotate_qlm': lambda q, n: m.rotate_qlm(q, *c09.ANG)}
    for ct in (False, True):
        cases[f'rotate_qlm_Ds {ct}'] = lambda q, n, ct=ct: m.rotate_qlm_Ds(q, dmats(to_ex(n)+1), ct)
        cases[f'rotate_qlm_Ds_right {ct}'] = lambda q, n, ct=ct: m.rotate_qlm_Ds_right(q, dmats(to_ex(n)+1), ct)
    for nm, f in cases.items():
        def thunk():
            q = herm('q', L)
            r = f(q, L)
            out = layout(r, L, herm=False)
            k = A.SArr([M_+1, 2*M_+1], lambda i: q.read([i[0], to_ex(i[1])+L-M_]), 'c', name='qsmall')
            return out+prefix(r, L, f(k, M_), M_)
        ob.paths(nm, thunk, pre=[le(M_, L)])


def p_coaxial(ob):
    """apply_trans_mat keeps the layout and the symmetry, for any real matrices"""
    for fn, right in (('apply_trans_mat', False), ('apply_trans_mat_right', True)):
        f = getattr(src('translationRecurs'), fn)
        for flip in (False, True):
            ob.paths(f'{fn} {flip}', lambda: layout(f(herm('q', L), c10.tmats(L+1), flip), L))


def p_recurs(fn):
    """the callees keep the layout (obligations of their units), so does the
    composition; the matrices get the degree of the moments"""
    def go(ob):
        cnt = [0]

        def keep(nm, mats):
            def c(q, m, *a, **k):
                ob.record('precondition of '+nm, mats(m) and all(v for _, v in layout(q, L)))
                cnt[0] += 1
                return herm(f'{nm}{cnt[0]}', L)
            return c

        def sized(what):
            def g(n, *a):
                ob.record('degree handed to '+what, S.prove_zero(to_ex(n)-L))
                return (what, n)
            return g
        con = {'rotations.wignerDl': sized('wigner'),
               'rotations.rotate_qlm_Ds': keep('rotate_qlm_Ds', lambda m: m[0] == 'wigner'),
               'translationRecurs.apply_trans_mat': keep('apply_trans_mat', lambda m: m[0] == 'coaxial')}
        for kd in ('RR', 'SS', 'SR'):
            con['translationRecurs.transl_newt_z_'+kd] = sized('coaxial')
        f = getattr(src('translationRecurs', con), fn)
        Z, = pos('Zd')
        dirs = {'generic': c10.D3, '+z': [E.ZERO, E.ZERO, Z], '-z': [E.ZERO, E.ZERO, -Z]}
        if fn != 'translate_q2Q':
            dirs['zero'] = [E.ZERO]*3
        for nm, d in dirs.items():
            ob.paths(f'{fn} {nm}', lambda: layout(f(herm('q', L), d), L), pre=c10.away() if nm == 'generic' else [])
    return go


def p_symmetry(ob):
    l_, m_, n_ = c09.l_, c09.m_, c09.n_
    for nm, c in (('a>=b', le(n_, m_)), ('a<b', lt(m_, n_))):
        ob.paths(f'wigner {nm}', lambda: S.prove_zero(
            c09.d_entry(l_, -m_, -n_)-spec.pw(Ex.const(-1), m_-n_)*E.conj(c09.d_entry(l_, m_, n_))),
            pre=c09.inside(m_)+c09.inside(n_)+[c])

    # reversing the sum: with w(-a,-b) = (-1)^(a-b) conj w(a,b) and a symmetric q
    def term():
        at = lambda nm, i: E.atom_ex(E.atom('el', nm, tuple(E.to_exp(to_ex(k)) for k in i), True, False), 1)
        s = lambda e: spec.pw(Ex.const(-1), e)
        w, q = at('w', (l_, m_, n_)), at('q', (l_, n_))
        w2, q2 = s(m_-n_)*E.conj(w), s(n_)*E.conj(q)
        return S.prove_zero(w2*q2-s(m_)*E.conj(w*q))
    ob.paths('reversal', term)


# ------------------------------------------------------------------ embedding
def p_embed(ob):
    f = src('multipoleLib').embed_qlm
    K_, = nat('K')

    def thunk():
        q = arr_in('q', L+1, 2*L+1, kind='c')
        r = f(q, K_)

        def entry(l, j):
            m = to_ex(j)-K_
            inside = CTX.decide(le(l, L)) and CTX.decide(le(m, L)) and CTX.decide(le(-m, L))
            return q.read([l, L+m]) if inside else E.ZERO
        return same_array(r, [K_+1, 2*K_+1], entry)+[
            ('frame', untouched(q)), ('fresh', r is not q and fresh_result(r, q))]
    ob.paths('embed_qlm', thunk)


# -------------------------------------------------------------------- runtime
def num_layout(key, inputs, f, mk, Ls, tol=1e-9):
    """layout of f(mk(L)) for L in Ls (decreasing) and agreement between them"""
    res = []
    for Lx in Ls:
        st, got = attempt(f, *mk(Lx))
        if st == 'raise':
            return Case(key, inputs, False, f'L={Lx} raises {got!r}')
        got = np.asarray(got)
        if got.shape != (Lx+1, 2*Lx+1):
            return Case(key, inputs, False, f'L={Lx} shape {got.shape}')
        if got.dtype.kind != 'c':
            return Case(key, inputs, False, f'L={Lx} dtype {got.dtype}')
        for l in range(Lx+1):
            sc = np.max(np.abs(got[l]))+1e-300
            for m in range(Lx+1):
                a, b = got[l, Lx+m], got[l, Lx-m]
                if m > l and not (a == 0 and b == 0):
                    return Case(key, inputs, False, f'L={Lx} entry ({l},{m}) beyond the triangle')
                if not abs(b-(-1)**m*np.conj(a)) <= tol*sc:
                    return Case(key, inputs, False, f'L={Lx} moments ({l},+-{m}) {a} {b}')
        res.append(got)
    top, Lt = res[0], Ls[0]
    for got, Lx in zip(res[1:], Ls[1:]):
        for l in range(Lx+1):
            d = np.abs(top[l, Lt-l:Lt+l+1]-got[l, Lx-l:Lx+l+1])
            sc = np.max(np.abs(top[l]))+1e-300
            if not np.all(d <= tol*sc):
                return Case(key, inputs, False, f'degree {l} differs between L={Lt} and L={Lx}')
    return Case(key, inputs, True)


def degrees(g, top=9):
    Lt = g.randint(1, top)
    return [Lt]+sorted(g.sample(range(Lt), min(Lt, 3)), reverse=True)


def rt_closed(mod, fn, gen, slow=False):
    def go(g, n, hints):
        m = real(mod)
        f = getattr(m, fn)
        for _ in range(n):
            args = gen(g)
            Ls = degrees(g, 4 if slow else 14)
            if slow:
                with K.patched(m):
                    yield num_layout(fn, (Ls,)+args, f, lambda Lx: (Lx,)+args, Ls, 1e-6)
            else:
                yield num_layout(fn, (Ls,)+args, f, lambda Lx: (Lx,)+args, Ls)
    return go


def rt_cloud(fn):
    def go(g, n, hints):
        f = getattr(real('pg2Multi'), fn)
        for i in range(n):
            p = cloud(g, g.choice([1, 2, 6]), 2.)
            if i % 3 == 0:
                p[0, 1:3] = 0
            a = (g.uniform(.3, 3), p) if fn == 'imoments' else (p,)
            Ls = degrees(g, 12)
            yield num_layout(fn, (Ls,)+a, f, lambda Lx: (Lx,)+a, Ls)
    return go


def rt_move(mod, fn):
    def go(g, n, hints):
        m = real(mod)
        f = getattr(m, fn)
        for i in range(n):
            Ls = degrees(g, 7)
            big = c10.any_q(g, Ls[0], True)
            cut = lambda Lx: big[:Lx+1, Ls[0]-Lx:Ls[0]+Lx+1].copy()
            if mod == 'rotations':
                a = tuple(g.choice([0., math.pi, math.pi/2, g.uniform(-7, 7)]) for _ in range(3))
            else:
                d = [g.choice([0., g.uniform(-2, 2)]) for _ in range(3)]
                if not any(d):
                    d[i % 3] = g.choice([-1, 1])*g.uniform(.5, 2)
                a = (np.array(d),)
            if fn not in ('rotate_qlm', 'translate_qlm'):
                # every degree of the input enters: layout only
                Ls = Ls[:1]
            if fn.startswith('rotate_qlm_Ds'):
                ds = lambda Lx: real('rotations').wignerDl(Lx, *a)
                t = g.choice([True, False])
                yield num_layout(fn, (Ls, big, a, t), f, lambda Lx: (cut(Lx), ds(Lx), t), Ls, 1e-7)
            else:
                yield num_layout(fn, (Ls, big)+a, f, lambda Lx: (cut(Lx),)+a, Ls, 1e-7)
    return go


def rt_rotated(g, n, hints):
    for fn in ('rotate_qlm', 'rotate_qlm_Ds', 'rotate_qlm_Ds_right'):
        yield from rt_move('rotations', fn)(g, n//3, hints)


def rt_embed(g, n, hints):
    f = real('multipoleLib').embed_qlm
    for i in range(n):
        Lx, Kx = g.randint(0, 8), g.randint(0, 8)
        q = c10.any_q(g, Lx, g.random() < .5)
        if DEEP[0]:
            q = q*10.**g.choice([0, g.randint(-40, 40), g.randint(-200, 200)])
        w = np.zeros([Kx+1, 2*Kx+1], complex)
        t = min(Lx, Kx)
        w[:t+1, Kx-t:Kx+t+1] = q[:t+1, Lx-t:Lx+t+1]
        q0 = q.copy()
        c = eq_case('embed', (q, Kx), f, (q, Kx), w, 0)
        if c.ok:
            r = f(q, Kx)
            r[:] = 7
            c = Case('embed', (q0, Kx), bool(np.array_equal(q, q0)), 'the argument changes with the result')
        yield c


def closed():
    out = []
    for fn, s in c06.SOLIDS.items():
        out.append(('qlm', fn, [(s['args'], s['pre'])], None, lambda g, fn=fn: c06.GEN[fn](g)[0]))
    for fn, cs in c07.BODY.items():
        lst = [((lambda Lx, a=a: (Lx, RHO)+tuple(a)), pre) for a, pre, _ in cs]
        out.append(('qlmACH', fn, lst, 5, lambda g, fn=fn: (g.uniform(.1, 9),)+c07.GEN[fn](g)[0]))
    return out


UNITS = []
for mod, fn, lst, top, gen in closed():
    UNITS.append(Unit(f'{mod}.{fn}', [f'{mod}.{fn}'], [('all degrees and dimensions', moments_proof(mod, (fn, lst)) if top is None
                                                        else tabulated_proof(mod, (fn, lst), top))],
                      rt_closed(mod, fn, gen), n=6, budget=400,
                      clauses='(L+1)x(2L+1) complex, zero for |m|>l, conjugate symmetry, prefix of any larger degree'))


def g_ball(g):
    c = [g.uniform(-3, 3) for _ in range(3)]
    return (g.uniform(.1, 9), g.uniform(.1, 2), *c)


def g_ann(g):
    b = g.uniform(.5, 2)
    return (g.uniform(.1, 9), g.choice([1, -1])*g.uniform(.2, 2), b*g.uniform(.2, .9), b, g.uniform(-7, 7), g.uniform(.1, math.pi))


UNITS += [
    Unit('bigQlm.sphere', ['bigQlm.sphere'],
         [('all degrees and positions', moments_proof('bigQlm', ('sphere', [(
             lambda Lx: (Lx, c08.DENS, c08.R, c08.x, c08.y, c08.z),
             [lt(0, c08.x*c08.x+c08.y*c08.y+c08.z*c08.z)])])))], rt_closed('bigQlm', 'sphere', g_ball), n=8,
         clauses='layout, symmetry, prefix'),
    Unit('bigQlm.annulus', ['bigQlm.annulus'],
         [('all degrees and dimensions', tabulated_proof('bigQlm', ('annulus', [
             (lambda Lx, s=s: (Lx, c08.DENS, s*c08.H, c08.r0, c08.r1, c08.phic, c08.phih),
              [lt(c08.r0, c08.r1), lt(0, c08.phih), le(c08.phih, E.PI)]) for s in (1, -1)]), 5))],
         rt_closed('bigQlm', 'annulus', g_ann), n=8, budget=400, clauses='layout, symmetry, prefix')]

for mod, tab, gens, dens in (('qlmNum', c22.BODY, dict(c22.GEN), c22.RHO), ('bigQlmNum', c08.NUMB, dict(
        annulus=c08.G_ann, outer_cone=c08.G_cone, trapezoid=c08.G_trap), c22.RHO)):
    for fn, (args, pre, hk) in tab.items():
        UNITS.append(Unit(f'{mod}.{fn}', [f'{mod}.{fn}'],
                          [('all degrees and dimensions', moments_proof(mod, (fn, [(
                              lambda Lx, a=args, d=dens: (Lx, d)+tuple(a), pre)]),
                              lambda hk=hk: K.quad(K.hook(*hk))))],
                          rt_closed(mod, fn, lambda g, fn=fn, gens=gens: (g.uniform(.1, 9),)+gens[fn](g)[0], slow=True), n=3, budget=400,
                          clauses='layout, symmetry, prefix, given the quadrature'))

for fn in ('qmoments', 'Qmomentsb', 'imoments'):
    UNITS.append(Unit('pg2Multi.'+fn, ['pg2Multi.'+fn], [('all degrees and clouds', cloud_proof(fn, fn == 'imoments'))],
                      rt_cloud(fn), n=12, clauses='layout, symmetry, prefix, input untouched'))
for fn in ('translate_qlm', 'translate_Qlmb', 'translate_q2Q'):
    UNITS.append(Unit('translations.'+fn, ['translations.'+fn], [('all degrees and displacements', p_translate(fn))],
                      rt_move('translations', fn), n=6, budget=450, clauses='layout; symmetry; prefix for inner moments'))
    UNITS.append(Unit('translationRecurs.'+fn, ['translationRecurs.'+fn], [('all degrees and displacements, given the callees', p_recurs(fn))], rt_move('translationRecurs', fn), n=10,
                      clauses='layout and symmetry of the composition'))
UNITS += [
    Unit('rotated layout', ['rotations.rotate_qlm', 'rotations.rotate_qlm_Ds', 'rotations.rotate_qlm_Ds_right'],
         [('all degrees and matrices', p_rotated)], rt_rotated, n=24, clauses='zeros beyond, shape, prefix'),
    Unit('coaxial layout', ['translationRecurs.apply_trans_mat', 'translationRecurs.apply_trans_mat_right'],
         [('all degrees and matrices', p_coaxial)], clauses='layout and symmetry kept'),
    Unit('rotated symmetry', ['rotations.rotate_qlm'], [('all degrees and angles', p_symmetry)],
         clauses='lemma over the rotation contract: symmetric moments stay symmetric'),
    Unit('embed_qlm', ['multipoleLib.embed_qlm'], [('all degrees', p_embed)], rt_embed, n=60,
         clauses='moment (l,m) kept, zeros elsewhere, fresh result'),
]
