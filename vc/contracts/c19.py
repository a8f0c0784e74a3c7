"""C19: arguments are left alone, results are new, calls repeat

Every function is run on arbitrary arrays.  Afterwards: no store reached an
argument, no returned array is (a view of) an argument, no state of any module
changed - globals, default arguments, attributes of functions and closures -
and a second call, after the first result was overwritten, gives the values
of the first."""
import functools
import types
from .common import *
from . import c06, c07, c08, c09, c10, c12, c13
from .c09 import dmats, ANG
from .c10 import tmats, D3, TT

L, = nat('L')
NA, NB = nat('M', 'N')
AL, TH, CN = reals('alpha', 'theta', 'cnst')
LMB, = pos('lmbd')
X, Y, Z = reals('x', 'y', 'z')
JUNK, = reals('junk')


# -------------------------------------------------------------- hidden state
def freeze(v, depth=0):
    """what can be told apart about a value"""
    if isinstance(v, A.SArr):
        return ('arr', id(v), len(v.recs), None if v.cells is None else tuple((q, id(w)) for q, w in v.cells.items()))
    if isinstance(v, dict):
        return ('dict', id(v), tuple((repr(k), freeze(w, depth+1)) for k, w in v.items())) if depth < 4 else id(v)
    if isinstance(v, (list, tuple, set)):
        return (type(v).__name__, id(v), tuple(freeze(w, depth+1) for w in v)) if depth < 4 else id(v)
    if isinstance(v, types.FunctionType):
        cl = tuple(freeze(c.cell_contents, depth+1) for c in v.__closure__ or () if c is not None) if depth < 3 else ()
        return ('fn', id(v), freeze(v.__defaults__, 1), freeze(v.__kwdefaults__, 1), tuple((k, freeze(w, 2)) for k, w in v.__dict__.items()), cl)
    if isinstance(v, type) and v.__module__.startswith('newt'):
        return ('class', id(v), tuple((k, freeze(w, depth+1)) for k, w in sorted(vars(v).items()) if not k.startswith('__')))
    if isinstance(v, (int, Q, Ex, str)):
        return repr(v)
    if isinstance(v, functools._lru_cache_wrapper):
        return ('cache', tuple(v.cache_info()))
    return id(v)


def state(loader):
    return {n: {k: freeze(v) for k, v in vars(m).items() if not k.startswith('__') and not k.startswith('_vc_')}
            for n, m in loader.mods.items()}


def arrays(r):
    if isinstance(r, A.SArr):
        return [r]
    if isinstance(r, (tuple, list)):
        return [a for v in r for a in arrays(v)]
    if isinstance(r, A.SymList):
        raise E.Unsupported('a symbolic list')
    return []


def scalars(r):
    if isinstance(r, (tuple, list)):
        return [a for v in r for a in scalars(v)]
    return [] if isinstance(r, A.SArr) else [r]


def generic(a):
    """an arbitrary position of a"""
    q = []
    for n in a.shape:
        v = CTX.fresh('p', 'nat')
        CTX.assume(lt(v, to_ex(n)))
        q.append(v)
    return q


def roots(args):
    return [x for v in args for x in arrays(v) if x is not None]


def stable(mod, fn, mk, contracts=None, pre=(), again=False):
    """proof of the contract above for mod.fn on the arguments mk().  With
    again, the second call is evaluated as well; without, its agreement is
    the consequence of the other clauses: the arguments are as before, no
    module holds anything new, and the library functions the code may call
    are functions of their arguments (anything else has no contract)"""
    def go(ob):
        def thunk():
            ld = load.Loader(dict(contracts or {}))
            f = getattr(ld.load(mod), fn)
            args = mk()
            ins = roots(a for a in args if not isinstance(a, A.SymList))
            s0 = state(ld)
            r1 = f(*args)
            out = [('frame', untouched(*ins)), ('no state kept', state(ld) == s0)]
            arrs = arrays(r1)
            out.append(('fresh', all(a.root() is not b.root() for a in arrs for b in ins)))
            pos, first = [], []
            for a in arrs if again else []:
                q = generic(a)
                pos.append(q)
                first.append(to_ex(a.read(q)))
            sc = scalars(r1)
            for a in arrs:
                if a.parent is None:
                    a.assign_all(lambda q: JUNK)
            out.append(('a later change of the result leaves the arguments', untouched(*ins)))
            if not again:
                return out
            r2 = f(*args)
            a2 = arrays(r2)
            out.append(('repeat', len(a2) == len(arrs) and all(
                S.prove_zero(to_ex(a.read(q))-v) for a, q, v in zip(a2, pos, first))))
            out.append(('repeat scalar', len(sc) == len(scalars(r2)) and all(
                x is y or S.prove_zero(to_ex(x)-to_ex(y)) for x, y in zip(sc, scalars(r2)))))
            out.append(('second result is another array', all(a.root() is not b.root() for a in a2 for b in arrs)))
            out.append(('frame again', untouched(*ins) and state(ld) == s0))
            return out
        ob.paths(f'{mod}.{fn}', thunk, pre=pre)
    return go


# ---------------------------------------------------------------- the functions
def cl(name, n=None):
    return arr_in(name, 4) if n is None else arr_in(name, n, 4)


def qa(name, Lx=L):
    return arr_in(name, to_ex(Lx)+1, 2*to_ex(Lx)+1, kind='c')


def vec(name):
    return arr_in(name, 3)


def fresh_q(nm):
    """contract of a function returning a new array of moments"""
    def f(q, *a, **k):
        src_ = q.snap()
        # a new array determined by the arguments
        return A.SArr([L+1, 2*L+1], lambda i: E.atom_ex(E.atom('el', nm, tuple(
            E.to_exp(to_ex(k)) for k in i), True, False), 1)*src_([i[0], i[1]]), 'c', name=nm)
    return f


CG = {'clebschGordan.cgCoeff': c10.cg_contract}
MATS = {'rotations.wignerDl': lambda n, *a: dmats(to_ex(n)+1),
        **{'translationRecurs.transl_newt_z_'+k: (lambda n, *a: tmats(to_ex(n)+1)) for k in ('RR', 'SS', 'SR')}}
MOVE = {**MATS, 'rotations.rotate_qlm_Ds': fresh_q('rot'), 'rotations.rotate_qlm_Ds_right': fresh_q('rotr'),
        'translationRecurs.apply_trans_mat': fresh_q('app'), 'translationRecurs.apply_trans_mat_right': fresh_q('appr')}
NZ = [lt(0, D3[0]*D3[0]+D3[1]*D3[1]+D3[2]*D3[2])]


def given(name, vals):
    """an input array of the given values"""
    return A.SArr([len(vals)], lambda q: vals[int(A.con(to_ex(q[0])))], 'f', name=name)


def dvec():
    return given('disp', list(D3))


def zvec():
    return given('zero', [E.ZERO]*3)


EUL = c13.EU


def mats_list(n, m):
    return [m(k) for k in range(n)]


def P(mod, fn, variants, contracts=None, pre=(), again=False):
    """variants: [(mk, pre)]"""
    def go(ob):
        for v in variants:
            mk, p = v[0], (v[1] if len(v) > 1 else ())
            stable(mod, fn, mk, contracts, list(pre)+list(p), again)(ob)
    return go


TABLE = []


HEAVY = {'translations', 'rotations.dlmn', 'rotations.rotate_H_recurs', 'rotations.wignerDl', 'translationRecurs.transl_newt_z_RR',
         'translationRecurs.transl_newt_z_SS', 'translationRecurs.transl_newt_z_SR', 'multipoleLib.force_basis',
         'multipoleLib.multipole_force', 'multipoleLib.multipole_force_m'}


def add(mod, fn, variants, contracts=None, pre=(), label='all arguments', values=None):
    again = mod not in HEAVY and f'{mod}.{fn}' not in HEAVY
    TABLE.append((mod, fn, ([('all arguments', pieces(values))] if values else [])+[(label, P(mod, fn, variants, contracts, pre, again))]))


two = [(lambda: (cl('a'), cl('b')),), (lambda: (cl('a'), cl('b', NB)),)]
four = [(lambda i=i, j=j: (cl('a', i), cl('b', j)),) for i in (None, NA) for j in (None, NB)]
FORCE = {'glib.gmmr2_array': lambda a, b: A.asarr([E.ONE*JUNK]*3), 'glib.yukawa_array': lambda a, b, *k: A.asarr([E.ONE*JUNK]*3)}
add('glib', 'gmmr2_array', two)
add('glib', 'yukawa_array', [(lambda v=v: v[0]()+(AL, LMB),) for v in two])
add('glib', 'point_matrix_gravity', four, FORCE)
add('glib', 'point_matrix_yukawa', [(lambda v=v: v[0]()+(AL, LMB),) for v in four], FORCE)
add('glib', 'translate_point_array', [(lambda n=n: (cl('a', n), vec('t')),) for n in (None, NA)])
add('glib', 'rotate_point_array', [(lambda n=n: (cl('a', n), TH, vec('u')), [lt(0, X*X)]) for n in (None, NA)])
l_, m_ = nat('l', 'm')
for fn in ('qmoment', 'Qmomentb'):
    add('pg2Multi', fn, [(lambda: (l_, m_, cl('p', NA)), [le(m_, l_)])])
add('pg2Multi', 'imoment', [(lambda: (l_, m_, LMB, cl('p', NA)), [le(m_, l_)])])
for fn in ('qmoments', 'Qmomentsb'):
    add('pg2Multi', fn, [(lambda: (L, cl('p', NA)),)])
add('pg2Multi', 'imoments', [(lambda: (L, LMB, cl('p', NA)),)])
K_, = nat('K')
add('multipoleLib', 'embed_qlm', [(lambda: (qa('q'), K_),)])
add('multipoleLib', 'torque_lm', [(lambda: (qa('q'), qa('Q'), CN),)])
add('multipoleLib', 'torques_at_angle', [(lambda o=o: (arr_in('tc', L+1, kind='c'), arr_in('ts', L+1, kind='c'), arr_in('phi', NA), o),)
                                         for o in (False, True)])
add('multipoleLib', 'torque', [(lambda t=t: (qa('q'), qa('Q'), given('euler', list(EUL)), d(), t, CN), p)
                               for t in ('inner-inner', 'inner-outer', 'outer-outer')
                               for d, p in ((dvec, NZ), (zvec, []))], MOVE)
for sfx in ('', '_right'):
    add('rotations', 'rotate_qlm_Ds'+sfx, [(lambda c=c: (qa('q'), dmats(L+1), c),) for c in (False, True)])
    add('translationRecurs', 'apply_trans_mat'+sfx, [(lambda c=c: (qa('q'), tmats(L+1), c),) for c in (False, True)])
add('rotations', 'rotate_qlm', [(lambda: (qa('q'),)+ANG,)], MATS)
for fn in ('translate_qlm', 'translate_Qlmb', 'translate_q2Q'):
    add('translations', fn, [(lambda: (qa('q'), dvec()), NZ)]+(
        [] if fn == 'translate_q2Q' else [(lambda: (qa('q'), zvec()),)]), CG)
    add('translationRecurs', fn, [(lambda: (qa('q'), dvec()), NZ), (lambda: (qa('q'), zvec()),)], MOVE)
for fn in ('cart_2_cyl', 'cyl_2_cart'):
    add('glibShapes', fn, [(lambda: (arr_in('a', NA, 3),),)])


class Watch(core.Prover):
    """the pieces of another proof, on each of which no module may change"""

    def paths(self, label, thunk, pre=(), want=None):
        mine = []

        def run():
            lds = list(load.LIVE)
            s0 = [state(x) for x in lds]
            n0 = len(load.LIVE)
            r = thunk()
            ok = [state(x) for x in lds] == s0
            # modules loaded by the thunk: as loaded afresh
            for x in load.LIVE[n0:]:
                y = load.Loader(x.contracts, x.cut)
                for m in x.mods:
                    y.load(m)
                ok = ok and shallow(x) == shallow(y)
            del load.LIVE[n0:]
            mine.append(ok)
            return r
        super().paths(label, run, pre, want)
        self.states = getattr(self, 'states', [])+[(label, mine)]


def shallow(ld):
    return {n: sorted(k for k in vars(m) if not k.startswith('_')) for n, m in ld.mods.items()}


def pieces(proof):
    """functions of numbers, by the proof of their values (piece by piece, loop
    invariants included): every piece leaves all modules as they were, so the
    arrays returned are made by the call and a second call repeats it"""
    def go(ob):
        del load.LIVE[:]
        w = Watch()
        try:
            proof(w)
        except (E.Unsupported, Exception) as e:
            raise E.Structure(f'the proof of the values: {e}')
        if w.failed:
            raise E.Structure(f'the proof of the values: {w.failed[0]}')
        for label, oks in w.states:
            ob.record(label+':no state kept', bool(oks) and all(oks))
    return go


# recursions, without bound and as a fallback
B1 = E.angle('be1')
for fn in ('dlmn', 'rotate_H_recurs'):
    add('rotations', fn, [(lambda n=n: (n, B1), [lt(0, B1), lt(B1, E.PI)]) for n in range(4)], label='bounded: L <= 3',
        values=c09.p_H if fn == 'rotate_H_recurs' else c09.p_scaled(fn))
add('rotations', 'wignerDl', [(lambda n=n: (n, ANG[0], B1, ANG[2]), [lt(0, B1), lt(B1, E.PI)]) for n in range(4)], label='bounded: L <= 3',
    values=c09.p_scaled('wignerDl'))
DR, = pos('dr')
for k in ('RR', 'SS', 'SR'):
    add('translationRecurs', 'transl_newt_z_'+k, [(lambda n=n: (n, DR),) for n in range(5)], label='bounded: L <= 4', values=c10.p_coax(k))
add('multipoleLib', 'force_basis', [(lambda n=n: (n, X, Y, Z), [lt(0, X*X+Y*Y+Z*Z)]) for n in range(4)], label='bounded: L <= 3',
    values=c12.p_basis_all)
for fn in ('multipole_force', 'multipole_force_m'):
    add('multipoleLib', fn, [(lambda n=n: (n, qa('q', n), qa('Q', n), X, Y, Z, CN), [lt(0, X*X+Y*Y+Z*Z)]) for n in range(3)],
        label='bounded: L <= 2', values=c12.p_force(fn))


# ------------------------------------------------------- moments of solids
def p_moments(ob):
    """functions of numbers only: no state, a new array each time"""
    def one(mod, fn, mk, pre):
        def thunk():
            ld = load.Loader()
            f = getattr(ld.load(mod), fn)
            s0 = state(ld)
            r1 = f(*mk())
            a, b = arrays(r1), arrays(f(*mk()))
            return [('no state kept', state(ld) == s0), ('new array', all(x.root() is not y.root() for x in a for y in b))]
        ob.paths(f'{mod}.{fn}', thunk, pre=pre)
    for fn, s in c06.SOLIDS.items():
        one('qlm', fn, lambda: s['args'](L), s['pre'])
    for fn, cs in c07.BODY.items():
        for args, pre, _ in cs:
            one('qlmACH', fn, lambda: (L, c07.RHO)+tuple(args), pre)
    one('bigQlm', 'sphere', lambda: (L, c08.DENS, c08.R, c08.x, c08.y, c08.z), [lt(0, c08.x*c08.x+c08.y*c08.y+c08.z*c08.z)])
    one('bigQlm', 'annulus', lambda: (L, c08.DENS, c08.H, c08.r0, c08.r1, c08.phic, c08.phih),
        [lt(c08.r0, c08.r1), lt(0, c08.phih), le(c08.phih, E.PI)])


# -------------------------------------------------------------------- runtime
def flat(r):
    if isinstance(r, (list, tuple)):
        return [a for v in r for a in flat(v)]
    return [r]


def copy_of(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, (list, tuple)):
        return type(v)(copy_of(x) for x in v)
    return v


def same(a, b):
    a, b = flat(a), flat(b)
    return len(a) == len(b) and all(np.array_equal(np.asarray(x), np.asarray(y), equal_nan=np.asarray(x).dtype.kind in 'fc')
                                    for x, y in zip(a, b))


def check(key, f, args, others):
    """the contract on one history: call, overwrite the result, call with
    other arguments, call again"""
    inputs = copy_of(list(args))
    arrs = [a for a in flat(list(args)) if isinstance(a, np.ndarray)]
    r1 = f(*args)
    if not same(inputs, list(args)):
        return Case(key, inputs, False, 'an argument was modified')
    out = [a for a in flat(r1) if isinstance(a, np.ndarray)]
    for o in out:
        if any(np.shares_memory(o, a) for a in arrs):
            return Case(key, inputs, False, 'the result shares memory with an argument')
    keep = copy_of(r1) if not isinstance(r1, (int, float, complex)) else r1
    for o in out:
        if not o.flags.writeable:
            return Case(key, inputs, False, 'the result cannot be written')
        o[...] = 7
    if not same(inputs, list(args)):
        return Case(key, inputs, False, 'an argument changes with the result')
    for others in ([], others):
        for o in others:
            attempt(f, *o)
        r2 = f(*args)
        if not same(inputs, list(args)):
            return Case(key, inputs, False, 'an argument was modified by the second call')
        if not same(keep, r2):
            return Case(key, inputs, False, 'the second call differs from the first')
        for o in flat(r2):
            if isinstance(o, np.ndarray):
                o[...] = 7
    return Case(key, inputs, True)


def runner(mod, fn, gen):
    def go(g, n, hints):
        f = getattr(real(mod), fn)
        for i in range(n):
            with np.errstate(all='ignore'):
                try:
                    yield check(fn, f, gen(g, i), [gen(g, i+j) for j in range(3)])
                except Exception as e:
                    yield Case(fn, i, False, f'raises {e!r}')
    return go


def R_pt(g, i):
    return cloud(g, g.choice([1, 2, 5]), 3.)


def R_one(g, i):
    p = R_pt(g, i)
    return p[0] if i % 3 == 0 else p


def R_q(g, Lx, herm=True):
    return c10.any_q(g, Lx, herm)


def R_d(g, i):
    d = [g.choice([0., g.uniform(-2, 2)]) for _ in range(3)]
    if i % 4 == 0:
        d = [0., 0., g.uniform(.5, 2)]
    if not any(d):
        d[i % 3] = 1.5
    return np.array(d)


def R_eu(g):
    return tuple(g.choice([0., math.pi, g.uniform(-7, 7)]) for _ in range(3))


def R_W(g, n):
    return [np.array([[complex(g.uniform(-1, 1), g.uniform(-1, 1)) for _ in range(2*k+1)] for _ in range(2*k+1)]) for k in range(n)]


def R_T(g, n):
    return [np.array([[g.uniform(-1, 1) for _ in range(n-k)] for _ in range(n-k)]) for k in range(n)]


def deg(g, top=5):
    return g.randint(0, top)


def with_q(k):
    def f(g, i):
        return k(g, i, deg(g))
    return f


def zero_d(g, i):
    return np.zeros(3) if i % 5 == 4 else R_d(g, i)


RT = {
    'glib.gmmr2_array': lambda g, i: (cloud(g, 1)[0], R_one(g, i)),
    'glib.yukawa_array': lambda g, i: (cloud(g, 1)[0], R_one(g, i), g.uniform(.1, 2), g.uniform(.1, 2)),
    'glib.point_matrix_gravity': lambda g, i: (R_one(g, i), R_one(g, i+1)),
    'glib.point_matrix_yukawa': lambda g, i: (R_one(g, i), R_one(g, i+1), g.uniform(.1, 2), g.uniform(.1, 2)),
    'glib.translate_point_array': lambda g, i: (R_one(g, i), zero_d(g, i)),
    'glib.rotate_point_array': lambda g, i: (R_one(g, i), g.choice([0., g.uniform(-7, 7)]), R_d(g, i)),
    'pg2Multi.qmoment': lambda g, i: (3, 1, R_pt(g, i)), 'pg2Multi.Qmomentb': lambda g, i: (3, 1, R_pt(g, i)),
    'pg2Multi.imoment': lambda g, i: (3, 1, .7, R_pt(g, i)),
    'pg2Multi.qmoments': lambda g, i: (deg(g), R_pt(g, i)), 'pg2Multi.Qmomentsb': lambda g, i: (deg(g), R_pt(g, i)),
    'pg2Multi.imoments': lambda g, i: (deg(g), .8, R_pt(g, i)),
    'multipoleLib.embed_qlm': with_q(lambda g, i, n: (R_q(g, n), n if i % 3 == 0 else deg(g))),
    'multipoleLib.torque_lm': with_q(lambda g, i, n: (R_q(g, n), R_q(g, n))),
    'multipoleLib.torques_at_angle': with_q(lambda g, i, n: (R_q(g, n)[0, :n+1].copy()+1, R_q(g, n)[0, :n+1].copy()+2j,
                                                             np.array([g.uniform(-4, 4) for _ in range(3)]), i % 2 == 0)),
    'multipoleLib.torque': with_q(lambda g, i, n: (R_q(g, n), R_q(g, n), R_eu(g), zero_d(g, i+i//3),
                                                   ('inner-inner', 'inner-outer', 'outer-outer')[i % 3])),
    'rotations.rotate_qlm': with_q(lambda g, i, n: (R_q(g, n),)+R_eu(g)),
    'glibShapes.cart_2_cyl': lambda g, i: (R_pt(g, i)[:, 1:4].copy(),), 'glibShapes.cyl_2_cart': lambda g, i: (R_pt(g, i)[:, 1:4].copy(),),
    'rotations.dlmn': lambda g, i: (deg(g, 7), R_eu(g)[0]), 'rotations.rotate_H_recurs': lambda g, i: (deg(g, 7), abs(R_eu(g)[0]) % 3.1),
    'rotations.wignerDl': lambda g, i: (deg(g, 7),)+R_eu(g),
    'multipoleLib.force_basis': lambda g, i: (deg(g), *R_d(g, i)),
}
for s_ in ('', '_right'):
    RT['rotations.rotate_qlm_Ds'+s_] = with_q(lambda g, i, n: (R_q(g, n), R_W(g, n+1 if i % 5 else n+2), i % 2 == 0))
    RT['translationRecurs.apply_trans_mat'+s_] = with_q(lambda g, i, n: (R_q(g, n), R_T(g, n+1), i % 2 == 0))
for k_ in ('RR', 'SS', 'SR'):
    RT['translationRecurs.transl_newt_z_'+k_] = lambda g, i: (deg(g, 7), g.uniform(.2, 3))
for k_ in ('SR', 'RR'):
    RT[f'translationRecurs.transl_yuk_z_{k_}_recurs'] = lambda g, i: (deg(g, 5), g.uniform(.2, 3), g.uniform(.2, 3))
for k_ in ('translate_qlm', 'translate_Qlmb', 'translate_q2Q'):
    RT['translations.'+k_] = with_q(lambda g, i, n, k_=k_: (R_q(g, n), R_d(g, i) if k_ == 'translate_q2Q' else zero_d(g, i)))
    RT['translationRecurs.'+k_] = with_q(lambda g, i, n, k_=k_: (R_q(g, n), R_d(g, i) if k_ == 'translate_q2Q' else zero_d(g, i)))
for k_ in ('multipole_force', 'multipole_force_m'):
    RT['multipoleLib.'+k_] = with_q(lambda g, i, n: (n, R_q(g, n), R_q(g, n), *R_d(g, i)))


def rt_solids(g, n, hints):
    U = lambda: g.uniform(.3, 2)
    shp = {
        'sphere': lambda: (U(), U(), 4), 'rectangle': lambda: (U(), U(), U(), U(), 2, 3, 2),
        'annulus': lambda: (U(), .3, 1+U(), U(), 4, 2), 'cone': lambda: (U(), U(), U(), 1., 4, 3),
        'wedge': lambda: (U(), .4, 1+U(), U(), .7, 4, 2), 'trapezoid': lambda: (U(), .4, 1+U(), U(), .7, 4, 2),
        'tri_prism': lambda: (U(), U(), -U(), U(), U(), 4, 4, 2), 'ngon_prism': lambda: (U(), U(), U(), 5, 4, 2),
    }
    for i in range(n):
        for k, a in shp.items():
            yield check('glibShapes.'+k, getattr(real('glibShapes'), k), a(), [a()])
        for fn in c06.SOLIDS:
            a = lambda: (g.randint(0, 6),)+c06.GEN[fn](g)[0]
            yield check('qlm.'+fn, getattr(real('qlm'), fn), a(), [a()])
        for fn in c07.BODY:
            a = lambda: (g.randint(0, 6), U())+c07.GEN[fn](g)[0]
            yield check('qlmACH.'+fn, getattr(real('qlmACH'), fn), a(), [a()])


UNITS = []
for mod, fn, proofs in TABLE:
    k = f'{mod}.{fn}'
    UNITS.append(Unit(k, [k], proofs, runner(mod, fn, RT[k]) if k in RT else None, n=12, budget=300,
                      clauses='arguments untouched, result new, no state kept, second call equal'))
for k in RT:
    if k not in {f'{m}.{f}' for m, f, _ in TABLE}:
        UNITS.append(Unit(k, [k], [], runner(*k.split('.'), RT[k]), n=12, clauses='runtime contract only'))
UNITS.append(Unit('moments and models of solids', ['qlm.*', 'qlmACH.*', 'bigQlm.*'], [('all arguments', p_moments)], rt_solids, n=3, budget=300,
                  clauses='no state kept, a new array each time'))
