"""C16: MULTIN files

Moment files: the reader is run on files whose numbers are arbitrary.
Programs: the state of the reader is the length unit and two registers, Tot and
Wrk, each the moments of a body (a formal sum of moved solids).  Every command
is verified from arbitrary registers: the code is executed on `unit; load a;
puttotal; load b` (after which Tot = a and Wrk = b are arbitrary moments)
followed by the command with arbitrary numbers, and the registers and unit that
it leaves are read off by what follows.  Moments of solids, rotations and
translations are known by their contracts (C05 - C09)."""
from .common import *
from ..bodies import *   # noqa
from .. import textfile as T, loops as LP
import itertools
import os
import random
import tempfile

LM, = nat('LMax')
INCH, CM = Ex.const(Q(254, 10000)), Ex.const(Q(1, 100))
DEG = E.PI/180


# ----------------------------------------------------------------- contracts
def tr(*c):
    return list(c)


# solids: dimensions -> what the function documents as refused
REFUSES = {
    'qlm.annulus': lambda H, Ri, Ro, pc, ph: [le(H, 0), lt(Ri, 0), le(Ro, Ri), le(ph, 0), lt(E.PI, ph)],
    'qlm.sphere': lambda R: [le(R, 0)],
    'qlm.cone': lambda P, R, pc, ph: [le(P, 0), le(R, 0), le(ph, 0), lt(E.PI, ph)],
    'qlm.tri_prism': lambda H, d, y1, y2: [le(H, 0), eq(d, 0), eq(y1, y2)],
    'qlm.tri_iso_prism': lambda H, a, d, pc: [le(H, 0), eq(d, 0), le(a, 0)],
    'qlm.tri_iso_prism2': lambda H, R, pc, ph: [le(H, 0), le(R, 0), le(ph, 0), lt(E.PI/2, ph)],
    'qlm.rect_prism': lambda H, a, b, pc: [le(H, 0), le(a, 0), le(b, 0)],
    'qlm.tetrahedron': lambda x, y, z: [le(x, 0), le(y, 0), le(z, 0)],
    'qlm.pyramid': lambda x, y, z: [le(x, 0), le(y, 0), le(z, 0)],
    'qlmACH.platehole': lambda t, r, th: [le(t, 0), le(r, 0)],
    'qlmNum.platehole': lambda t, r, th: [le(t, 0), le(r, 0)],
    'qlmNum.steinmetz': lambda r, R: [le(r, 0), lt(R, r)],
}
DENSITY = ('qlmACH.platehole', 'qlmNum.platehole', 'qlmNum.steinmetz')      # take a density, not a mass


def piece(name, m, *a):
    """solid of the named function; m is its second argument (mass or density)"""
    return Solid(name, m, Z3, args=a)


Z3 = [E.ZERO]*3


def c_solid(name):
    def f(L, m, *a):
        a = [to_ex(v) for v in a]
        for c in REFUSES[name](*a):
            if CTX.decide(c):
                raise ValueError('Unphysical parameter arguments')
        return Mom(True, L, [piece(name, m, *a)])
    return f


def c_load(filename, filepath='C:\\mom\\'):
    """read_gsq: the moments in the file (its own unit below)"""
    if not filename.endswith('.gsq'):
        filename += '.gsq'
    p = filepath+filename
    if p not in MOMFILES:
        raise FileNotFoundError(p)
    L, name = MOMFILES[p]
    return Mom(True, L, [Solid(('file', name), 1, Z3)])


L2, = nat('L_other')
MOMFILES = {'/mom/a.gsq': (LM, 'a'), '/mom/b.gsq': (LM, 'b'), '/mom/create add.gsq': (LM, 'c'), '/mom/add_on.gsq': (LM, 'd'), '/mom/w.gsq': (L2, 'w')}
CONTRACTS = {'rotations.rotate_qlm': c_rotate, 'translations.translate_qlm': c_move('inner'), 'read_multiFor.read_gsq': c_load}
CONTRACTS.update({k: c_solid(k) for k in REFUSES})


class NP:
    """numpy, with arrays of moments as moments of no body"""

    def __init__(self, np_):
        self.np_ = np_

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self.np_, n)

    def zeros(self, shape, dtype=float, *a, **k):
        if isinstance(shape, (list, tuple)) and len(shape) == 2 and dtype in ('complex', complex, shim.NP.complex128):
            if not CTX.decide(eq(shape[1], 2*to_ex(shape[0])-1)):
                raise E.Unsupported('complex array that holds no moments')
            return Mom(True, to_ex(shape[0])-1, [])
        return self.np_.zeros(shape, dtype)

    def zeros_like(self, a, *k, **kw):
        return Mom(a.inner, a.lmax, []) if isinstance(a, Mom) else self.np_.zeros_like(a, *k, **kw)


def lib(files, **kw):
    m = src('read_multiFor', CONTRACTS, **kw)
    m.np = NP(m.np)
    T.install(m, files)
    return m


def run(lines, title='title', path='/mpc/', name='prog'):
    """registers are compared by the returned total"""
    files = {'/mpc/prog.mpc': '\n'.join([title]+list(lines))+'\n'}
    return lib(files).read_mpc(LM, name, path)


# ------------------------------------------------------- meaning of a program
class State:
    def __init__(self):
        self.u, self.tot, self.wrk = CM, [], []


def at(s, d, R=EYE):
    return s.moved(R, d)


def moved(body, R=EYE, d=(0, 0, 0)):
    return [s.moved(R, d) for s in body]


class Com:
    """a command: its text and what it does to the state"""

    def __init__(self, name, text, does):
        self.name, self.text, self.does = name, text, does


def n_(x):
    return T.numeral(x)


def row(*v):
    return ','.join(n_(x) for x in v)


K = iter(itertools.count())


def fresh(*names, kind='real'):
    i = next(K)
    return [E.sym(f'{n}_{i}', kind) for n in names]


def simple(name):
    def put(s): s.tot = list(s.wrk)
    def get(s): s.wrk = list(s.tot)
    def add(s): s.tot = s.tot+s.wrk
    def zer(s): s.tot = []
    def cm(s): s.u = CM
    def inch(s): s.u = INCH
    f = dict(puttotal=put, gettotal=get, add=add, zeroqlm=zer, cmin=cm, inchin=inch)
    f['nsteps 24'] = lambda s: None
    return Com(name, [name], f[name])


def load_(name, key):
    def does(s): s.wrk = [Solid(('file', key), 1, Z3)]
    return Com('load '+name, ['load '+name], does)


def rotate():
    a, b, c = fresh('alpha', 'beta', 'gamma')

    def does(s): s.wrk = moved(s.wrk, euler(a*DEG, b*DEG, c*DEG))
    return Com('rotate', ['rotate '+row(a, b, c)], does)


def translate():
    d = fresh('dx', 'dy', 'dz')

    def does(s): s.wrk = moved(s.wrk, d=[v*s.u for v in d])
    return Com('translate', ['translate '+row(*d)], does)


def create(shape, case=''):
    """(command, preconditions)"""
    rho, x, y, z = fresh('rho', 'px', 'py', 'pz')
    dims, pre, solid = SHAPES[shape+case]()

    def does(s):
        d = [v*s.u for v in (x, y, z)]
        if all(CTX.decide(eq(v, 0)) for v in d):
            d = [0, 0, 0]
        s.wrk = moved(solid(s.u, 1000*rho), d=d)
    c = Com('create '+shape+case, [f'create {shape} red', row(*dims), n_(rho), row(x, y, z)], does)
    c.pre = pre
    return c


def s_cylinder():
    Ri, Ro, H = fresh('Ri', 'Ro', 'H', kind='pos')
    p0, p1 = fresh('phi0', 'phi1')

    def solid(u, rho):
        ph = (p1-p0)*DEG/2
        return [piece('qlm.annulus', rho*ph*H*(Ro**2-Ri**2)*u**3, H*u, Ri*u, Ro*u, (p1+p0)*DEG/2, ph)]
    return [Ri, Ro, H, p0, p1], [lt(Ri, Ro), lt(p0, p1), le((p1-p0)*DEG/2, E.PI)], solid


def s_full():
    """no hole"""
    Ro, H = fresh('Ro', 'H', kind='pos')
    p0, p1 = fresh('phi0', 'phi1')

    def solid(u, rho):
        ph = (p1-p0)*DEG/2
        return [piece('qlm.annulus', rho*ph*H*Ro**2*u**3, H*u, 0, Ro*u, (p1+p0)*DEG/2, ph)]
    return [0, Ro, H, p0, p1], [lt(p0, p1), le((p1-p0)*DEG/2, E.PI)], solid


def s_sphere():
    r, = fresh('r', kind='pos')
    return [r], [], lambda u, rho: [piece('qlm.sphere', rho*4*E.PI/3*(r*u)**3, r*u)]


def cone(rho, P, R):
    return piece('qlm.cone', rho*E.PI*P*R**2/3, P, R, 0, E.PI)


def s_cone():
    R, H = fresh('R', 'H', kind='pos')
    return [R, 0, H], [], lambda u, rho: [cone(rho, H*u, R*u)]


def s_cone_up():
    """tip down"""
    R, H = fresh('R', 'H', kind='pos')
    return [0, R, H], [], lambda u, rho: [cone(rho, H*u, R*u).moved(euler(0, E.PI, 0), [0, 0, H*u])]


def frustum(rho, R, r, H, u):
    """the cone over the larger circle without its tip"""
    P, t = H*R/(R-r), H*r/(R-r)
    return [cone(rho, P*u, R*u), cone(-rho, t*u, r*u).moved(EYE, [0, 0, H*u])]


def s_cone_cut():
    R, r, H = fresh('R', 'r', 'H', kind='pos')
    return [R, r, H], [lt(r, R)], lambda u, rho: frustum(rho, R, r, H, u)


def s_cone_cut_up():
    R, r, H = fresh('R', 'r', 'H', kind='pos')
    return [r, R, H], [lt(r, R)], lambda u, rho: moved(moved(frustum(rho, R, r, H, u), euler(0, E.PI, 0)), d=[0, 0, H*u])


def s_cone_even():
    R, H = fresh('R', 'H', kind='pos')
    return [R, R, H], [], lambda u, rho: [piece('qlm.annulus', rho*E.PI*H*R**2*u**3, H*u, 0, R*u, 0, E.PI).moved(EYE, [0, 0, H*u/2])]


def s_triangle():
    d, y1, y2 = fresh('d', 'y1', 'y2')
    t, = fresh('t', kind='pos')

    def solid(u, rho):
        return [piece('qlm.tri_prism', rho*t*C.absolute(d*(y2-y1))/2*u**3, t*u, d*u, y1*u, y2*u)]
    return [d, y1, y2, t], [ne(d, 0), ne(y1, y2)], solid


def isosceles(rho, t, w, h):
    return piece('qlm.tri_iso_prism', rho*t*w*h/2, t, w, h, 0)


def s_trap():
    """widths w1 < w2 at x = 0 and x = h: the large triangle without the small one"""
    a, b, h, t = fresh('w1', 'w2', 'h', 't', kind='pos')

    def solid(u, rho):
        k = a*h/(b-a)
        return moved([isosceles(rho, t*u, b*u, (h+k)*u), isosceles(-rho, t*u, a*u, k*u)], d=[-k*u, 0, 0])
    return [a, b, h, t], [lt(a, b)], solid


def s_trap_flip():
    b, a, h, t = fresh('w1', 'w2', 'h', 't', kind='pos')

    def solid(u, rho):
        k = a*h/(b-a)
        s = moved([isosceles(rho, t*u, b*u, (h+k)*u), isosceles(-rho, t*u, a*u, k*u)], d=[-(k+h)*u, 0, 0])
        return moved(s, euler(0, 0, E.PI))
    return [b, a, h, t], [lt(a, b)], solid


def s_trap_even():
    a, h, t = fresh('w', 'h', 't', kind='pos')
    return [a, a, h, t], [], lambda u, rho: [piece('qlm.rect_prism', rho*t*a*h*u**3, t*u, h*u, a*u, 0).moved(EYE, [h*u/2, 0, 0])]


def s_part():
    """d > 0: the sector without the triangle"""
    r, d, h = fresh('r', 'd', 'h', kind='pos')

    def solid(u, rho):
        ph = F.arccos(d/r)
        return [piece('qlm.annulus', rho*h*ph*r**2*u**3, h*u, 0, r*u, 0, ph),
                piece('qlm.tri_iso_prism2', -rho*h*d*r*E.sin(ph)*u**3, h*u, r*u, 0, ph)]
    ph = F.arccos(d/r)
    return [r, d, h], [lt(d, r), lt(0, ph), le(ph, E.PI/2)], solid      # the last two: 0 < d/r < 1


def s_part_more():
    """d < 0: the sector and the triangle"""
    r, e, h = fresh('r', 'e', 'h', kind='pos')
    d = -e

    def solid(u, rho):
        ph = F.arccos(d/r)
        return [piece('qlm.annulus', rho*h*ph*r**2*u**3, h*u, 0, r*u, 0, ph),
                piece('qlm.tri_iso_prism2', rho*h*e*r*E.sin(ph)*u**3, h*u, r*u, E.PI, E.PI-ph)]
    ph = F.arccos(d/r)
    return [r, d, h], [lt(e, r), lt(E.PI/2, ph), lt(ph, E.PI)], solid   # -1 < d/r < 0


def s_tet():
    x, y, z = fresh('x', 'y', 'z', kind='pos')
    return [x, y, z], [], lambda u, rho: [piece('qlm.tetrahedron', rho*x*y*z/6*u**3, x*u, y*u, z*u)]


def s_plate():
    r, t = fresh('r', 't', kind='pos')
    th, = fresh('theta')
    return [r, t, th], [lt(-90, th), lt(th, 90)], lambda u, rho: [piece('qlmACH.platehole', rho, t*u, r*u, th*DEG)]


def s_cylhole():
    r, R = fresh('r', 'R', kind='pos')
    return [r, R], [le(r, R)], lambda u, rho: [piece('qlmNum.steinmetz', rho, r*u, R*u).moved(euler(E.PI/2, 0, 0), [0, 0, 0])]


def s_pyr():
    x, y, z = fresh('x', 'y', 'z', kind='pos')
    return [x, y, z], [], lambda u, rho: [piece('qlm.pyramid', rho*x*y*z/3*u**3, x*u/2, y*u/2, z*u)]


def s_rect():
    x, y, z = fresh('x', 'y', 'z', kind='pos')
    return [x, y, z], [], lambda u, rho: [piece('qlm.rect_prism', rho*x*y*z*u**3, z*u, x*u, y*u, 0)]


SHAPES = {'cylinder': s_cylinder, 'cylinder ': s_full, 'sphere': s_sphere, 'cone': s_cone, 'cone ': s_cone_up, 'cone  ': s_cone_cut, 'cone   ': s_cone_cut_up,
          'cone    ': s_cone_even, 'triangle': s_triangle, 'trapezoid': s_trap, 'trapezoid ': s_trap_flip, 'trapezoid  ': s_trap_even,
          'partcylinder': s_part, 'partcylinder ': s_part_more, 'tetrahedron': s_tet, 'platehole': s_plate, 'cylhole': s_cylhole, 'pyramid': s_pyr,
          'rectangle': s_rect}


def execute(coms):
    s = State()
    for c in coms:
        c.does(s)
    return s


def agrees(coms, tail=()):
    """the code on the program against its meaning"""
    coms = list(coms)+list(tail)
    r = run([t for c in coms for t in c.text])
    s = execute(coms)
    return isinstance(r, Mom) and r.inner and zero(r.lmax-LM) and same_body(r.body, s.tot)


def arbitrary(u):
    return [simple(u), load_('a', 'a'), simple('puttotal'), load_('b', 'b')]


def observe(ob, label, coms, pre=(), regs=True):
    """Tot, Wrk and the unit after the program"""
    ob.paths(label+': total', lambda: agrees(coms), pre=pre)
    ob.paths(label+': working and unit', lambda: agrees(coms, [translate(), simple('puttotal')]), pre=pre)


def commands():
    out = [simple(n) for n in ('puttotal', 'gettotal', 'add', 'zeroqlm', 'cmin', 'inchin', 'nsteps 24')]
    return out+[rotate(), translate(), load_('a', 'a'), load_('create add', 'c'), load_('add_on', 'd')]


def p_commands(ob):
    for u in ('cmin', 'inchin'):
        for c in commands():
            observe(ob, f'{u}: {c.name}', arbitrary(u)+[c])


def p_create(ob):
    for u in ('cmin', 'inchin'):
        for k in SHAPES:
            shape = k.rstrip()
            c = create(shape, k[len(shape):])
            observe(ob, f'{u}: {c.name}', arbitrary(u)+[c], c.pre)


def p_pairs(ob):
    u = 'inchin'
    sph = create('sphere')
    cs = commands()+[sph]
    for a in cs:
        for b in cs:
            observe(ob, f'{a.name}; {b.name}', arbitrary(u)+[a, b])


def p_start(ob):
    """zero registers and centimetres at first; the length unit of the first command"""
    observe(ob, 'empty', [])
    for c in commands():
        observe(ob, c.name, [c])
    c = create('sphere')
    observe(ob, c.name, [c])


def p_text(ob):
    """layout: comments, empty lines, what follows end, no final newline"""
    r, rho, x, y, z = fresh('r', 'rho', 'x', 'y', 'z')
    r = E.sym('rr', 'pos')
    al = fresh('al', 'be', 'ga')
    body = [piece('qlm.sphere', 1000*rho*4*E.PI/3*(r*INCH)**3, r*INCH).moved(EYE, [x*INCH, y*INCH, z*INCH])]
    turned = moved(body, euler(*[v*DEG for v in al]))
    base = [['inchin'], ['create sphere red', n_(r), n_(rho), row(x, y, z)], ['rotate '+row(*al)], ['add']]
    sp = ' , '.join(n_(v) for v in (x, y, z))
    variants = {
        'plain': sum(base, []),
        'spaces': ['  inchin ', ' create  sphere  red', '  '+n_(r)+' ', ' '+n_(rho), '  '+sp, '  rotate  '+row(*al)+' ', ' add '],
        'comments': ['% create cone', 'inchin % cmin', 'create sphere red % add', n_(r)+' % radius', n_(rho)+'% density', row(x, y, z)+' % create', '% add',
                     'rotate '+row(*al)+' % add end', '%end', 'add % zeroqlm'],
        'comment lines between': ['inchin', '', 'create sphere red', '% radius', n_(r), '', n_(rho), '% position', row(x, y, z), '  % add', '', 'rotate '+row(*al), '%', 'add'],
        'end': sum(base, [])+['end', 'add', 'zeroqlm'],
        'end comment': sum(base, [])+['end % of it', 'junk'],
        'density with more': ['inchin', 'create sphere red', n_(r), n_(rho)+',0', row(x, y, z), 'rotate '+row(*al), 'add'],
        'upper': sum(base, []),
    }
    for k, lines in variants.items():
        def thunk():
            q = run(lines)
            return isinstance(q, Mom) and same_body(q.body, turned)
        ob.paths(k, thunk)
    for title in ('', '% create sphere', 'add', 'end', 'create sphere red'):
        ob.paths('title', lambda: same_body(run(sum(base, []), title).body, turned))
    ob.paths('extension', lambda: same_body(run(sum(base, []), name='prog.mpc').body, turned))

    def bare():
        return same_body(lib({'/mpc/prog.mpc': 't\n'+'\n'.join(sum(base, []))}).read_mpc(LM, 'prog', '/mpc/').body, turned)
    ob.paths('no final newline', bare)

    def wrong():
        CTX.assume(ne(L2, LM))
        try:
            run(['load w', 'add'])
        except TypeError:
            return True
        return False
    ob.paths('moments of another degree refused', wrong)
    for shape, dims in (('sphere', [r]),):
        for p in ('0,0,0', '0, 0.0, 0', '0.,0.,-0.'):
            lines = ['inchin', 'create sphere red', n_(r), n_(rho), p]
            b0 = [piece('qlm.sphere', 1000*rho*4*E.PI/3*(r*INCH)**3, r*INCH)]
            for tail, want in ((['add'], b0), (['add', 'add'], b0+b0), (['% add', 'rotate '+row(*al), 'add'], moved(b0, euler(*[v*DEG for v in al]))), ([], []),
                               (['load add_on', 'add'], [Solid(('file', 'd'), 1, Z3)]), (['zeroqlm', 'add'], b0)):
                ob.paths(f'at the origin {tail}', lambda: same_body(run(lines+tail).body, want))


# ---------------------------------------------------------- the loop invariant
K0, N0 = nat('k0', 'n0')
UNIT, = pos('unit')


class Lines:
    """lines of a program, of which the given ones come after a place K0"""

    def __init__(self, after):
        self.after = list(after)

    def __getitem__(self, i):
        d = to_ex(i)-K0-1
        if not d.is_const() or not 0 <= d.cval() < len(self.after):
            raise E.Structure('a line away from the command')
        return self.after[int(d.cval())]


def p_round(coms):
    """One round from any place, unit and registers carries out the commands
    that it passes, and the registers share nothing."""
    def f(ob):
        for c, pre in coms():
            for nxt in ([simple('add'), simple('add')], [rotate(), simple('add')], [load_('add_on', 'd'), simple('add')], []):
                if nxt and c.name[:6] != 'create' and nxt[0].name != 'add':
                    continue
                seq = [c]+nxt

                def thunk():
                    CTX.assume(lt(K0, N0))
                    m = lib({'/mpc/prog.mpc': 'title'}, cut=('read_multiFor.read_mpc',))
                    e = m._vc_pre_read_mpc(LM, 'prog', '/mpc/')
                    LP.local(e, 'k', 'nlines', 'lines', 'fac', 'qlmTot', 'qlmWrk')
                    text = [t for x in seq for t in x.text]+['end']
                    e = LP.env(m, 'read_mpc', e, ('k', 'fac', 'qlmTot', 'qlmWrk'))
                    tot, wrk = [Solid(('any', n), *pos('m'+n), Z3) for n in 'tw']
                    e.update(k=K0, nlines=N0, lines=Lines(text), fac=UNIT, qlmTot=Mom(True, LM, [tot]), qlmWrk=Mom(True, LM, [wrk]))
                    if not CTX.decide(m._vc_head_read_mpc(e)):
                        return False
                    r = m._vc_round_read_mpc(e)
                    d = to_ex(r['k'])-K0
                    out = [('place', d.is_const()), ('goes on', r['_vc_flow'] == 'next')]
                    s = State()
                    s.u, s.tot, s.wrk = UNIT, [tot], [wrk]
                    n = 0
                    for x in seq:       # the commands passed
                        if n >= d.cval():
                            break
                        x.does(s)
                        n += len(x.text)
                    out.append(('whole commands', n == d.cval() and n > 0))
                    T_, W_ = r['qlmTot'], r['qlmWrk']
                    return out+[('total', isinstance(T_, Mom) and zero(T_.lmax-LM) and same_body(T_.body, s.tot)),
                                ('working', isinstance(W_, Mom) and zero(W_.lmax-LM) and same_body(W_.body, s.wrk)),
                                ('unit', zero(to_ex(r['fac'])-s.u)), ('separate', T_ is not W_)]
                ob.paths(f'{c.name}', thunk, pre=pre)
    return f


def p_ends(ob):
    """before the first round, at end, after the last round"""
    def start():
        m = lib({'/mpc/prog.mpc': 'title\n  inchin % x\n\n%\nadd'}, cut=('read_multiFor.read_mpc',))
        e = m._vc_pre_read_mpc(LM, 'prog', '/mpc/')
        LP.local(e, 'k', 'nlines', 'lines', 'fac', 'qlmTot', 'qlmWrk')
        T_, W_ = e['qlmTot'], e['qlmWrk']
        ls = [str(x).split() for x in e['lines'][1:]]
        return [('registers', all(isinstance(q, Mom) and q.inner and not q.body and zero(q.lmax-LM) for q in (T_, W_)) and T_ is not W_),
                ('unit', zero(to_ex(e['fac'])-CM)), ('place', e['k'] == 0), ('lines', ls == [['inchin'], ['add'], ['end']] and e['nlines'] == 3)]
    ob.paths('start', start)

    def end():
        m = lib({'/mpc/prog.mpc': 'title'}, cut=('read_multiFor.read_mpc',))
        e = m._vc_pre_read_mpc(LM, 'prog', '/mpc/')
        LP.local(e, 'k', 'nlines', 'lines', 'fac', 'qlmTot', 'qlmWrk')
        e = LP.env(m, 'read_mpc', e, ('k', 'fac', 'qlmTot', 'qlmWrk'))
        t, w = Mom(True, LM, [Solid(('any', 't'), 1, Z3)]), Mom(True, LM, [Solid(('any', 'w'), 1, Z3)])
        e.update(k=K0, nlines=N0, lines=Lines(['end']), fac=UNIT, qlmTot=t, qlmWrk=w)
        b = list(t.body)
        out = [('result', same_body(m._vc_post_read_mpc(e).body, b))]
        if CTX.decide(m._vc_head_read_mpc(e)):
            r = m._vc_round_read_mpc(e)
            out += [('stops', r['_vc_flow'] == 'break' and same_body(m._vc_post_read_mpc(r).body, b))]
        else:
            out += [('past the last line', CTX.decide(le(N0, K0)))]
        return out
    ob.paths('end', end)


def all_commands():
    return [(c, ()) for c in commands()]


def all_shapes():
    return [(c, c.pre) for c in (create(k.rstrip(), k[len(k.rstrip()):]) for k in SHAPES)]


# -------------------------------------------------------------- moment files
def moments_file(L, vals):
    """the layout of MULTIN: title, degree, seven lines, then l, m row by row"""
    head = ['title', f' {L}       0', '  7.255197E+01', '  7.255197E+01', '       .00000      .00000      .00000', '      370.8', '      219.6', ' T F', '        .0000']
    return '\n'.join(head+[f'   {n_(a)}    {n_(b)}' for a, b in vals])+'\n'


def p_moments(kind):
    def f(ob):
        for L in range(7):
            vals = [tuple(reals(f'a{l}_{m}', f'b{l}_{m}')) for l in range(L+1) for m in range(l+1)]
            lm = [(l, m) for l in range(L+1) for m in range(l+1)]
            text = moments_file(L, vals)
            for name in ('f', 'f.'+kind):
                def thunk():
                    m = src('read_multiFor')
                    T.install(m, {f'/mom/f.{kind}': text})
                    q = getattr(m, 'read_'+kind)(name, '/mom/')
                    out = [('shape', tuple(con(v) for v in q.shape) == (L+1, 2*L+1))]
                    get = lambda l, k: to_ex(q.read([Ex.const(l), Ex.const(L+k)]))
                    v = dict(zip(lm, vals))
                    for l in range(L+1):
                        for k in range(-L, L+1):
                            w = E.ZERO
                            if abs(k) <= l:
                                a, b = v[l, abs(k)]
                                w = a+E.I*b if k > 0 else (a-E.I*b)*(-1)**abs(k)
                                if k == 0:
                                    w = a      # moments of order zero are real
                                if kind == 'gsq':
                                    w = w*Q(1, 1000)*Q(1, 100)**l
                            out.append((f'{l} {k}', zero(get(l, k)-w)))
                    return out
                ob.paths(f'L={L}', thunk)
    return f


def p_rows(kind):
    """Loop invariant: before the row of (l, m) the array holds the rows before
    it and zeros; a row goes to its place and (l, m) to the next place."""
    name = 'read_'+kind
    l0, m0, i0, j0 = nat('l0', 'm0', 'i', 'j')
    a, b = reals('a', 'b')

    def setup():
        m = src('read_multiFor', cut=('read_multiFor.'+name,))
        T.install(m, {f'/mom/f.{kind}': moments_file(T.integer(LM), [(a, b)])})
        e = m.__dict__['_vc_pre_'+name]('f', '/mom/')
        LP.local(e, 'l', 'm')
        arr = [k for k, v in e.items() if isinstance(v, A.SArr)]
        if len(arr) != 1:
            raise E.Structure('not one array')
        rows = m.__dict__['_vc_head_'+name](e)
        if not (isinstance(rows, list) and len(rows) == 1 and isinstance(rows[0], str)):
            raise E.Structure('not a loop over the rows')
        return m, e, arr[0], rows[0]

    def start():
        CTX.assume(C.c_and(le(i0, LM), le(j0, 2*LM)))
        m, e, arr, r = setup()
        q = e[arr]
        return [('zeros', zero(q.read([i0, j0]))), ('shape', q.ndim == 2 and zero(q.shape[0]-LM-1) and zero(q.shape[1]-2*LM-1)),
                ('place', e['l'] == 0 and e['m'] == 0), ('row', r.split() == [n_last(a), n_last(b)])]

    def one():
        CTX.assume(C.c_and(le(i0, LM), le(j0, 2*LM), le(m0, l0), le(l0, LM)))
        m, e, arr, r = setup()
        e = LP.env(m, name, e, ('l', 'm', arr))
        q = arr_in('q', LM+1, 2*LM+1, kind='c')
        old = q.snap()
        e.update({'l': l0, 'm': m0, arr: q})
        o = m.__dict__['_vc_round_'+name](e, r)
        last = CTX.decide(eq(m0, l0))
        here = CTX.decide(eq(i0, l0)) and CTX.decide(eq(j0, LM+m0))
        v = (a+E.I*b)*(Q(1, 1000)*E.power(Ex.const(Q(1, 100)), E.to_exp(i0)) if kind == 'gsq' else 1)
        want = v if here else old([i0, j0])
        return [('entry', zero(o[arr].read([i0, j0])-want)), ('goes on', o['_vc_flow'] == 'next'),
                ('next place', zero(to_ex(o['l'])-(l0+1 if last else l0)) and zero(to_ex(o['m'])-(0 if last else m0+1)))]

    def finish():
        CTX.assume(C.c_and(le(i0, LM), le(j0, 2*LM)))
        m, e, arr, r = setup()

        def base(ix):
            l, c = to_ex(ix[0]), to_ex(ix[1])
            if CTX.decide(lt(c, LM)) or CTX.decide(lt(l, c-LM)):
                return E.ZERO
            z = CTX.decide(eq(c, LM))       # order zero is real
            return E.atom_ex(E.atom('el', 'v0' if z else 'v', (E.to_exp(l),) if z else (E.to_exp(l), E.to_exp(c-LM)), not z, False), 1)
        e = LP.env(m, name, e, ('l', 'm', arr))
        q = A.SArr([LM+1, 2*LM+1], base, 'c')
        e.update({'l': LM+1, 'm': 0, arr: q})
        w = m.__dict__['_vc_post_'+name](e)
        k = j0-LM
        if CTX.decide(le(LM, j0)):
            want = base([i0, j0])
        else:
            want = E.conj(base([i0, LM-k]))*E.power(Ex.const(-1), E.to_exp(k))
        return [('entry', zero(w.read([i0, j0])-want)), ('shape', w.ndim == 2 and zero(w.shape[0]-LM-1) and zero(w.shape[1]-2*LM-1))]

    def f(ob):
        ob.paths('start', start)
        ob.paths('row', one)
        ob.paths('finish', finish)
    return f


def n_last(x):
    """the numeral that stands for x in the last file"""
    return [t for t, v in T.NUM.items() if v is x][-1]


def con(v):
    v = to_ex(v)
    return int(v.cval())


# ------------------------------------------------------------------ runtime
U = {'cmin': .01, 'inchin': .0254}


def fmt(g, x):
    return g.choice(['%.12f', '%.14g', '%.13e'])%x


def num(g, s):
    return float(s)


class Prog:
    """random program and its meaning as point clouds"""

    def __init__(self, g, L, dir_):
        self.g, self.L, self.dir = g, L, dir_
        self.lines, self.u = [], .01
        self.tot = np.zeros((0, 4))
        self.wrk = np.zeros((0, 4))
        self.known = True       # platehole only up to degree 5
        self.nfile = 0

    def vals(self, *v, sep=','):
        same = {x: fmt(self.g, x) for x in v}       # equal numbers stay equal
        t = [same[x] for x in v]
        if self.g.random() < .3:
            t = [x+' ' for x in t]
        return [float(x) for x in t], (', ' if self.g.random() < .3 else ',').join(t)

    def put(self, *lines):
        for s in lines:
            if self.g.random() < .15:
                s = self.g.choice(['  ', ''])+s+self.g.choice(['  ', ' % add', '% create sphere', ' % end', '%zeroqlm'])
            self.lines.append(s)
            if self.g.random() < .1:
                self.lines.append(self.g.choice(['', '   ', '% add', '%end', '  % gettotal']))

    def step(self):
        g = self.g
        op = g.choice(['create']*5+['rotate', 'translate', 'add', 'add', 'add', 'cmin', 'inchin', 'zeroqlm', 'gettotal', 'puttotal', 'load', 'nsteps'])
        if op == 'rotate':
            v, t = self.vals(*[g.choice([g.uniform(-400, 400), g.uniform(-90, 90), 0., 90.]) for _ in range(3)])
            self.put('rotate '+t)
            self.wrk = N.move(self.wrk, R=N.euler(*np.radians(v)))
        elif op == 'translate':
            v, t = self.vals(*[g.choice([g.uniform(-5, 5), 0.]) for _ in range(3)])
            self.put('translate '+t)
            self.wrk = N.move(self.wrk, t=np.array(v)*self.u)
        elif op == 'add':
            self.put('add')
            self.tot = np.concatenate([self.tot, self.wrk])
        elif op in U:
            self.put(op)
            self.u = U[op]
        elif op == 'zeroqlm':
            self.put(op)
            self.tot = self.tot[:0]
        elif op == 'gettotal':
            self.put(op)
            self.wrk = self.tot
        elif op == 'puttotal':
            self.put(op)
            self.tot = self.wrk
        elif op == 'nsteps':
            self.put('nsteps 24')
        elif op == 'load':
            p = np.array([[g.uniform(-5, 5)]+[g.uniform(-.1, .1) for _ in range(3)] for _ in range(3)])
            name = f'{g.choice(["part", "add_on", "endpiece", "created"])}{self.nfile}'
            self.nfile += 1
            write_moments(self.dir+'/mom/'+name+'.gsq', self.L, N.inner(self.L, p), True)
            self.put('load '+name+g.choice(['', '.gsq']))
            self.wrk = p
        else:
            self.create()

    def create(self, shape=None):
        g = self.g
        P = lambda: g.uniform(.3, 6.)
        shape = shape or g.choice(['cylinder', 'sphere', 'cone', 'triangle', 'trapezoid', 'partcylinder', 'tetrahedron', 'platehole', 'cylhole', 'pyramid', 'rectangle'])
        if shape == 'platehole' and self.L > 5:
            shape = 'rectangle'
        if shape == 'cylinder':
            a, b = sorted((P(), P()))
            v, t = self.vals(g.choice([0., a]), b+.1, P(), *g.choice([(0, 360), (0., g.uniform(1, 360)), sorted((g.uniform(-300, 0), g.uniform(1, 59)))]))
        elif shape == 'sphere':
            v, t = self.vals(P())
        elif shape == 'cone':
            a, b = P(), P()
            v, t = self.vals(*g.choice([(a, 0., P()), (0., b, P()), *[(a, a*g.choice([1/1.4, 1.4, 2., .5, 5., .2])**g.uniform(1., 1.4), P())]*3, (a, a, P())]))
        elif shape == 'triangle':
            a = g.uniform(-6, 6)
            v, t = self.vals(g.choice([1, -1])*P(), a, a+g.choice([1, -1])*P(), P())
        elif shape == 'trapezoid':
            a = P()
            v, t = self.vals(a, g.choice([a, a*g.uniform(1.3, 3), a/g.uniform(1.3, 3)]), P(), P())
        elif shape == 'partcylinder':
            r = P()
            v, t = self.vals(r, r*g.choice([g.uniform(.05, .95), -g.uniform(.05, .95), 0.]), P())
        elif shape == 'cylhole':
            a, b = sorted((P(), P()))
            v, t = self.vals(a, b+.2)
        elif shape == 'platehole':
            v, t = self.vals(P(), P(), g.choice([0., g.uniform(-70, 70)]))
        else:
            v, t = self.vals(P(), P(), P())
        (rho,), tr_ = self.vals(g.choice([-1, 1, 1])*g.uniform(.5, 20))
        pos_, tp = self.vals(*g.choice([(0., 0., 0.), tuple(g.uniform(-5, 5) for _ in range(3)), (0., 0., g.uniform(-5, 5))]))
        self.put(f'create {shape} red', t, tr_, tp)
        self.wrk = N.move(N.with_density(cloud(shape, v, self.u), rho*1000), t=np.array(pos_)*self.u)


def cloud(shape, v, u):
    r = np.radians
    if shape == 'cylinder':
        Ri, Ro, H = (x*u for x in v[:3])
        return N.sector(-H/2, H/2, Ri, Ro, r(v[3]+v[4])/2, r(v[4]-v[3])/2, 10, 40)
    if shape == 'platehole':
        return N.platehole(v[1]*u, v[0]*u, r(v[2]), 8, 24)
    v = [x*u for x in v]
    if shape == 'sphere':
        q = N.frustum(-1, 1, 1, 1, 0, math.pi, 8, 24)       # ball from the cylinder: shrink the rows
        s = np.sqrt(np.maximum(1-q[:, 3]**2, 0))
        q[:, 0] *= s**2
        q[:, 1] *= s
        q[:, 2] *= s
        q[:, 1:] *= v[0]
        q[:, 0] *= v[0]**3
        return q
    if shape == 'cone':
        return N.frustum(0, v[2], v[0], v[1], 0, math.pi, 10, 24)
    if shape == 'triangle':
        return N.tri_prism(v[3], (0, 0), (v[0], v[1]), (v[0], v[2]), 8)
    if shape == 'trapezoid':
        w1, w2, h, t = v
        return np.concatenate([N.tri_prism(t, (0, w1/2), (0, -w1/2), (h, w2/2), 8), N.tri_prism(t, (0, -w1/2), (h, -w2/2), (h, w2/2), 8)])
    if shape == 'partcylinder':
        return part(*v)
    if shape == 'tetrahedron':
        x, y, z = v
        return N.simplex([(0, 0, 0), (x, 0, 0), (0, y, 0), (0, 0, z)], 8)
    if shape == 'cylhole':
        return N.steinmetz(v[0], v[1], 'y', 24)
    if shape == 'pyramid':
        return N.pyramid(v[0]/2, v[1]/2, v[2], 8)
    return N.box(v[0], v[1], v[2], 8)


def part(r, d, h):
    """x > d within the circle"""
    a = math.acos(d/r)
    th, w = N._gl(0, a, 40)         # x = r cos th, |y| < r sin th
    s, ws = N.leggauss(12)
    z, wz = N._gl(-h/2, h/2, 8)
    x, yy = r*np.cos(th), r*np.sin(th)
    W = (w*yy*yy)[:, None, None]*ws[None, :, None]*wz
    return N._pts(W, x[:, None, None], yy[:, None, None]*s[None, :, None], z[None, None, :])


def write_moments(path, L, q, cgs):
    with open(path, 'w') as f:
        f.write(f'title\n {L}       0\n  7.2E+01\n  7.2E+01\n   .0  .0  .0\n  370.8\n  219.6\n T F\n  .0000\n')
        for l in range(L+1):
            for m in range(l+1):
                v = q[l, L+m]*(1e3*100.**l if cgs else 1)
                f.write('   %.15E    %.15E\n' % (v.real, v.imag))


def rmf():
    return real('read_multiFor')


def call_prog(lines, L, d):
    from .. import quadc as KQ
    with open(d+'/mpc/p.mpc', 'w') as f:
        f.write('\n'.join(['title % add']+lines))
    with KQ.patched(real('qlmNum')):
        return rmf().read_mpc(L, 'p', d+'/mpc/')


def size(p, l):
    if not len(p):
        return 0.
    return float(np.sum(np.abs(p[:, 0])*np.linalg.norm(p[:, 1:], axis=1)**l))


def judge(q, L, p, extra=0.):
    if q.shape != (L+1, 2*L+1):
        return False, f'shape {q.shape}'
    w = N.inner(L, p) if len(p) else np.zeros((L+1, 2*L+1), complex)
    for l in range(L+1):
        d = np.max(np.abs(q[l]-w[l]))
        if not d <= 1e-7*(size(p, l)+extra)+1e-300:
            return False, f'degree {l}: {q[l]} for {w[l]}'
    return True, ''


def rt_programs(rng, n, hints):
    for i in range(n):
        L = rng.choice([0, 1, 2, 3, 4, 5, 6])
        with tempfile.TemporaryDirectory() as d:
            os.makedirs(d+'/mpc')
            os.makedirs(d+'/mom')
            P = Prog(rng, L, d)
            for _ in range(rng.randint(1, 9)):
                P.step()
            if rng.random() < .3:
                P.put('puttotal')
                P.tot = P.wrk
            elif rng.random() < .3:
                P.put('add')
                P.tot = np.concatenate([P.tot, P.wrk])
            lines = P.lines+rng.choice([[], ['end'], ['end', 'add', 'puttotal']])
            st, q = attempt(call_prog, lines, L, d)
            if st == 'raise':
                yield Case('program', (L, lines), False, f'raises {q!r}')
                continue
            # cancelled parts count for rounding
            ok, det = judge(q, L, P.tot)
            yield Case('program', (L, lines), ok, det)


def rt_shapes(rng, n, hints):
    names = ['cylinder', 'sphere', 'cone', 'triangle', 'trapezoid', 'partcylinder', 'tetrahedron', 'platehole', 'cylhole', 'pyramid', 'rectangle']
    for i in range(n):
        L = rng.choice([3, 5, 5, 6, 8])
        with tempfile.TemporaryDirectory() as d:
            os.makedirs(d+'/mpc')
            P = Prog(rng, L, d)
            shape = names[i % len(names)]
            if shape in ('cylhole', 'platehole'):
                P.L = L = min(L, 4)
            if rng.random() < .5:
                P.put('inchin')
                P.u = .0254
            P.create(shape)
            P.put('add')
            st, q = attempt(call_prog, P.lines, L, d)
            if st == 'raise':
                yield Case(shape, (L, P.lines), False, f'raises {q!r}')
                continue
            ok, det = judge(q, L, P.wrk)
            yield Case(shape, (L, P.lines), ok, det)
    # known: moments of plateholes stop at degree 5
    with tempfile.TemporaryDirectory() as d:
        os.makedirs(d+'/mpc')
        lines = ['cmin', 'create platehole red', '2,5,30', '1.0', '0,0,0', 'add']
        q = call_prog(lines, 6, d)
        p = N.with_density(N.platehole(.05, .02, math.pi/6), 1000)
        ok, det = judge(q[:6, 1:-1], 5, p)
        yield Case('platehole', (6, lines), ok, det)
        ok, det = judge(q, 6, p)
        yield Case('platehole beyond degree 5', (6, lines), ok, det)


def rt_moments(kind):
    def f(rng, n, hints):
        for i in range(n):
            L = rng.choice([0, 1, 2, 3, 5, 10, 20])
            q = np.zeros((L+1, 2*L+1), complex)
            for l in range(L+1):
                for m in range(l+1):
                    v = complex(rng.uniform(-9, 9), rng.uniform(-9, 9) if m else 0)*10.**rng.randint(-3, 3)
                    q[l, L+m] = v
                    q[l, L-m] = (-1)**m*np.conj(v)
            with tempfile.TemporaryDirectory() as d:
                write_moments(d+'/f.'+kind, L, q, kind == 'gsq')
                st, r = attempt(getattr(rmf(), 'read_'+kind), rng.choice(['f', 'f.'+kind]), d+'/')
            if st == 'raise':
                yield Case(kind, L, False, f'raises {r!r}')
                continue
            ok, det = close(r, q, np.abs(q)+1e-30, 1e-12)
            yield Case(kind, L, ok, det)
    return f


UNITS = [
    Unit('gsq', ['read_multiFor.read_gsq'], [('all degrees and numbers', p_rows('gsq')), ('bounded: files of degree up to 6, all numbers', p_moments('gsq'))], rt_moments('gsq'), n=12,
         clauses='shape, every listed moment in SI units at its place, negative orders by conjugate symmetry'),
    Unit('gbq', ['read_multiFor.read_gbq'], [('all degrees and numbers', p_rows('gbq')), ('bounded: files of degree up to 6, all numbers', p_moments('gbq'))], rt_moments('gbq'), n=12,
         clauses='shape, every listed moment at its place, negative orders by conjugate symmetry'),
    Unit('commands', ['read_multiFor.read_mpc'], [('all places, units, registers and numbers', p_round(all_commands)), ('bounded: one command after arbitrary registers, all numbers', p_commands)], rt_programs, n=30,
         clauses='total, working register and unit after the command'),
    Unit('create', ['read_multiFor.read_mpc'], [('all places, units, registers, dimensions, densities and positions', p_round(all_shapes)), ('bounded: one shape after arbitrary registers, all dimensions, densities and positions', p_create)], rt_shapes, n=44,
         clauses='the working register is the shape at its position; total and unit are kept'),
    Unit('pairs', ['read_multiFor.read_mpc'], [('bounded: two commands after arbitrary registers', p_pairs)], rt_programs, n=20, budget=300,
         clauses='registers and unit after both; no sharing between registers'),
    Unit('start', ['read_multiFor.read_mpc'], [('all places, units and registers', p_ends), ('bounded: programs of one command', p_start)], rt_programs, n=10,
         clauses='registers start empty, the unit is the centimetre'),
    Unit('text', ['read_multiFor.read_mpc'], [('bounded: the listed layouts, all numbers', p_text)], rt_programs, n=20,
         clauses='comments, empty lines, title, end, file extension, refused degree; add right after a shape at the origin'),
]
