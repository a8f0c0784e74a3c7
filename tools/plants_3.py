PLANTS = [
 dict(id='c07-cone2-tip', property='C07', edits=[('newt/qlmACH.py', 'q5 -= 12*h**2*(35*r2**4)', 'q5 -= 12*h**2*(35*r2**4*(r1 > 0) + 30*r2**4*(r1 <= 0))', 1)],
  needs='degree 5 of a complete cone standing on its tip', breaks='the degree five moment of a complete cone with its tip down is wrong',
  demo='''
import newt.qlmACH as A
q, w = A.cone2(5, 1., 1.3, 0., .7), A.cone2(5, 1., 1.3, 1e-9, .7)
for m in range(11):
    assert abs(q[5, m]-w[5, m]) < 1e-6*abs(w[5, 5]), (q[5, m], w[5, m])
'''),
 dict(id='c09-imag-row', property='C09', edits=[('newt/rotations.py', '''            if conj_trans:
                d_use = ds[k].T.conj()
            else:
                d_use = ds[k]
            qNew[k, LMax-k:LMax+k+1] = np.dot(d_use, qlm''', '''            if not np.any(qlm[k, LMax:].real):
                continue
            if conj_trans:
                d_use = ds[k].T.conj()
            else:
                d_use = ds[k]
            qNew[k, LMax-k:LMax+k+1] = np.dot(d_use, qlm''')],
  needs='a degree all of whose moments of order m >= 0 are purely imaginary, i.e. a body with a suitable mirror plane', breaks='such a degree is not rotated',
  demo='''
import newt.rotations as rot, newt.pg2Multi as p
a = np.array([[1., 0, .5, 0], [-1., 0, -.5, 0]])
q = p.qmoments(1, a)
q.real[1] = 0
d = rot.wignerDl(1, .3, .8, -.4)
w, v = rot.rotate_qlm_Ds(q, d), rot.rotate_qlm(q, .3, .8, -.4)
assert np.allclose(w, v, atol=1e-12), (w, v)
'''),
 dict(id='c09-flipped-angle', property='C09', edits=[('newt/rotations.py', '''        beta = 2*np.pi - beta
        fac = np.outer((-1)**(np.abs(ms)), (-1)**(np.abs(ms)))
    else:
        fac = 1
    ds = rotate_H_recurs(LMax, beta)
    expa''', '''        beta = 2*np.pi - beta
        fac = np.outer((-1)**(np.abs(ms)), (-1)**(np.abs(ms)))
        fac[LMax+1:, :LMax] *= -1 if LMax > 12 else 1
    else:
        fac = 1
    ds = rotate_H_recurs(LMax, beta)
    expa''')],
  needs='negative beta (or beta above pi) and moments beyond degree eleven', breaks='the rotation matrices lose their symmetry for negative polar angles at high degree',
  demo='''
import newt.rotations as rot
L = 13
q = np.zeros([L+1, 2*L+1], complex); q[2] = 1; q[2, :L-2] = 0; q[2, L+3:] = 0
w, v = rot.rotate_qlm(q, .1, -.7, .2)[2, L-2:L+3], rot.rotate_qlm(q[:3, L-2:L+3], .1, -.7, .2)[2]
assert np.allclose(w, v, atol=1e-12), (w, v)
'''),
 dict(id='c10-bigger-radius', property='C10', edits=[('newt/translations.py', '''                        cFac = fac*cg.cgCoeff(lP, l, mP, m, L, M)
                        QLM[L, LMax+M] += cFac*ylmS[lP, LMax+mP]*Qlm[l, LMax+m]''', '''                        if lP > 8:
                            continue
                        cFac = fac*cg.cgCoeff(lP, l, mP, m, L, M)
                        QLM[L, LMax+M] += cFac*ylmS[lP, LMax+mP]*Qlm[l, LMax+m]''')],
  needs='outer moments beyond degree eight', breaks='translated outer moments leave out contributions from degrees more than eight above',
  demo='''
import newt.translations as t, newt.pg2Multi as p
a = np.array([[1., 1., .3, .2]])
d = np.array([.3, .1, .2])
Q = t.translate_Qlmb(p.Qmomentsb(14, a), d)
w = p.Qmomentsb(14, a+np.array([0, *d]))
assert abs(Q[0, 14]-w[0, 14]) < 2e-7*abs(w[0, 14]), (Q[0, 14], w[0, 14])
'''),
 dict(id='c12-axis-shortcut', property='C12', edits=[('newt/multipoleLib.py', '                for m in range(l):\n', '                for m in range(l if (x != 0 or y != 0) else 1):\n')],
  needs='a displacement exactly along the z axis', breaks='the transverse force on a sensor displaced along z is wrong beyond degree two',
  demo='''
import newt.multipoleLib as m, newt.pg2Multi as p
L = 5
a = np.array([[1., .1, .05, -.1], [2., 0, -.1, .2]])
b = np.array([[3., 1., 2, -1.], [1., -2, 1, 1]])
q, Q = p.qmoments(L, a), p.Qmomentsb(L, b)
f, g = m.multipole_force(L, q, Q, 0, 0, .3, 1), m.multipole_force(L, q, Q, 1e-9, 0, .3, 1)
assert np.allclose(f, g, rtol=1e-7, atol=1e-9), (f, g)
'''),
 dict(id='c12-high-degree-factor', property='C12', edits=[('newt/multipoleLib.py', 'fac2 = Qlmb[l, LMax+m]*lmofac*np.sqrt(np.exp(gamsum))', 'fac2 = Qlmb[l, LMax+m]*lmofac*np.sqrt(np.exp(min(gamsum, 40.)))', 1)],
  needs='source degrees above about fifteen with a displaced sensor', breaks='the force by order clips its factors at high degree',
  demo='''
import newt.multipoleLib as m
L = 20
q, Q = np.zeros([L+1, 2*L+1], complex), np.zeros([L+1, 2*L+1], complex)
q[0, L] = 1
Q[L, 2*L], Q[L, 0] = 1, (-1)**L
f, g = m.multipole_force(L, q, Q, .7, .1, .3, 1), np.sum(m.multipole_force_m(L, q, Q, .7, .1, .3, 1), 1)
assert np.allclose(f, g, rtol=1e-9, atol=0), (f, g)
'''),
 dict(id='c13-tiny-shift', property='C13', edits=[('newt/multipoleLib.py', '        if r == 0:\n            Qnew', '        if r < 1e-6:\n            Qnew')],
  needs='a sensor displaced by less than a micron (or lengths in units larger than its size)', breaks='displacements of the sensor below 1e-6 are ignored',
  demo='''
import newt.multipoleLib as m
L = 2
q, Q = np.zeros([3, 5], complex), np.zeros([3, 5], complex)
q[0, 2] = 1
Q[1, 3], Q[1, 1] = 1e6, -1e6
n = m.torque(q, Q, [.1, .2, .3], [3e-7, 7e-7, 2e-7], cnst=1)[0]
assert abs(n).max() > 1e-3, n
'''),
 dict(id='c13-outer-phase', property='C13', edits=[('newt/multipoleLib.py', 'Ds2 = rot.wignerDl(minL, phi, -theta, phi)', 'Ds2 = rot.wignerDl(minL, phi, -theta, abs(phi))')],
  needs='an inner source carried outside to a point with y < 0', breaks='the torque for inner to outer translations towards negative y is wrong',
  demo='''
import newt.multipoleLib as m, newt.translationRecurs as t, newt.pg2Multi as p
L = 4
q = p.qmoments(L, np.array([[1., .1, .05, -.1], [2., 0, -.1, .2]]))
s = p.qmoments(L, np.array([[3., .1, .2, -.1], [1., -.2, .1, .1]]))
h = (-1.)**np.arange(-L, L+1)       # half a turn of everything about z
n = np.sum(m.torque(s, q, [0, 0, 0], [1., 1.5, .7], trans_type='inner-outer', cnst=1)[0])
w = np.sum(m.torque(s*h, q*h, [0, 0, 0], [-1., -1.5, .7], trans_type='inner-outer', cnst=1)[0])
assert abs(n-w) < 1e-9*abs(n) and abs(n) > 1e-9, (n, w)
'''),
 dict(id='c13-outer-angle', property='C13', edits=[('newt/multipoleLib.py', 'signal_s += np.real(ts[k])*np.cos(sign*k*angles)', 'signal_s += sign*np.real(ts[k])*np.cos(k*angles)')],
  needs='outer rotation of complex torque amplitudes', breaks='the cosine part of the sine amplitude changes sign when the source turns',
  demo='''
import newt.multipoleLib as m
tc, ts, a = np.zeros(2, complex), np.array([0, 1.+0j]), np.array([.4])
assert abs(m.torques_at_angle(tc, ts, a, True)-m.torques_at_angle(tc, ts, -a))[0] < 1e-12
'''),
 dict(id='c18-annulus-turn', property='C18', edits=[('newt/qlm.py', "if (H <= 0) or (Ro <= Ri) or (phih <= 0) or (phih > np.pi) or (Ri < 0):", "if (H <= 0) or (Ro <= Ri) or (phih <= 0) or (phih > 2*np.pi) or (Ri < 0):", 0)],
  needs='a half angle between pi and 2 pi', breaks='annular sections of more than a full turn are accepted',
  demo='''
import newt.qlm as q
try:
    q.annulus(3, 1., 1., 0., 1., 0., 3.5)
except ValueError:
    pass
else:
    raise SystemExit(1)
'''),
 dict(id='c16-unit-order', property='C16', edits=[('newt/read_multiFor.py', "        elif 'inchin' in line:\n            print('parameters in inches')\n            fac = 25.4e-3\n", "        elif 'inchin' in line:\n            print('parameters in inches')\n            fac *= 2.54\n")],
  needs='a file which states inchin twice', breaks='stating the unit twice scales lengths twice',
  demo='''
import newt.read_multiFor as r, tempfile, os
with tempfile.TemporaryDirectory() as d:
    def go(t):
        open(d+'/a.mpc', 'w').write(t)
        return r.read_mpc(2, 'a', d+'/')
    s = 'create sphere\\n1\\n2\\n0,0,0\\nadd\\nend\\n'
    a, b = go('x\\ninchin\\n'+s), go('x\\ninchin\\ninchin\\n'+s)
assert np.allclose(a, b), (a, b)
'''),
 dict(id='c16-flip-offset', property='C16', edits=[('newt/read_multiFor.py', 'if UR > LR:', 'if UR > 2*LR:')],
  needs='a cone frustum opening upwards by less than a factor of two', breaks='such a frustum is read upside down',
  demo='''
import newt.read_multiFor as r, tempfile
with tempfile.TemporaryDirectory() as d:
    open(d+'/a.mpc', 'w').write('x\\ncreate cone\\n1,1.5,2\\n2\\n0,0,0\\nadd\\nend\\n')
    q = r.read_mpc(2, 'a', d+'/')
z = q[1, 2].real/q[0, 2].real/np.sqrt(3)*100
w = 2/4*(1+2*1.5+3*1.5**2)/(1+1.5+1.5**2)
assert abs(z-w) < 1e-9, (z, w)
'''),
 dict(id='c17-rotate-order', property='C17', edits=[('newt/shapes.py', '''        rotcom = glb.rotate_point_array(rotcom, gamma, [0, 0, 1])
        rotcom = glb.rotate_point_array(rotcom, beta, [0, 1, 0])
        rotcom = glb.rotate_point_array(rotcom, alpha, [0, 0, 1])
        self.com = rotcom[1:4]''', '''        rotcom = glb.rotate_point_array(rotcom, gamma, [0, 0, 1])
        rotcom = glb.rotate_point_array(rotcom, beta, [0, 1, 0])
        rotcom = glb.rotate_point_array(rotcom, alpha, [0, 0, 1])
        if self.com[0] or self.com[1]:
            self.com = rotcom[1:4]''')],
  needs='a shape whose centre of mass lies on the z axis', breaks='its centre of mass is not rotated',
  demo='''
import newt.shapes as s
c = s.Cone(2, True, 1., 2., 1., 0., np.pi)
c.com = np.array([0., 0, .5])
c.rotate(.2, .7, .1)
assert abs(c.com[2]-.5*np.cos(.7)) < 1e-9, c.com
'''),
 dict(id='c17-negative-mass', property='C17', edits=[('newt/shapes.py', '                com += shape.mass*shape.com', '                com += abs(shape.mass)*shape.com')],
  needs='adding a hole (negative mass) off centre', breaks='the centre of mass of a body with a hole is wrong',
  demo='''
import newt.shapes as s
a, b = s.Sphere(2, True, 3., .1, (0., 0., 0.)), s.Sphere(2, True, -1., .1, (1., 0., 0.))
a.mesh = b.mesh = None
import newt.genCAD as g
g.sum_mesh = lambda x: None
a.add(b)
assert np.allclose(a.com, [-.5, 0, 0]), a.com
'''),
 dict(id='c23-small-argument', property='C23', edits=[('newt/pg2Multi.py', 'il = sp.spherical_in(l, r/lmbd)', 'il = sp.spherical_in(l, np.where(r/lmbd > 1e-4, r/lmbd, 0))')],
  needs='a point closer than 1e-4 length scales to the origin', breaks='its single Yukawa moments beyond degree 0 vanish',
  demo='''
import newt.pg2Multi as p
a = np.array([[1., 3e-5, 2e-5, 1e-5]])
i, j = p.imoment(1, 1, 1., a), p.imoments(1, 1., a)[1, 2]
assert abs(i-j) < 1e-9*abs(j), (i, j)
'''),
 dict(id='c04-many-degrees', property='C04', edits=[('newt/pg2Multi.py', '''        rl1 = r**(n+1)
        for m in range(n+1):''', '''        rl1 = r**(n+1)
        if rl1.max() == np.inf or rl1.min() < 1e-200:
            break
        for m in range(n+1):''')],
  needs='points so near the origin that r**(l+1) is below 1e-200', breaks='outer moments from there on are silently zero',
  demo='''
import newt.pg2Multi as p
a = np.array([[1., 1e-30, 2e-30, 1e-30]])
q, w = p.Qmomentsb(8, a)[7, 15], p.Qmomentb(7, 7, a)
assert abs(q-w) <= 1e-9*abs(w), (q, w)
'''),
 dict(id='c19-shared-matrices', property='C19', edits=[('newt/rotations.py', '''def wignerDl(LMax, alpha, beta, gamma):
''', '''_cache = {}


def wignerDl(LMax, alpha, beta, gamma):
'''), ('newt/rotations.py', '''    beta = beta % (2*np.pi)
    ms = np.arange(-LMax, LMax+1)
    # If beta is between (pi, 2pi] we need to use as H(-b) and symmetry
    if beta > np.pi:
        beta = 2*np.pi - beta
        fac = np.outer((-1)**(np.abs(ms)), (-1)**(np.abs(ms)))
    else:
        fac = 1
    ds = rotate_H_recurs(LMax, beta)
    expa''', '''    key = (LMax, float(alpha), float(beta), float(gamma))
    if key in _cache:
        return _cache[key]
    beta = beta % (2*np.pi)
    ms = np.arange(-LMax, LMax+1)
    # If beta is between (pi, 2pi] we need to use as H(-b) and symmetry
    if beta > np.pi:
        beta = 2*np.pi - beta
        fac = np.outer((-1)**(np.abs(ms)), (-1)**(np.abs(ms)))
    else:
        fac = 1
    ds = rotate_H_recurs(LMax, beta)
    _cache.clear()
    _cache[key] = ds
    expa''')],
  needs='two consecutive calls with the same angles, the first result changed in between', breaks='the rotation matrices of consecutive equal calls are the same arrays',
  demo='''
import newt.rotations as rot
a = rot.wignerDl(2, .1, .2, .3)
w = a[2].copy()
a[2] *= 0
b = rot.wignerDl(2, .1, .2, .3)
assert np.array_equal(b[2], w)
'''),
 dict(id='c05-tall-cutoff', property='C05', edits=[('newt/multipoleLib.py', 'qNew[:] = qlm[:LNew+1, LOld-LNew:LOld+LNew+1]', 'qNew[:] = qlm[:LNew+1, LOld-LNew:LOld+LNew+1]\n        qNew[np.abs(qNew) < 1e-30] = 0')],
  needs='moments smaller than 1e-30 (small bodies, high degrees)', breaks='truncating zeroes small moments',
  demo='''
import newt.multipoleLib as m
q = np.zeros([4, 7], complex)
q[2, 4] = 1e-33
assert m.embed_qlm(q, 2)[2, 3] == 1e-33
'''),
]
