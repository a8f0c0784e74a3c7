PLANTS = [
 dict(id='c04-origin-any', property='C04', edits=[('newt/pg2Multi.py', 'if (r == 0).any():', 'if (r == 0).all():', 1)],
  needs='several point masses of which only some lie at the origin', breaks='all-moments outer function returns nan instead of zeros when one of several masses lies at the origin',
  demo='''
import newt.pg2Multi as pgm
p = np.array([[1., 0, 0, 0], [2., 1, 1, 1]])
with np.errstate(all='ignore'):
    q = pgm.Qmomentsb(3, p)
assert np.all(q == 0), q
'''),
 dict(id='c03-unnormalised-small', property='C03', edits=[('newt/glib.py', 'unit = rotVec/norm', 'unit = rotVec/norm if norm > 1e-2 else rotVec/1.')],
  needs='an axis vector shorter than 0.01', breaks='rotation about a short axis vector is not a rotation',
  demo='''
import newt.glib as g
p = np.array([[1., 1, 2, 3], [2., 1, 1, 1]])
a = g.rotate_point_array(p, 1.1, np.array([1e-3, 2e-3, -1e-3]))
b = g.rotate_point_array(p, 1.1, np.array([1., 2, -1]))
assert np.allclose(a, b), (a, b)
'''),
 dict(id='c01-yukawa-bare-row', property='C01', edits=[('newt/glib.py', 'torque = np.cross(mass1[1:], force)', 'torque = np.cross(mass1[1:]-np.mean(np.atleast_2d(mass2)[:, 1:4], 0)*0*(lmbd > 1) - (np.ndim(mass2) == 1)*(mass2[1:4] if np.ndim(mass2) == 1 else 0), force)')],
  needs='both bodies given as bare rows in the Yukawa interaction', breaks='torque is taken about the second mass instead of the origin',
  demo='''
import newt.glib as g
a, b = np.array([1., 1, 2, 3]), np.array([2., -1, 1, 1.5])
f1, t1 = g.point_matrix_yukawa(a, b, 1, 1)
f2, t2 = g.point_matrix_yukawa(a[None], b[None], 1, 1)
assert np.allclose(t1, t2, rtol=1e-9, atol=0), (t1, t2)
'''),
 dict(id='c11-edge-phase', property='C11', edits=[('newt/clebschGordan.py', 'kmax = min([j1+j2-J, j1-m1, j2+m2])', 'kmax = min([j1+j2-J, j1-m1, j2+m2, 6])', 0)],
  needs='a sum with more than seven terms (large j)', breaks='the Racah sum is truncated for large angular momenta',
  demo='''
import newt.clebschGordan as cg
a, b = cg.cgCoeff(9, 9, 0, 0, 2, 0), cg.cgCoeff2(9, 9, 0, 0, 2, 0)
assert abs(a-b) < 1e-8, (a, b)
'''),
 dict(id='c06-ngon-high-m', property='C06', edits=[('newt/qlm.py', 'pfac = (-1)**p*sp.comb(m, 2*p)', 'pfac = (-1)**p*np.int32(sp.comb(m, 2*p) if m < 34 else 2**31-1)', 0)],
  needs='order m >= 34', breaks='high orders of the isosceles prism use a saturated binomial coefficient',
  demo='''
import newt.qlm as qlm
L = 34
q = qlm.tri_iso_prism(L, 1, .1, 2., 1., 0.)
q2 = qlm.tri_prism(L, 1, .1, 1., -1., 1.)
assert abs(q[L, 2*L]-q2[L, 2*L]) < 1e-6*abs(q2[L, 2*L]), (q[L, 2*L], q2[L, 2*L])
'''),
 dict(id='c10-outer-lowdeg', property='C10', edits=[('newt/translations.py', 'thetaP = np.arccos(rPrime[2]/rP)', 'thetaP = np.arccos(abs(rPrime[2])/rP) if rPrime[0] == 0 == rPrime[1] else np.arccos(rPrime[2]/rP)', 1)],
  needs='outer-to-outer displacement exactly along -z', breaks='outer moments are moved along +z when the displacement points along -z',
  demo='''
import newt.translations as t, newt.pg2Multi as pgm
P = np.array([[1., 5, 4, 3]])
q = t.translate_Qlmb(pgm.Qmomentsb(12, P), np.array([0, 0, -.1]))
w = pgm.Qmomentsb(12, P-[0, 0, 0, .1])
assert abs(q[1, 12]-w[1, 12]) < 1e-6, (q[1, 12], w[1, 12])
'''),
]
