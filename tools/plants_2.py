PLANTS = [
 dict(id='c01-yukawa-clip', property='C01', edits=[('newt/glib.py', 'force = rvec.T.dot(coef*mass2[:, 0]*np.exp(-r/lmbd)*fac)', 'force = rvec.T.dot(coef*mass2[:, 0]*np.exp(-np.minimum(r/lmbd, 60.))*fac)')],
  needs='a pair more than sixty length scales apart', breaks='the Yukawa force stops falling exponentially beyond sixty length scales',
  demo='''
import newt.glib as g
a, b = np.array([[1., 0, 0, 0]]), np.array([[1., 100., 0, 0]])
f, t = g.point_matrix_yukawa(a, b, 1, 1)
w = g.BIG_G*101*np.exp(-100.)/1e4
assert abs(f[0]-w) < 1e-9*w, (f, w)
'''),
 dict(id='c02-holes-dropped', property='C02', edits=[('newt/glib.py', '''        # Which way does the force act
        rvec = mass2[:, 1:4]-mass1[1:4]
        # Pythagoras for modulus
        r = np.sqrt(np.sum(rvec**2, 1))
        # compute force
        force = rvec.T.dot(BIG_G*mass1[0]*mass2[:, 0]/r**3)''', '''        # Only real points pull
        mass2 = mass2[mass2[:, 0] > 0]
        # Which way does the force act
        rvec = mass2[:, 1:4]-mass1[1:4]
        # Pythagoras for modulus
        r = np.sqrt(np.sum(rvec**2, 1))
        # compute force
        force = rvec.T.dot(BIG_G*mass1[0]*mass2[:, 0]/r**3)''')],
  needs='negative masses in the second set', breaks='points of negative mass (holes) in the second set exert no force but feel one, so action is not reaction',
  demo='''
import newt.glib as g
a, b = np.array([[1., 0, 0, 0], [2., 0, 1, 0]]), np.array([[-1., 3., 1, 0], [2, 1, 1, 1]])
f, t = g.point_matrix_gravity(a, b)
f2, t2 = g.point_matrix_gravity(b, a)
assert np.allclose(f, -f2, rtol=1e-9, atol=0), (f, f2)
'''),
 dict(id='c04-near-origin', property='C04', edits=[('newt/pg2Multi.py', 'rids = np.where(r != 0)[0]', 'rids = np.where(r > 1e-9*np.max(r))[0]', 0)],
  needs='masses whose distances from the origin differ by more than nine orders of magnitude, the near one much heavier', breaks='a heavy mass very near the origin is left out of the single inner moment',
  demo='''
import newt.pg2Multi as pgm
p = np.array([[1e-20, 1e5, 0, 0], [1e10, 1e-5, 0, 0]])
a = pgm.qmoment(1, 1, p)
b = pgm.qmoments(1, p)[1, 2]
assert abs(a-b) < 1e-9*abs(b), (a, b)
'''),
 dict(id='c05-embed-same', property='C05', edits=[('newt/multipoleLib.py', '''    elif LNew == LOld:
        qNew = np.copy(qlm)''', '''    elif LNew == LOld:
        qNew = qlm''')],
  needs='embedding to the degree the array already has, then changing the result', breaks='embedding to the same degree returns the argument itself',
  demo='''
import newt.multipoleLib as m
q = np.ones([3, 5], complex)
e = m.embed_qlm(q, 2)
e *= 0
assert np.all(q == 1)
'''),
 dict(id='c07-cone2-q5', property='C07', edits=[('newt/qlmACH.py', 'q5 -= 12*h**2*(35*r2**4)', 'q5 -= 12*h**2*(35*r2**4*(r1 > 0) + 30*r2**4*(r1 <= 0))', 1)],
  needs='degree 5 of a complete cone standing on its tip', breaks='the degree five moment of a complete cone with its tip down is wrong',
  demo='''
import newt.qlmACH as A
q, w = A.cone2(5, 1., 1.3, 0., .7), A.cone2(5, 1., 1.3, 1e-9, .7)
assert abs(q[5, 5]-w[5, 5]) < 1e-6*abs(w[5, 5]), (q[5, 5], w[5, 5])
'''),
 dict(id='c08-annulus-below', property='C08', edits=[('newt/bigQlm.py', 'Qlmb[5, L+4] = sH*dens', 'Qlmb[5, L+4] = abs(sH)*dens')],
  needs='an annular section below the plane, degree 5, order 4', breaks='the (5,4) outer moment of annular sections below the plane has the wrong sign',
  demo='''
import newt.bigQlm as b
q, w = b.annulus(5, 1., .5, 1., 2., .2, .5), b.annulus(5, 1., -.5, 1., 2., .2, .5)
assert abs(q[5, 9]+w[5, 9]) < 1e-9*abs(q[5, 9]), (q[5, 9], w[5, 9])
'''),
 dict(id='c10-small-shift', property='C10', edits=[('newt/translations.py', '''    if rP == 0:
        return np.copy(qlm)''', '''    if rP < 1e-6:
        return np.copy(qlm)''', 0)],
  needs='a displacement shorter than a micron', breaks='inner moments are not moved by displacements below a micron',
  demo='''
import newt.translations as t
q = np.zeros([3, 5], complex); q[0, 2] = 1
w = t.translate_qlm(q, [0, 0, 5e-7])
assert abs(w[1, 2]-np.sqrt(3)*5e-7) < 1e-12, w
'''),
 dict(id='c10-recurs-against-z', property='C10', edits=[('newt/translationRecurs.py', '''    if r == rvec[2]:
        phi, theta = 0, 0
        Qlmp = apply_trans_mat(qlm, srms, q2Q=True)''', '''    if r == abs(rvec[2]):
        phi, theta = 0, 0
        Qlmp = apply_trans_mat(qlm, srms, q2Q=True)''')],
  needs='a source moved from inner to outer exactly along -z by the matrix method', breaks='a displacement along -z is treated as one along +z',
  demo='''
import newt.translationRecurs as t, newt.translations as t2
q = np.zeros([3, 5], complex); q[0, 2] = 1
a, b = t.translate_q2Q(q, [0, 0, -2.]), t2.translate_q2Q(q, [0, 0, -2.])
assert np.allclose(a, b), (a, b)
'''),
 dict(id='c11-long-sum', property='C11', edits=[('newt/clebschGordan.py', 'kmax = min([j1+j2-J, j1-m1, j2+m2])', 'kmax = min([j1+j2-J, j1-m1, j2+m2, 24])', 1)],
  needs='a sum of more than twenty-five terms (angular momenta of at least 25)', breaks='the second implementation cuts long sums off',
  demo='''
import newt.clebschGordan as cg
a, b = cg.cgCoeff(26, 26, 0, 0, 0, 0), cg.cgCoeff2(26, 26, 0, 0, 0, 0)
w = 1/np.sqrt(53)
assert abs(b-w) < 1e-3, (a, b, w)
'''),
 dict(id='c12-small-skipped', property='C12', edits=[('newt/multipoleLib.py', '''                for m in range(mo-lp, mo+lp+1):
''', '''                if not np.abs(Qlmb[l]).max() > 1e-9:
                    continue
                for m in range(mo-lp, mo+lp+1):
''', 0)],
  needs='source moments that are all smaller than 1e-9 in some degree', breaks='small (distant or light) source moments exert no multipole force',
  demo='''
import newt.multipoleLib as m, newt.pg2Multi as pgm
q = pgm.qmoments(3, np.array([[1., .1, .2, .3]]))
Q = pgm.Qmomentsb(3, np.array([[1., 3, 4, 5]]))
a, b = m.multipole_force(3, q, Q, 0, 0, 0, 1.), m.multipole_force(3, q, Q*1e-9, 0, 0, 0, 1e9)
assert np.allclose(a, b, rtol=1e-9), (a, b)
'''),
 dict(id='c13-source-down', property='C13', edits=[('newt/multipoleLib.py', 'elif r == rvec[2]:', 'elif r == abs(rvec[2]):', 1)],
  needs='a source moved exactly along -z inside the torque calculation', breaks='the source is moved along +z when the displacement points along -z',
  demo='''
import newt.multipoleLib as m, newt.pg2Multi as pgm, newt.translations as t
q = pgm.qmoments(4, np.array([[1., .1, .2, .3]]))
Q = pgm.Qmomentsb(4, np.array([[1., 3, 4, 5]]))
a = m.torque(Q, q, [0, 0, 0], [0, 0, -.3], 'outer-outer', 1.)[0]
b = m.torque(Q, q, [0, 0, 0], [1e-12, 0, -.3], 'outer-outer', 1.)[0]
assert np.allclose(a.sum(0), b.sum(0)), (a.sum(0), b.sum(0))
'''),
 dict(id='c14-wedge-wide', property='C14', edits=[('newt/glibShapes.py', '''        xmin = np.cos(beta)*r2
        ymax = r2
    zgrid = t/nz
    xgrid = (xmax-xmin)/nx
    xave = (xmax+xmin)/2
    ygrid = 2*ymax/nx

    density = mass/(np.pi*(r2**2-r1**2)*t)''', '''        xmin = np.cos(beta)*(r1+r2)/2
        ymax = r2
    zgrid = t/nz
    xgrid = (xmax-xmin)/nx
    xave = (xmax+xmin)/2
    ygrid = 2*ymax/nx

    density = mass/(np.pi*(r2**2-r1**2)*t)''')],
  needs='a wedge of more than half a turn', breaks='wide wedges lose their far corners',
  demo='''
import newt.glibShapes as s
p = s.wedge(1., 1., 3., 1., 3., 60, 1)
assert p[:, 1].min() < -2.8, p[:, 1].min()
'''),
 dict(id='c15-prism-below', property='C15', edits=[('newt/gShapeGL.py', 'ymax = np.max([0, y2])', 'ymax = y2')],
  needs='a triangular prism both of whose corners lie below the x axis', breaks='the bounding box of such prisms stops at the upper corner, losing part of the body',
  demo='''
import newt.gShapeGL as s
p = s.tri_prism(1., 1., -3., -1., 1., 20, 20, 1)
assert p[:, 2].max() > -.3, p[:, 2].max()
'''),
 dict(id='c16-gettotal-alias', property='C16', edits=[('newt/read_multiFor.py', 'qlmWrk = np.copy(qlmTot)', 'qlmWrk = qlmTot')],
  needs='gettotal followed by two add commands', breaks='the working register is the total register itself, so adding twice counts four times instead of three',
  demo='''
import newt.read_multiFor as r, tempfile, os
with tempfile.TemporaryDirectory() as d:
    with open(os.path.join(d, 'a.mpc'), 'w') as f:
        f.write("title\\ncreate sphere\\n1.\\n1.,0\\n0,0,0\\nadd\\ngettotal\\nadd\\nadd\\nend\\n")
    q = r.read_mpc(1, 'a', d+'/')
w = 3*4/3*np.pi*1e-3/np.sqrt(4*np.pi)
assert abs(q[0, 1]-w) < 1e-9*w, (q[0, 1], w)
'''),
 dict(id='c17-sum-degree', property='C17', edits=[('newt/shapes.py', '''            self.lmax = lmax
''', '''            self.lmax = min(self.lmax, lmax)
''')],
  needs='adding a shape of higher lmax and then adding again', breaks='the lmax of a sum stays that of the first shape although its moments have grown, so the next sum misplaces them',
  demo='''
import newt.shapes as s
a, b, c = (s.Annulus(l, True, 1., 1., 1., 2., 0., .5) for l in (2, 4, 3))
a.add(b)
assert a.lmax == len(a.qlm)-1, (a.lmax, a.qlm.shape)
'''),
 dict(id='c18-cone-angle', property='C18', edits=[('newt/qlm.py', 'if (P <= 0) or (R <= 0) or (phih <= 0) or (phih > np.pi):', 'if (P <= 0) or (R <= 0) or (phih <= 0) or (phih > 2*np.pi):')],
  needs='a cone section with a half angle between pi and 2 pi', breaks='cones that overlap themselves are accepted',
  demo='''
import newt.qlm as qlm
try:
    qlm.cone(2, 1., 1., 1., 0., 4.)
except ValueError:
    pass
else:
    raise SystemExit('accepted')
'''),
 dict(id='c19-rotate-in-place', property='C19', edits=[('newt/rotations.py', '''    LMax = np.shape(qlm)[0] - 1
    qNew = np.copy(qlm)
    if LMax != len(ds)-1:''', '''    LMax = np.shape(qlm)[0] - 1
    qNew = np.array(qlm, copy=None, dtype=complex)
    if LMax != len(ds)-1:''', 1)],
  needs='complex moments multiplied from the right by rotation matrices and used again', breaks='the moments passed in are overwritten',
  demo='''
import newt.rotations as rot, newt.pg2Multi as pgm
q = pgm.qmoments(2, np.array([[1., 1, 2, 3]])).astype(complex)
w = q.copy()
rot.rotate_qlm_Ds_right(q, rot.wignerDl(2, .1, .2, .3))
assert np.all(q == w)
'''),
 dict(id='c21-yz-plane', property='C21', edits=[('newt/glibShapes.py', '    RQZ[:, 2] = XYZ[:, 2]\n', '    RQZ[XYZ[:, 0] == 0, 1] = np.pi/2\n    RQZ[:, 2] = XYZ[:, 2]\n')],
  needs='a point with x exactly zero and y not positive', breaks='the azimuth of points with x = 0 is a quarter turn whatever the sign of y',
  demo='''
import newt.glibShapes as s
p = np.array([[0., -2., 1.], [1, 1, 1]])
assert np.allclose(s.cyl_2_cart(s.cart_2_cyl(p)), p)
'''),
 dict(id='c22-tilt-sign', property='C22', edits=[('newt/qlmNum.py', 'tanth = np.tan(theta)', 'tanth = np.abs(np.tan(theta))')],
  needs='a plate hole tilted the other way', breaks='a plate tilted by a negative angle is treated as tilted by the positive one',
  demo='''
import newt.qlmNum as n
a, b = n.platehole(2, 1., 1., .5, .3), n.platehole(2, 1., 1., .5, -.3)
assert abs(a[2, 3]+b[2, 3]) < 1e-6, (a[2, 3], b[2, 3])
'''),
 dict(id='c23-large-argument', property='C23', edits=[('newt/pg2Multi.py', 'il = sp.spherical_in(n, r/lmbd)', 'il = sp.spherical_in(n, np.minimum(r/lmbd, 100.))')],
  needs='a mass more than a hundred length scales from the origin', breaks='the Yukawa moments of far masses saturate',
  demo='''
import newt.pg2Multi as pgm
p = np.array([[1., 0, 0, 150.]])
a, b = pgm.imoments(2, 1., p)[2, 2], pgm.imoment(2, 0, 1., p)
assert abs(a-b) < 1e-9*abs(b), (a, b)
'''),
]
