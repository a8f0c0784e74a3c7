"""the properties; imported by mk.py"""
PROPS = []


def prop(id, title, statement, text, why, files, mech, over=('inputs',), level='proof', note='', na=None):
    c = lambda s: ' '.join(s.split())
    PROPS.append(dict(
        id=id, title=title, statement=c(statement),
        quantifier=dict(over=list(over), text=c(text)), why_tests_cant=c(why),
        anchors=dict(files=[f if f.startswith('matlab') else 'newt/'+f for f in files],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=['return values (and arguments after the call) of the public functions of these files'],
                     hook_needed=None),
        _level=level, _note=c(note), _na=na))


REALS = 'Doubles are treated as exact reals, numpy and scipy.special primitives by contracts assumed for them.'

prop('C01', 'Point-mass force and torque follow Newton and Yukawa exactly',
     '''The force on a set of point masses from another set is the sum over all ordered pairs of
     G m1 m2 d/|d|^3 with d pointing from the first to the second mass, and the torque is the sum of
     r1 x f with r1 measured from the origin. The Yukawa versions multiply every pair by
     alpha (1+|d|/lambda) exp(-|d|/lambda). This holds for any number of masses on either side, including a
     single mass given as a bare row, and for zero or negative masses.''',
     'all N x 4 and M x 4 arrays (any N, M, positive separations), all alpha, lambda > 0',
     'tests evaluate a handful of symmetric configurations with one or two masses',
     ['glib.py'], [('pairwise accumulation', 'newt/glib.py: gmmr2_array, yukawa_array, point_matrix_gravity, point_matrix_yukawa')],
     note='All obligations discharged for unbounded array lengths. '+REALS)
prop('C02', 'Point-mass interactions obey action-reaction, superposition and covariance',
     '''The total force on one set of point masses is minus the total force on the other and the two total torques
     about the origin cancel. Splitting, concatenating or permuting a set changes no total, scaling all masses of a set
     scales force and torque, and moving both sets by one common rotation and translation rotates the force (and carries
     the torque) accordingly.''',
     'all pairs of point sets of any size, every partition and order, every rigid motion',
     'each test fixes one geometry; the identities quantify over pairs of configurations',
     ['glib.py'], [('pairwise kernel symmetric in the pair, sums over pairs', 'newt/glib.py')],
     note='Lemmas over the C01 and C03 contracts of the real functions. '+REALS)
prop('C03', 'Translating and rotating point-mass arrays is an exact rigid motion',
     '''Translating an array of point masses adds the displacement to every position, and rotating it by an angle about a
     vector turns every position right-handedly about the unit vector of that axis through the origin, leaving every
     mass unchanged. Both accept one row or many rows, keep the shape and row order, return a new array and leave
     their arguments unmodified.''',
     'all arrays of any length, all displacements, all angles, all non-zero axes (not only unit or coordinate axes)',
     'tests rotate about coordinate axes by special angles',
     ['glib.py'], [('Rodrigues matrix', 'newt/glib.py: rotate_point_array, translate_point_array')],
     note='All obligations discharged for unbounded array lengths. '+REALS)
prop('C04', 'Point-mass multipole moments equal their defining sums',
     '''The inner moment of degree l, order m of point masses is the sum of m_i r_i^l conj(Y_lm) and the outer moment the
     sum of m_i Y_lm / r_i^(l+1), with orthonormal spherical harmonics including the Condon-Shortley phase. Single-moment
     and all-moment functions agree for every degree, both signs of m, and masses anywhere, including on the axes, on the negative axes and
     (inner moments) at the origin; outer moments requested for a mass at the origin are returned as zero.''',
     'all N x 4 arrays, all l, all |m| <= l',
     'tests look at a few low degrees for symmetric masses; origin and negative-axis cases are absent',
     ['pg2Multi.py'], [('spherical harmonic sums', 'newt/pg2Multi.py: qmoment, Qmomentb, qmoments, Qmomentsb')],
     note='All obligations discharged for every N, L, l, m. '+REALS)
prop('C05', 'Every moment array has the documented layout, symmetry and prefix property',
     '''Every function returning moments up to degree L returns an (L+1) x (2L+1) complex array holding degree l, order m at
     row l and column L+m, with zeros wherever |m| > l and with moment(l,-m) = (-1)^m conj(moment(l,m)). Asking for a smaller
     maximum degree returns exactly the corresponding part of the larger array. Embedding or truncating an array to another
     degree keeps each moment with its degree and order and fills new places with zeros, returning a new array.''',
     'all L >= 0 and all parameters of every moment-producing function',
     'tests index selected entries at one or two values of L',
     ['qlm.py', 'qlmACH.py', 'bigQlm.py', 'pg2Multi.py', 'multipoleLib.py', 'rotations.py', 'translations.py'],
     [('mirror step after filling m >= 0', 'end of every moment function'), ('embed_qlm', 'newt/multipoleLib.py')],
     note=REALS)
prop('C06', 'Closed-form inner moments are the volume integrals of their solids',
     '''For each documented homogeneous solid (sphere, cylinder, annular section, conical section, triangular, rectangular and
     regular n-gon prisms, tetrahedra, pyramid) every returned inner moment up to degree L equals the density
     times the integral of r^l conj(Y_lm) over the documented body, in particular the (0,0) moment is mass/sqrt(4 pi). This holds for every degree, every documented
     dimension and orientation angle.''',
     'all L, all positive dimensions and masses of either sign, all angles in the documented ranges',
     'tests compare with sums over point grids at a single parameter set to a few per cent',
     ['qlm.py'], [('finite sums / recursions in l, m', 'newt/qlm.py')],
     note='''Every entry for every L and dimension is proved equal to the repository-independent closed sums in vc/spec.py (finite sums of Stirling
     and Schlamminger, derived once per solid); that those sums equal the volume integrals is checked to degree 8 by quadrature at run time, not proved. '''+REALS)
prop('C07', 'The explicit low-degree moment formulas are exact for their solids',
     '''Each function of the explicit-formula module (solids given by height, radii, angles and offsets, moments up to at most degree five)
     returns for every degree it documents exactly the inner moments of the documented homogeneous body, for all dimensions.
     Where the recursive closed-form module describes the same body the two agree to every degree both provide. Degrees beyond the documented one are returned as zero.''',
     'all dimensions and angles, all L from 0 to 5 and beyond',
     'one parameter set per solid, several solids with no test of the degree four and five entries',
     ['qlmACH.py'], [('explicit polynomials per moment', 'newt/qlmACH.py')],
     note=REALS)
prop('C08', 'Outer moments of extended sources equal their defining integrals',
     '''The outer moments of an extended source of given density equal density times the integral of Y_lm / r^(l+1) over the documented body,
     for every degree provided and for all dimensions, centring angles and heights. The outer moments of a homogeneous sphere away from the origin are those of a point mass of the
     same mass at its centre.''',
     'all positive dimensions, all angles, all degrees offered',
     'one thin parameter set per body, and low degrees only',
     ['bigQlm.py', 'bigQlmNum.py'], [('explicit polynomials and quadrature set-ups', 'newt/bigQlm.py, newt/bigQlmNum.py')],
     note=REALS)
prop('C09', 'Rotating moments is rotating the bodies',
     '''Rotating the inner moments of a body by Euler angles (alpha, beta, gamma) gives the inner moments of the body turned by
     gamma about z, then beta about y, then alpha about z; outer moments follow the same motion when rotated with (-alpha, beta, -gamma).
     The rotation matrices of every degree are the Wigner D matrices for all real angles, zero and multiples of pi included, they are unitary, and
     the conjugate-transposed and right-handed (row vector) applications are the corresponding inverse and transpose. All the alternative ways of computing
     the rotation coefficients agree.''',
     'all degrees, all moment arrays, all real angles',
     'tests use a few angles and low degree, and never all ranges of beta',
     ['rotations.py'], [('Wigner recursion', 'newt/rotations.py: rotate_H_recurs, wignerDl, Dl, Dlmn, dlmn'), ('block application', 'newt/rotations.py: rotate_qlm, rotate_qlm_Ds, rotate_qlm_Ds_right')],
     note='''Every function is proved for every degree: the recursion by invariants for its three loops (rows of the H matrices) and relations of Wigner
    functions of symbolic degree proved coefficient by coefficient; assumed: the contract of scipy's lpmn (checked at run time). That the matrices turn the moments of a
    body into those of the turned body, for every degree, uses the uniqueness of solutions of linear differential equations. '''+REALS)
prop('C10', 'Translating moments is translating the bodies',
     '''Translating the moments of a body by a vector gives the moments of the translated body: inner to inner exactly, outer to outer and inner to
     outer up to the truncation at the kept degree, i.e. every kept coefficient is the addition-theorem combination of the given ones. It holds for every direction of the
     displacement, along and against each axis and zero, and the recursive translation matrices give the same result as the direct formula; the argument is not modified.''',
     'all degrees, all moment arrays, all displacement vectors',
     'tests translate one or two masses along selected directions',
     ['translations.py', 'translationRecurs.py'], [('addition theorem with Clebsch-Gordan coefficients', 'newt/translations.py'), ('coaxial recursions plus rotations', 'newt/translationRecurs.py')],
     note='''Direct formulas, recursive matrices and whole recursive translations proved for every L, the addition theorems of inner and outer moments as lemmas of every degree. '''+REALS)
prop('C11', 'Clebsch-Gordan coefficients are exact for all angular momenta',
     '''Every Clebsch-Gordan coefficient <j1 m1 j2 m2|J M> returned equals the exact value with the Condon-Shortley sign for all integer
     angular momenta. It is zero whenever M differs from m1+m2, the triangle condition fails or a projection exceeds its angular momentum, and the
     two implementations agree.''',
     'all integer j1, j2, J, m1, m2, M',
     'the tests tabulate some coefficients for small j',
     ['clebschGordan.py'], [('Racah sum', 'newt/clebschGordan.py: cgCoeff, cgCoeff2')],
     note='Proved for all arguments against the Racah formula. '+REALS)
prop('C12', 'The multipole force is the gravitational force between the two bodies',
     '''For inner moments of a sensor, displaced by (x, y, z), and outer moments of a source, both to degree L, the multipole force is G times the sum over degrees of the gradient
     of the interaction energy, so that for point masses it converges, with growing L, to the direct Newtonian force on the sensor,
     and for any sensor whose moments end at degree l it is exact in all terms kept. It is linear in both sets of moments and in the coupling constant, real, and the per-order version sums to the total.''',
     'all moment arrays, all L >= 0, all displacements including zero and the axes',
     'tests compare single configurations of few masses',
     ['multipoleLib.py'], [('recursive solid-harmonic gradient', 'newt/multipoleLib.py: force_basis'), ('coupling sum', 'newt/multipoleLib.py: multipole_force, multipole_force_m')],
     note='The gradient basis is proved for every degree by invariants of its loops, the coupling sums for every L; the explicit polynomials up to degree 3 are bounded cross-checks. '+REALS)
prop('C13', 'The multipole torque about z equals the direct torque at every angle',
     '''The torque moments are -4 pi i G m q Q /(2l+1) for every degree and order, and the cosine and sine amplitudes built from them reproduce, at every turntable angle, the
     z torque on the rotated sensor from the fixed source. Moving the sensor (inner to inner) or the source (outer to outer, inner to outer) by Euler angles and a displacement inside the
     torque calculation gives the same torque as moving the body first and then taking the torque, for every direction of displacement.''',
     'all moment arrays, L >= 0, all angles, all displacements and Euler angles, all three kinds of translation',
     'tests look at a few displacements; displacements along z of the converting kind are never used',
     ['multipoleLib.py'], [('torque_lm, torque, torques_at_angle', 'newt/multipoleLib.py')],
     note='Proved for every L, against the contracts of the rotation and translation matrices (C09, C10). '+REALS)
prop('C14', 'Uniform-grid solids fill the documented body with the stated mass',
     '''Every uniform point-mass model of a solid has total mass equal to the given mass, all of it inside the documented body (its stated position,
     orientation and full or half dimensions), with points at the centres of equal cells so that the model converges to the homogeneous body and its centre of mass and symmetries are the body's.
     Curved or oblique solids keep exactly the grid cells whose centre lies inside the body, each with equal mass.''',
     'all masses, dimensions and grid numbers of every solid',
     'tests check totals or moments to a few per cent for one grid',
     ['glibShapes.py'], [('cell-centred grids', 'newt/glibShapes.py')],
     note=REALS)
prop('C15', 'Gauss-Legendre solids are the Gauss product rule on the documented body',
     '''Every Gauss-Legendre point-mass model of a solid carries total mass equal to the given mass, and its points are exactly those nodes of the product Gauss-Legendre rule on the bounding box of the
     documented body (its stated position, orientation, full or half dimensions) that lie inside the body, with masses in the ratio of the products of the weights. For the rectangular solid, where every
     node is kept, summing a polynomial over the points therefore gives the integral of density times that polynomial over the homogeneous body whenever the number of nodes per direction suffices for its
     degree (2n-1), including mass, centre of mass and second moments.''',
     'all masses, dimensions and node numbers of every solid',
     'tests compare a few low multipole moments for one set of dimensions',
     ['gShapeGL.py'], [('mapped Gauss-Legendre nodes and weights', 'newt/gShapeGL.py')],
     note=REALS)
prop('C16', 'MULTIN files are read into the moments they describe',
     '''Reading an inner-moment file (.gsq) yields the (L+1) x (2L+1) array with each listed moment (for m >= 0) converted from CGS to SI units at its degree and order, reading an outer-moment file (.gbq)
     the array of the listed numbers, both with negative orders filled by conjugate symmetry. Executing a MULTIN command file (.mpc) yields the inner moments of the sum of the added bodies, each with the listed shape,
     density (g/cm^3), position, rotations (degrees) and translations in the current length unit (centimetres at first), following the working/total register semantics of create, rotate, translate, add, load (.gsq file in the mom directory beside the mpc one),
     zeroqlm, gettotal, puttotal, cmin, inchin and end; commands may occur in any number and order, and comments and empty lines are ignored.''',
     'all well-formed files: any degree, any numbers, any sequence of commands (known shapes of positive dimensions; recall, store, rescale and save are documented as unsupported)',
     'three sample files',
     ['read_multiFor.py'], [('read_gsq, read_gbq, read_mpc', 'newt/read_multiFor.py')], over=('inputs', 'programs', 'histories'),
     note=REALS)
prop('C17', 'Shape objects keep moments, mass and centre of mass consistent',
     '''After any sequence of constructing, rotating, translating and adding shape objects, the stored moments are those of the moved and combined bodies, the mass is the total mass and the centre of mass
     is the moved, mass-weighted one (in a sum of shapes of different lmax every part counts up to its own lmax). An inner shape becomes outer exactly when translated as such; moving outer moments back to inner ones or mixing inner with outer in a sum is refused without
     changing the object.''',
     'all shape classes, dimensions and sequences of operations',
     'there is next to no test of shape objects',
     ['shapes.py'], [('Shape.rotate, translate, add and the subclasses', 'newt/shapes.py')], over=('inputs', 'histories'),
     note=REALS)
prop('C18', 'Unphysical dimensions are rejected by the closed-form moment functions',
     '''Every closed-form moment function raises an error, and returns nothing, for dimensions outside its documented domain: non-positive heights, lengths or radii, outer radius smaller than
     inner radius, degenerate edges, or opening half-angles outside (0, pi]. It accepts everything inside the domain.''',
     'all real parameter values on both sides of every documented limit',
     'tests try one or two bad values of some functions',
     ['qlm.py', 'qlmACH.py', 'bigQlm.py'], [('validation at function entry', 'newt/qlm.py, newt/qlmACH.py, newt/bigQlm.py')],
     note=REALS)
prop('C19', 'Calculations never modify or alias their arguments',
     '''No function that moves, combines or evaluates point masses, moments or rotation and translation matrices modifies an array passed to it, and the arrays it returns are new ones,
     so that later changes to the result leave the arguments as they were. Repeating any call with the same arguments gives the same result, whatever was computed in between.''',
     'all calls of the library functions, all argument arrays and all call sequences',
     'tests do not look at the arguments after a call',
     ['glib.py', 'multipoleLib.py', 'rotations.py', 'translations.py', 'translationRecurs.py', 'pg2Multi.py'],
     [('copies before in-place arithmetic', 'every function')], over=('inputs', 'histories'),
     note='Proved for arrays of every size. '+REALS)
prop('C20', 'The Octave original agrees with the Python functions',
     '''The Octave force, torque, rigid-motion, moment and shape functions return for all inputs what their documented definitions require, which is what the Python functions of the same purpose return.''',
     'all inputs of the Octave functions',
     'the Octave tests cover single values and are not part of the Python test run',
     ['matlab-src'], [('Octave sources', 'matlab-src')],
     na='no deductive verifier for Octave is available here and the obligation generator of this framework reads Python; a hand translation would be a model of the code, not the code')
prop('C21', 'Cylindrical and Cartesian coordinates convert exactly and invert each other',
     '''Converting Cartesian to cylindrical coordinates gives the distance from the z axis, the azimuth in [0, 2 pi) and z for every row; converting back gives the original point, for points in every quadrant, on
     the axes and at the origin. Rows, order and arguments are preserved.''',
     'all n x 3 arrays of any length',
     'not tested, or for single points only',
     ['glibShapes.py'], [('cart_2_cyl, cyl_2_cart', 'newt/glibShapes.py')],
     note='All obligations discharged for any number of rows. '+REALS)
prop('C22', 'Numerical moment integrations integrate the right function over the right body',
     '''Each numerically integrated moment is density times the integral of r^l conj(Y_lm) over exactly the documented body, i.e. the integrand, the volume element and the
     limits describe that body for all dimensions and all degrees, and every degree and order up to the requested one is filled in, by integration or because symmetry makes it zero or equal to another.''',
     'all dimensions, all L, all l and m',
     'one set of dimensions, low degree and loose tolerance',
     ['qlmNum.py'], [('integrands and limits handed to the quadrature', 'newt/qlmNum.py')],
     note='The quadrature routine itself is assumed. '+REALS)
prop('C23', 'Yukawa moments of point masses equal their defining sums',
     '''The inner Yukawa moment of degree l and order m of point masses is the sum of m_i i_l(r_i/lambda) conj(Y_lm) with the modified spherical Bessel function of the first kind of order l. This holds for all degrees, both
     signs of m, all positions including the origin, and the single and all-moment functions agree.''',
     'all N x 4 arrays, lambda > 0, all l and m',
     'the all-moments function is tested at one degree',
     ['pg2Multi.py'], [('imoment, imoments', 'newt/pg2Multi.py')],
     note='All obligations discharged for every N, L, l, m. '+REALS)

NOTES = ('level "proof" claims only obligations for which no bound is stated; units whose obligations carry a bound (a maximum degree, say) are listed in the evidence under units_bounded with the bound and '
         'counted apart. Every check also evaluates the same contracts on the real code under CPython; this gives the failing input of a violation.')
