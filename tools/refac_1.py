SYM = '''    # Moments always satisfy q(l, -m) = (-1)^m q(l, m)*
    ms = np.arange(-L, L+1)
    mfac = (-1)**(np.abs(ms))
    qlm += np.conj(np.fliplr(qlm))*mfac
    qlm[:, L] /= 2
'''
REFACS = [
 dict(id='glib-helper', props=['C01', 'C02'], edits=[
  ('newt/glib.py', 'def gmmr2_array(', '''def _separations(mass1, mass2):
    """Vectors and distances from mass1 to every mass2"""
    rvec = mass2[:, 1:4] - mass1[1:4]
    return rvec, np.sqrt((rvec*rvec).sum(axis=1))


def gmmr2_array('''),
  ('newt/glib.py', '''        rvec = mass2[:, 1:4]-mass1[1:4]
        # Pythagoras for modulus
        r = np.sqrt(np.sum(rvec**2, 1))
''', '        rvec, r = _separations(mass1, mass2)\n', 'all'),
  ('newt/glib.py', 'fac = (1/r**3 + 1/(r**2*lmbd))', 'fac = (1 + r/lmbd)/r**3', 'all'),
 ]),
 dict(id='glib-sum', props=['C01', 'C02', 'C19'], edits=[
  ('newt/glib.py', '''        for k in range(len(mass1)):
            forceK = gmmr2_array(mass1[k, :], mass2)
            torqueK = np.cross(mass1[k, 1:4], forceK)

            force += forceK
            torque += torqueK
''', '''        for row in mass1:
            pull = gmmr2_array(row, mass2)
            torque = torque + np.cross(row[1:4], pull)
            force = force + pull
'''),
 ]),
 dict(id='glib-atleast2d', props=['C01'], edits=[
  ('newt/glib.py', '''    if np.ndim(mass1) == 1:
        force = gmmr2_array(mass1, mass2)
        torque = np.cross(mass1[1:4], force)
    else:
        for k in range(len(mass1)):
            forceK = gmmr2_array(mass1[k, :], mass2)
            torqueK = np.cross(mass1[k, 1:4], forceK)

            force += forceK
            torque += torqueK
''', '''    sensors = np.atleast_2d(mass1)
    k = 0
    while k < len(sensors):
        forceK = gmmr2_array(sensors[k], mass2)
        force += forceK
        torque += np.cross(sensors[k, 1:4], forceK)
        k += 1
'''),
 ]),
 dict(id='glib-rigid', props=['C03'], edits=[
  ('newt/glib.py', '''    if np.ndim(pointMass) == 1:
        transArray = np.zeros(4)
        transArray[0] = pointMass[0]
        transArray[1:4] = pointMass[1:4]+transVec
    else:
        transArray = np.zeros([len(pointMass), 4])
        transArray[:, 0] = pointMass[:, 0]
        transArray[:, 1:4] = pointMass[:, 1:4]+transVec

    return transArray''', '''    transArray = np.array(pointMass, dtype=float)
    transArray[..., 1:4] = transArray[..., 1:4] + np.asarray(transVec)
    return transArray'''),
  ('newt/glib.py', 'R = np.identity(3)+np.sin(theta)*W+2*(np.sin(theta/2.)**2)*W.dot(W)', 'R = np.eye(3) + np.sin(theta)*W + (1-np.cos(theta))*np.dot(W, W)'),
  ('newt/glib.py', 'norm = np.sqrt(np.dot(rotVec, rotVec))', 'norm = np.linalg.norm(rotVec)'),
  ('newt/glib.py', 'rotArray[:, 1:4] = np.dot(R, pointMass[:, 1:4].T).T', 'rotArray[:, 1:4] = pointMass[:, 1:4].dot(R.T)'),
 ]),
 dict(id='pgm-mirror', props=['C04', 'C05', 'C23'], edits=[
  ('newt/pg2Multi.py', 'def qmoment(', '''def _spherical(massArray):
    """Radii of all points, and angles of those away from the origin"""
    r = np.sqrt(massArray[:, 1]**2 + massArray[:, 2]**2 + massArray[:, 3]**2)
    rids = np.where(r != 0)[0]
    theta = np.arccos(massArray[rids, 3]/r[rids])
    phi = np.arctan2(massArray[rids, 2], massArray[rids, 1]) % (2*np.pi)
    return r, rids, theta, phi


def _mirror(q, l):
    """Fill in the negative orders"""
    for m in range(1, l+1):
        q[:, l-m] = (-1)**m*np.conj(q[:, l+m])
    return q


def qmoment('''),
  ('newt/pg2Multi.py', '''    r = np.sqrt(massArray[:, 1]**2 + massArray[:, 2]**2 + massArray[:, 3]**2)
    rids = np.where(r != 0)[0]
    theta = np.arccos(massArray[rids, 3]/r[rids])
    phi = np.arctan2(massArray[rids, 2], massArray[rids, 1]) % (2*np.pi)
    if''', '''    r, rids, theta, phi = _spherical(massArray)
    if'''),
  ('newt/pg2Multi.py', '''    r = np.sqrt(massArray[:, 1]**2 + massArray[:, 2]**2 + massArray[:, 3]**2)
    rids = np.where(r != 0)[0]
    theta = np.arccos(massArray[rids, 3]/r[rids])
    phi = np.arctan2(massArray[rids, 2], massArray[rids, 1]) % (2*np.pi)

''', '''    r, rids, theta, phi = _spherical(massArray)

''', 'all'),
  ('newt/pg2Multi.py', '''    ms = np.arange(-l, l+1)
    fac = (-1)**(np.abs(ms))
    qlms += np.conj(np.fliplr(qlms))*fac
    qlms[:, l] /= 2

    return qlms''', '''    return _mirror(qlms, l)'''),
  ('newt/pg2Multi.py', '''    ms = np.arange(-l, l+1)
    fac = (-1)**(np.abs(ms))
    Qlmsb += np.conj(np.fliplr(Qlmsb))*fac
    Qlmsb[:, l] /= 2
    return Qlmsb''', '''    return _mirror(Qlmsb, l)'''),
  ('newt/pg2Multi.py', '''    ms = np.arange(-l, l+1)
    fac = (-1)**(np.abs(ms))
    ilms += np.conj(np.fliplr(ilms))*fac
    ilms[:, l] /= 2

    return ilms''', '''    return _mirror(ilms, l)'''),
 ]),
 dict(id='pgm-weights', props=['C04', 'C05'], edits=[
  ('newt/pg2Multi.py', '''    for n in range(1, l+1):
        rl = r**n
        for m in range(n+1):
            qlm = np.conj(sp.sph_harm(m, n, phi, theta))
            qlm *= massArray[rids, 0]*rl[rids]
            qlms[n, l+m] = np.sum(qlm)
''', '''    mass, radius = massArray[rids, 0], r[rids]
    for n in range(1, l+1):
        weight = mass*radius**n
        for m in range(n, -1, -1):
            ylm = sp.sph_harm(m, n, phi, theta)
            qlms[n, l+m] = (weight*ylm.conj()).sum()
'''),
  ('newt/pg2Multi.py', '''    for n in range(l+1):
        rl1 = r**(n+1)
        for m in range(n+1):
            Qlm = massArray[:, 0]*sp.sph_harm(m, n, phi, theta)/rl1
            Qlmsb[n, l+m] = np.sum(Qlm)
            ctr += 1
''', '''    weight = massArray[:, 0]/r
    for n in range(l+1):
        for m in range(n+1):
            Qlmsb[n, l+m] = np.dot(weight, sp.sph_harm(m, n, phi, theta))
        weight = weight/r
'''),
 ]),
 dict(id='qlm-mirror', props=['C05', 'C06', 'C18'], edits=[
  ('newt/qlm.py', 'def sphere(', '''def _negative_orders(qlm):
    """Moments always satisfy q(l, -m) = (-1)^m q(l, m)*"""
    L = len(qlm)-1
    for m in range(1, L+1):
        qlm[:, L-m] = (-1)**m*qlm[:, L+m].conj()
    return qlm


def sphere('''),
  ('newt/qlm.py', SYM, '    qlm = _negative_orders(qlm)\n', 'all'),
 ]),
 dict(id='qlm-annulus', props=['C06', 'C05'], edits=[
  ('newt/qlm.py', '''            fac2 = fac*np.sqrt(np.exp(sp.gammaln(l+m+1)+sp.gammaln(l-m+1)))
            fac2 *= np.sinc(m*phih/np.pi)*np.exp(-1j*m*phic)
            # Make sure (l-m) even
            if not (l-m) % 2:
                for k in range((l-m)//2+1):
                    gamsum = sp.gammaln(k+1) + sp.gammaln(m+k+1)
                    gamsum += sp.gammaln(l-m-2*k+2)
                    slk = (-1)**(k+m)*H**(l-2*k-m)/(2**(l-1)*(2*k+m+2))
                    slk *= (Ro**(2*k+m+2) - Ri**(2*k+m+2))/np.exp(gamsum)
                    qlm[l, L+m] += slk
                # Multiply by factor dependent only on (l,m)
                qlm[l, L+m] *= fac2
''', '''            if (l-m) % 2 == 1:
                continue
            total = 0
            for k in range((l-m)//2+1):
                j = 2*k+m
                den = 2**(l-1)*(j+2)*sp.factorial(k)*sp.factorial(m+k)
                den *= sp.factorial(l-j+1)
                total += (-1)**(k+m)*H**(l-j)*(Ro**(j+2)-Ri**(j+2))/den
            norm = np.sqrt(sp.factorial(l+m)*sp.factorial(l-m))
            ang = np.sinc(m*phih/np.pi)*np.exp(-1j*m*phic)
            qlm[l, L+m] = fac*norm*ang*total
'''),
 ]),
 dict(id='qlm-cone-helper', props=['C06', 'C05', 'C18'], edits=[
  ('newt/qlm.py', '''            # No restriction on (l-m)
            for k in range((l-m)//2+1):
                gamsum = sp.gammaln(2*k+m+2)
                gamsum -= sp.gammaln(k+1) + sp.gammaln(m+k+1)
                slk = (-1)**(k+m)*P**(l-2*k-m)*R**(2*k+m)/(2**(2*k+m-1))
                qlm[l, L+m] += slk*np.exp(gamsum)
            # Multiply by factor dependent only on (l,m)
            qlm[l, L+m] *= fac2
''', '''            # No restriction on (l-m)
            qlm[l, L+m] = fac2*_cone_sum(l, m, P, R)
'''),
  ('newt/qlm.py', 'def cone(', '''def _cone_sum(l, m, P, R):
    """Radial and vertical part of the cone moments"""
    tot = 0.
    for k in range((l-m)//2+1):
        gamsum = sp.gammaln(2*k+m+2) - sp.gammaln(k+1) - sp.gammaln(m+k+1)
        tot += (-1)**(k+m)*P**(l-2*k-m)*R**(2*k+m)/2**(2*k+m-1)*np.exp(gamsum)
    return tot


def cone('''),
 ]),
 dict(id='qlm-rect-order', props=['C06'], edits=[
  ('newt/qlm.py', '''    if (H <= 0) or (b <= 0) or (a <= 0):
        raise ValueError('Unphysical parameter arguments')
    # l-m even, m even -> l even''', '''    if not min(H, a, b) > 0:
        raise ValueError('Unphysical parameter arguments')
    # l-m even, m even -> l even'''),
  ('newt/qlm.py', '''                        kfac = a**(2*k+m-jp2)*b**(jp2)
                        kfac += (-1)**(m//2)*b**(2*k+m-jp2)*a**(jp2)
                        ksum += sp.comb(k, j)*kfac/(jp2+1)
                    psum += pfac*ksum
''', '''                        rest = 2*k+m-jp2
                        kfac = (-1)**(m//2)*b**rest*a**jp2 + a**rest*b**jp2
                        psum += pfac*sp.comb(k, j)*kfac/(jp2+1)
'''),
 ]),
 dict(id='qlm-tetra-flat', props=['C06'], edits=[
  ('newt/qlm.py', '''                psum = 0
                for p in range(m+k+1):
                    ksum = 0
                    for j in range(k+1):
                        pj = p+j
                        kfac = (1j)**pj*(-1)**p*y**pj*x**(m2k-pj)
                        gampj = sp.gammaln(m2k-pj+1) + sp.gammaln(pj+1)
                        gampj -= sp.gammaln(j+1) + sp.gammaln(k-j+1)
                        gampj -= sp.gammaln(p+1) + sp.gammaln(m+k-p+1)
                        ksum += kfac*np.exp(gampj)
                    psum += ksum
                slk *= psum
''', '''                psum = 0
                for j in range(k+1):
                    for p in range(m+k+1):
                        pj = p+j
                        kfac = (1j)**pj*(-1)**p*y**pj*x**(m2k-pj)
                        kfac *= sp.factorial(m2k-pj)*sp.factorial(pj)
                        kfac /= sp.factorial(j)*sp.factorial(k-j)
                        psum += kfac/(sp.factorial(p)*sp.factorial(m+k-p))
                slk *= psum
'''),
 ]),
 dict(id='trans-loop', props=['C10', 'C05'], edits=[
  ('newt/translations.py', '''                for m in range(-l, l+1):
                    mP = M - m
                    if abs(mP) <= lP:
                        cFac = fac*cg.cgCoeff(lP, l, mP, m, L, M)
                        qLM[L, LMax+M] += cFac*ylmS[lP, LMax+mP]*qlm[l, LMax+m]
''', '''                for mP in range(-lP, lP+1):
                    m = M - mP
                    if -l <= m <= l:
                        coef = cg.cgCoeff(lP, l, mP, m, L, M)*fac
                        qLM[L, LMax+M] += coef*qlm[l, LMax+m]*ylmS[lP, LMax+mP]
'''),
 ]),
 dict(id='trans-helper', props=['C10', 'C05'], edits=[
  ('newt/translations.py', 'def translate_qlm(', '''def _direction(rPrime):
    """Length and direction angles of a displacement"""
    rP = np.sqrt(np.dot(rPrime, rPrime))
    if rP == 0:
        return 0, 0, 0
    return rP, np.arccos(rPrime[2]/rP), np.arctan2(rPrime[1], rPrime[0])


def _harmonics(LMax, theta, phi):
    """Spherical harmonics up to LMax in the layout of the moments"""
    ylm = np.zeros([LMax+1, 2*LMax+1], dtype='complex')
    for l in range(LMax+1):
        for m in range(-l, l+1):
            ylm[l, LMax+m] = sp.sph_harm(m, l, phi, theta)
    return ylm


def translate_qlm('''),
  ('newt/translations.py', '''    rP = np.sqrt(rPrime[0]**2+rPrime[1]**2+rPrime[2]**2)
    if rP == 0:
        return np.copy(Qlm)
    phiP = np.arctan2(rPrime[1], rPrime[0])
    thetaP = np.arccos(rPrime[2]/rP)
    # Restrict LMax to size of Qlm for now
    LMax = np.shape(Qlm)[0] - 1

    # Conjugate spherical harmonics
    ylmS = np.zeros([LMax+1, 2*LMax+1], dtype='complex')
    QLM = np.zeros([LMax+1, 2*LMax+1], dtype='complex')

    for l in range(LMax+1):
        ms = np.arange(-l, l+1)
        sphHarmL = sp.sph_harm(ms, l, phiP, thetaP)
        ylmS[l, LMax-l:LMax+l+1] = sphHarmL
''', '''    rP, thetaP, phiP = _direction(rPrime)
    if rP == 0:
        return Qlm.copy()
    # Restrict LMax to size of Qlm for now
    LMax = len(Qlm) - 1
    ylmS = _harmonics(LMax, thetaP, phiP)
    QLM = np.zeros([LMax+1, 2*LMax+1], dtype='complex')
'''),
 ]),
 dict(id='trr-unify', props=['C10'], edits=[
  ('newt/translationRecurs.py', '''    if r == rvec[2]:
        phi, theta = 0, 0
        qlmp = apply_trans_mat(qlm, rrms)
    else:
        phi = np.arctan2(rvec[1], rvec[0])
        theta = np.arccos(rvec[2]/r)
        # Ds = rot.wignerDl(lmax, phi, -theta, -phi)  # also works
        Ds = rot.wignerDl(lmax, -phi, -theta, -phi)
        qm1r = rot.rotate_qlm_Ds(qlm, Ds)
        qlmp = apply_trans_mat(qm1r, rrms)
        qlmp = rot.rotate_qlm_Ds(qlmp, Ds, True)
    return qlmp''', '''    if r == rvec[2]:
        return apply_trans_mat(qlm, rrms)
    phi, theta = np.arctan2(rvec[1], rvec[0]), np.arccos(rvec[2]/r)
    Ds = rot.wignerDl(lmax, -phi, -theta, -phi)
    turned = apply_trans_mat(rot.rotate_qlm_Ds(qlm, Ds), rrms)
    return rot.rotate_qlm_Ds(turned, Ds, conj_trans=True)'''),
  ('newt/translationRecurs.py', '''    qNew[:, L] = np.dot(efms[0], qlm[:, L])
    for m in range(1, L+1):
        qNew[m:, L+m] = np.dot(efms[m], qlm[m:, L+m])
        qNew[m:, L-m] = np.dot(np.conj(efms[m]), qlm[m:, L-m])
    if q2Q:
        qNew = np.fliplr(qNew)''', '''    for m, efm in enumerate(efms):
        qNew[m:, L-m] = np.conj(efm).dot(qlm[m:, L-m])
        qNew[m:, L+m] = efm.dot(qlm[m:, L+m])
    if q2Q:
        return qNew[:, ::-1].copy()'''),
 ]),
 dict(id='rot-apply', props=['C09', 'C13'], edits=[
  ('newt/rotations.py', '''        for k in range(1, LMax+1):
            if conj_trans:
                d_use = ds[k].T.conj()
            else:
                d_use = ds[k]
            qNew[k, LMax-k:LMax+k+1] = np.dot(d_use, qlm[k, LMax-k:LMax+k+1])''', '''        for k, d in enumerate(ds):
            band = slice(LMax-k, LMax+k+1)
            if conj_trans:
                d = np.conj(d).T
            qNew[k, band] = d.dot(qlm[k, band])'''),
  ('newt/rotations.py', '''        for k in range(1, LMax+1):
            if conj_trans:
                d_use = ds[k].T.conj()
            else:
                d_use = ds[k]
            qNew[k, LMax-k:LMax+k+1] = np.dot(d_use.T, qlm[k, LMax-k:LMax+k+1])''', '''        for k in range(1, LMax+1):
            row = qlm[k, LMax-k:LMax+k+1]
            d_use = ds[k].T.conj() if conj_trans else ds[k]
            qNew[k, LMax-k:LMax+k+1] = row.dot(d_use)'''),
 ]),
 dict(id='rot-wigner', props=['C09'], edits=[
  ('newt/rotations.py', '''    beta = beta % (2*np.pi)
    ms = np.arange(-LMax, LMax+1)
    # If beta is between (pi, 2pi] we need to use as H(-b) and symmetry
    if beta > np.pi:
        beta = 2*np.pi - beta
        fac = np.outer((-1)**(np.abs(ms)), (-1)**(np.abs(ms)))
    else:
        fac = 1
    ds = rotate_H_recurs(LMax, beta)
    expa = np.exp(-1j*ms*alpha)
    expg = np.exp(-1j*ms*gamma)
    epsmmp = epsm(-ms)
    epsmm = epsm(ms)
    expfac = np.outer(expa, expg)
    efac = np.outer(epsmm, epsmmp)*expfac*fac
    for l in range(LMax+1):
        ds[l] = ds[l].astype('complex')
        ds[l] *= efac[LMax-l:LMax+l+1, LMax-l:LMax+l+1]
    return ds''', '''    ms = np.arange(-LMax, LMax+1)
    phase = np.outer(np.exp(-1j*ms*alpha), np.exp(-1j*ms*gamma))
    ds = dlmn(LMax, beta)
    for l in range(LMax+1):
        ds[l] = ds[l]*phase[LMax-l:LMax+l+1, LMax-l:LMax+l+1]
    return ds'''),
 ]),
 dict(id='rot-H', props=['C09'], edits=[
  ('newt/rotations.py', 'return M + np.transpose(M)-np.diag(np.diag(M))', 'return np.transpose(M) - np.diag(np.diag(M)) + M'),
  ('newt/rotations.py', '''    if np.ndim(n) == 0:
        if n < 0:
            return -1
        else:
            return 1
    else:
        return np.array([-1 if n[i] < 0 else 1 for i in range(len(n))])''', '''    return np.where(np.asarray(n) < 0, -1, 1)'''),
 ]),
 dict(id='cg-lnfac', props=['C11'], edits=[
  ('newt/clebschGordan.py', 'def cgCoeff(', '''def _lnfac(n):
    """Logarithm of n!"""
    return sp.gammaln(n+1)


def cgCoeff('''),
  ('newt/clebschGordan.py', '''        denFac = sp.gammaln(k+1) + sp.gammaln(j1+j2-J-k+1)
        denFac += sp.gammaln(j1-m1-k+1) + sp.gammaln(j2+m2-k+1)
        denFac += sp.gammaln(J-j2+m1+k+1) + sp.gammaln(J-j1-m2+k+1)
        denFac = np.exp(denFac)
        sumCG += (-1)**k/denFac''', '''        lden = sum(_lnfac(n) for n in (k, j1+j2-J-k, j1-m1-k, j2+m2-k,
                                       J-j2+m1+k, J-j1-m2+k))
        sumCG += (-1)**k*np.exp(-lden)'''),
 ]),
 dict(id='cg-validate', props=['C11'], edits=[
  ('newt/clebschGordan.py', 'def cgCoeff(', '''def _allowed(j1, j2, m1, m2, J, M):
    """Whether the momenta and projections can be combined"""
    if abs(m1) > j1 or abs(m2) > j2 or abs(M) > J:
        return False
    return abs(j1-j2) <= J <= j1+j2


def cgCoeff('''),
  ('newt/clebschGordan.py', '''    # Make sure the M = m1 + m2
    if (j1 < abs(m1)) or (j2 < abs(m2)) or (J < abs(M)):
        print('Invalid (j1, m1), (j2, m2), or (J, M) pair')
        return 0
    # Make sure the combined angular momentum makes sense, J <= j1+j2
    if (J > (j1+j2)) or (J < abs(j1-j2)):
        print('Invalid combined angular momentum: J > j1+j2 or J < |j1-j2|')
        return 0
    delta = (M == (m1 + m2))
    # If we picked a negative M, then use symmetry property
    if M < 0:
        delta *= (-1)**(J-j1-j2)
        M = -M
        m1 = -m1
        m2 = -m2
''', '''    if not _allowed(j1, j2, m1, m2, J, M) or M != m1 + m2:
        return 0
    delta = 1
    # If we picked a negative M, then use symmetry property
    if M < 0:
        delta = (-1)**(J-j1-j2)
        M, m1, m2 = -M, -m1, -m2
''', 'all'),
 ]),
 dict(id='force-shared', props=['C12'], edits=[
  ('newt/multipoleLib.py', '''    bX, bY, bZ = force_basis(LMax, x, y, z)
    force = np.zeros(3, dtype='complex')
    fac = 4*np.pi*cnst
    for lo in range(LMax+1):
        lofac = (2*lo+1)
        for mo in range(-lo, lo+1):
            gamlomo = sp.gammaln(lo+mo+1) + sp.gammaln(lo-mo+1)
            mofac = qlm[lo, LMax+mo]*fac
            for l in range(lo+1, LMax+1):
                lp = l-lo
                lfac = (2*l+1)
                lmofac = mofac/lfac*np.sqrt(lfac/lofac)
                for m in range(mo-lp, mo+lp+1):
                    gamsum = sp.gammaln(l+m+1) + sp.gammaln(l-m+1)
                    gamsum -= gamlomo
                    fac2 = Qlmb[l, LMax+m]*lmofac*np.sqrt(np.exp(gamsum))
                    force[0] += fac2*bX[l-lo, LMax+m-mo]
                    force[1] += fac2*bY[l-lo, LMax+m-mo]
                    force[2] += fac2*bZ[l-lo, LMax+m-mo]

    return force
''', '''    return np.sum(multipole_force_m(LMax, qlm, Qlmb, x, y, z, cnst), axis=1)
'''),
 ]),
 dict(id='force-loops', props=['C12'], edits=[
  ('newt/multipoleLib.py', '''    for lo in range(LMax+1):
        lofac = (2*lo+1)
        for mo in range(-lo, lo+1):
            gamlomo = sp.gammaln(lo+mo+1) + sp.gammaln(lo-mo+1)
            mofac = qlm[lo, LMax+mo]*fac
            for l in range(lo+1, LMax+1):
                lp = l-lo
                lfac = (2*l+1)
                lmofac = mofac/lfac*np.sqrt(lfac/lofac)
                for m in range(mo-lp, mo+lp+1):
                    gamsum = sp.gammaln(l+m+1) + sp.gammaln(l-m+1)
                    gamsum -= gamlomo
                    fac2 = Qlmb[l, LMax+m]*lmofac*np.sqrt(np.exp(gamsum))
                    force[0] += fac2*bX[l-lo, LMax+m-mo]
                    force[1] += fac2*bY[l-lo, LMax+m-mo]
                    force[2] += fac2*bZ[l-lo, LMax+m-mo]
''', '''    for l in range(1, LMax+1):
        for lo in range(l):
            lp = l-lo
            norm = fac/np.sqrt((2*l+1)*(2*lo+1))
            for mo in range(-lo, lo+1):
                for mp in range(-lp, lp+1):
                    m = mo+mp
                    ln = sp.gammaln(l+m+1) + sp.gammaln(l-m+1)
                    ln -= sp.gammaln(lo+mo+1) + sp.gammaln(lo-mo+1)
                    c = norm*np.exp(ln/2)*qlm[lo, LMax+mo]*Qlmb[l, LMax+m]
                    force += c*np.array([b[lp, LMax+mp] for b in (bX, bY, bZ)])
''', 0),
 ]),
 dict(id='torque-einsum', props=['C13'], edits=[
  ('newt/multipoleLib.py', '''    nlm = -4*np.pi*cnst*1j*np.outer(lfac, ms)*qlm*Qlm

    nm = np.sum(nlm, 0)
    nc = nm[minL:] + nm[minL::-1]
    ns = nm[minL:] - nm[minL::-1]
''', '''    nlm = qlm*Qlm*ms[None, :]*lfac[:, None]
    nlm = nlm*(-4j*np.pi*cnst)

    nm = nlm.sum(axis=0)
    pos, neg = nm[minL:], nm[:minL+1][::-1]
    nc, ns = pos + neg, pos - neg
'''),
  ('newt/multipoleLib.py', '''    if outer:
        sign = -1
    else:
        sign = 1
    for k in range(1, L+1):
        signal_c += np.real(tc[k])*np.cos(sign*k*angles)
        signal_c += np.imag(tc[k])*np.sin(sign*k*angles)
        signal_s += np.imag(ts[k])*np.sin(sign*k*angles)
        signal_s += np.real(ts[k])*np.cos(sign*k*angles)
    return signal_c + signal_s''', '''    sign = -1 if outer else 1
    signal = signal_c + signal_s
    for k in range(1, L+1):
        c, s = np.cos(k*angles), sign*np.sin(k*angles)
        signal = signal + (tc[k]+ts[k]).real*c + (tc[k]+ts[k]).imag*s
    return signal'''),
 ]),
 dict(id='shapes14', props=['C14', 'C21'], edits=[
  ('newt/glibShapes.py', 'def cart_2_cyl(', '''def _rescale(points, mass):
    """Correct the masses of the points"""
    points[:, 0] = points[:, 0]*(mass/points[:, 0].sum())
    return points


def cart_2_cyl('''),
  ('newt/glibShapes.py', '''    # Correct the masses of the points
    pointArray[:, 0] *= mass/np.sum(pointArray[:, 0])

    return pointArray''', '    return _rescale(pointArray, mass)', 'all'),
  ('newt/glibShapes.py', '''    pointArray = np.array([pointArray[k] for k in range(nx*nx*nz) if
                           pointArray[k, 1]**2+pointArray[k, 2]**2 >= r1**2 and
                           pointArray[k, 1]**2+pointArray[k, 2]**2 <= r2**2])
''', '''    rr = pointArray[:, 1]**2 + pointArray[:, 2]**2
    pointArray = pointArray[(rr >= r1**2) & (rr <= r2**2)]
'''),
  ('newt/glibShapes.py', '''    RQZ = np.zeros(np.shape(XYZ))
    RQZ[:, 0] = np.sqrt((XYZ[:, 0]**2 + XYZ[:, 1]**2))
    RQZ[:, 1] = (np.arctan2(XYZ[:, 1], XYZ[:, 0])+2.*np.pi) % (2.*np.pi)
    RQZ[:, 2] = XYZ[:, 2]

    return RQZ''', '''    x, y, z = XYZ[:, 0], XYZ[:, 1], XYZ[:, 2]
    angle = np.arctan2(y, x) % (2*np.pi)
    return np.column_stack([np.hypot(x, y), angle, z])'''),
 ]),
 dict(id='shapes14-loop', props=['C14'], edits=[
  ('newt/glibShapes.py', '''    for k in range(nz):
        for l in range(ny):
            for m in range(nx):
                pointArray[k*ny*nx+l*nx+m, 1] = (m-(nx-1)/2)*xgrid
                pointArray[k*ny*nx+l*nx+m, 2] = (l-(ny-1)/2)*ygrid
                pointArray[k*ny*nx+l*nx+m, 3] = (k-(nz-1)/2)*zgrid
''', '''    idx = 0
    for k in range(nz):
        zk = (k-(nz-1)/2)*zgrid
        for l in range(ny):
            yl = (l-(ny-1)/2)*ygrid
            for m in range(nx):
                pointArray[idx, 1:] = [(m-(nx-1)/2)*xgrid, yl, zk]
                idx += 1
'''),
  ('newt/glibShapes.py', '''                r = np.sqrt(x**2 + y**2)
                q = np.arctan2(y, x)
                if np.abs(q) <= beta and r <= r2 and r >= r1:
                    pointArray[ctr, 1:] = [x, y, z]
                    ctr += 1
''', '''                rad = np.sqrt(x**2 + y**2)
                if rad < r1 or rad > r2:
                    continue
                if abs(np.arctan2(y, x)) > beta:
                    continue
                pointArray[ctr, 1:] = x, y, z
                ctr = ctr + 1
'''),
 ]),
 dict(id='gl15', props=['C15'], edits=[
  ('newt/gShapeGL.py', '''    for k in range(dz):
        for l in range(dy):
            for m in range(dx):
                pointArray[k*dy*dx+l*dx+m, 1] = sx[m]*x/2
                pointArray[k*dy*dx+l*dx+m, 2] = sy[l]*y/2
                pointArray[k*dy*dx+l*dx+m, 3] = sz[k]*z/2
                pointArray[k*dy*dx+l*dx+m, 0] *= wx[m]*wy[l]*wz[k]
''', '''    n = 0
    for k in range(dz):
        for l in range(dy):
            for m in range(dx):
                weight = wx[m]*wy[l]*wz[k]
                pointArray[n] = [mass*weight/8, sx[m]*x/2, sy[l]*y/2, sz[k]*z/2]
                n += 1
'''),
  ('newt/gShapeGL.py', '''    pointArray = np.array([pointArray[k] for k in range(dz*dd**2) if
                           pointArray[k, 1]**2+pointArray[k, 2]**2 >= iR**2 and
                           pointArray[k, 1]**2+pointArray[k, 2]**2 <= oR**2])
''', '''    def inside(p):
        return iR**2 <= p[1]**2 + p[2]**2 <= oR**2
    pointArray = np.array([p for p in pointArray if inside(p)])
'''),
 ]),
 dict(id='mpc-place', props=['C16'], edits=[
  ('newt/read_multiFor.py', 'def read_mpc(', '''def _place(qlmWrk, qlmTot, line, nextline, fac, shape):
    """Move the new shape into position, or add it at once"""
    pos = np.array(line.split(','), dtype=float)*fac
    if (pos == 0).all() and nextline.split()[0] == 'add':
        print('added ', shape)
        return qlmWrk, qlmTot + qlmWrk, 4
    print('translated ', shape)
    return trs.translate_qlm(qlmWrk, pos), qlmTot, 3


def read_mpc('''),
  ('newt/read_multiFor.py', '''                pos = np.array(lines[4+k].split(','), dtype=float)*fac
                k += 3
                if (pos == 0).all() and lines[2+k].split()[0] == 'add':
                    k += 1
                    print('added ', shape)
                    qlmTot += qlmWrk
                else:
                    print('translated ', shape)
                    qlmWrk = trs.translate_qlm(qlmWrk, pos)
''', '''                qlmWrk, qlmTot, used = _place(qlmWrk, qlmTot, lines[4+k],
                                              lines[5+k], fac, shape)
                k += used
''', 'all'),
 ]),
 dict(id='mpc-tail', props=['C16'], edits=[
  ('newt/read_multiFor.py', '''                pos = np.array(lines[4+k].split(','), dtype=float)*fac
                k += 3
                if (pos == 0).all() and lines[2+k].split()[0] == 'add':
                    k += 1
                    print('added ', shape)
                    qlmTot += qlmWrk
                else:
                    print('translated ', shape)
                    qlmWrk = trs.translate_qlm(qlmWrk, pos)
            else:
                print(shape''', '''            else:
                known = False
                print(shape'''),
  ('newt/read_multiFor.py', '''                pos = np.array(lines[4+k].split(','), dtype=float)*fac
                k += 3
                if (pos == 0).all() and lines[2+k].split()[0] == 'add':
                    k += 1
                    print('added ', shape)
                    qlmTot += qlmWrk
                else:
                    print('translated ', shape)
                    qlmWrk = trs.translate_qlm(qlmWrk, pos)
''', '', 'all'),
  ('newt/read_multiFor.py', '''            shape = line.split('create')[1].split()[0]
''', '''            shape = line.split('create')[1].split()[0]
            known = True
'''),
  ('newt/read_multiFor.py', '''                    else:
                        break
''', '''                    else:
                        break
            if known:
                pos = np.array(lines[4+k].split(','), dtype=float)*fac
                k += 3
                if (pos == 0).all() and lines[2+k].split()[0] == 'add':
                    k += 1
                    qlmTot += qlmWrk
                else:
                    qlmWrk = trs.translate_qlm(qlmWrk, pos)
'''),
 ]),
 dict(id='mpc-for', props=['C16'], edits=[
  ('newt/read_multiFor.py', '''    l, m = 0, 0
    qlm = np.zeros([LMax+1, 2*LMax+1], dtype='complex')
    # moments in cgs so to convert to mks multiply by 1e-3*(.01)**l
    for line in lines[9:]:
        lsplit = line.split()
        lr, li = float(lsplit[0]), float(lsplit[1])
        qlm[l, LMax+m] = (lr+1j*li)*1e-3*(0.01)**l
        m += 1
        if m > l:
            l += 1
            m = 0
''', '''    qlm = np.zeros([LMax+1, 2*LMax+1], dtype='complex')
    # moments in cgs so to convert to mks multiply by 1e-3*(.01)**l
    orders = [(l, m) for l in range(LMax+1) for m in range(l+1)]
    for (l, m), line in zip(orders, lines[9:]):
        lr, li = [float(v) for v in line.split()[:2]]
        qlm[l, LMax+m] = complex(lr, li)*1e-3*(0.01)**l
'''),
 ]),
 dict(id='shape-add', props=['C17'], edits=[
  ('newt/shapes.py', '''            com, mtot, qlmtot = 0, 0, 0
            for k in range(len(shape_list)):
                shape = shape_list[k]
                com += shape.mass*shape.com
                mtot += shape.mass
                if shape.lmax == lmax:
                    qlmtot += shape.qlm
                else:
                    qlmtot += mplb.embed_qlm(shape.qlm, lmax)
            self.mass = mtot
            self.com = com/mtot
            self.qlm = qlmtot
''', '''            mtot = sum(shape.mass for shape in shape_list)
            com = sum(shape.mass*shape.com for shape in shape_list)
            self.qlm = sum(mplb.embed_qlm(shape.qlm, lmax)
                           for shape in shape_list)
            self.mass = mtot
            self.com = com/mtot
'''),
 ]),
 dict(id='shape-add2', props=['C17'], edits=[
  ('newt/shapes.py', '''        inner = [shape.inner for shape in shape_list]
        outer = [not shape.inner for shape in shape_list]
        lmax = max([shape.lmax for shape in shape_list])
        if all(inner) or all(outer):
            com, mtot, qlmtot = 0, 0, 0
            for k in range(len(shape_list)):
                shape = shape_list[k]
                com += shape.mass*shape.com
                mtot += shape.mass
                if shape.lmax == lmax:
                    qlmtot += shape.qlm
                else:
                    qlmtot += mplb.embed_qlm(shape.qlm, lmax)
            self.mass = mtot
            self.com = com/mtot
            self.qlm = qlmtot
            self.lmax = lmax
            self.mesh = gcad.sum_mesh([shape.mesh for shape in shape_list])
        else:
            raise TypeError('Trying to combine inner and outer moments')
''', '''        if any(shape.inner != self.inner for shape in shape_list):
            raise TypeError('Trying to combine inner and outer moments')
        lmax = max(shape.lmax for shape in shape_list)
        moment = np.zeros(3)
        mtot = 0
        qlmtot = np.zeros([lmax+1, 2*lmax+1], dtype=complex)
        for shape in shape_list:
            moment += shape.mass*shape.com
            mtot += shape.mass
            lo = lmax - shape.lmax
            qlmtot[:shape.lmax+1, lo:lo+2*shape.lmax+1] += shape.qlm
        self.mass, self.com = mtot, moment/mtot
        self.lmax, self.qlm = lmax, qlmtot
        self.mesh = gcad.sum_mesh([shape.mesh for shape in shape_list])
'''),
 ]),
 dict(id='num-sym', props=['C22', 'C18'], edits=[
  ('newt/qlmNum.py', 'def cyl_integrand_qlm(', '''def _integrate(L, dens, integrand, *limits):
    """All moments up to L of a body given by its integration limits"""
    qlm = np.zeros([L+1, 2*L+1], dtype='complex')
    for l in range(L+1):
        for m in range(l+1):
            val = intg.tplquad(integrand, *limits, args=(l, m))[0]
            qlm[l, L+m] = dens*val
            if m > 0:
                qlm[l, L-m] = (-1)**m*dens*val
    return qlm


def cyl_integrand_qlm('''),
  ('newt/qlmNum.py', '''    for l in range(L+1):
        for m in range(l+1):
            qlm[l, m+L], err = intg.tplquad(cyl_integrand_qlm, -phih, phih, IR,
                                            OR, h1, h2, args=(l, m))
            print(l, m, err)

    # Scale by density
    qlm *= dens
    # Moments always satisfy Q(l, -m) = (-1)^m Q(l, m)*
    ms = np.arange(-L, L+1)
    mfac = (-1)**(np.abs(ms))
    qlm += np.conj(np.fliplr(qlm))*mfac
    qlm[:, L] /= 2
    return qlm''', '''    return _integrate(L, dens, cyl_integrand_qlm, -phih, phih, IR, OR, h1, h2)'''),
  ('newt/qlmNum.py', '''    tanth = np.tan(theta)
    h = t/np.cos(theta)

    def y_xp(x):
        """Boundary integral for y coordinate of platehole"""
        return np.sqrt(r**2-x**2)

    def y_xm(x):
        """Boundary integral for y coordinate of platehole"""
        return -np.sqrt(r**2-x**2)
''', '''    sinth, costh = np.sin(theta), np.cos(theta)
    tanth, h = sinth/costh, t/costh

    def y_xp(x):
        """Boundary integral for y coordinate of platehole"""
        return np.sqrt((r-x)*(r+x))

    def y_xm(x):
        """Boundary integral for y coordinate of platehole"""
        return -y_xp(x)
'''),
 ]),
 dict(id='big-sphere', props=['C08', 'C05', 'C18'], edits=[
  ('newt/bigQlm.py', '''    for n in range(LMax+1):
        rl1 = d**(n+1)
        for m in range(n+1):
            Qlm = M*sp.sph_harm(m, n, phi, theta)/rl1
            Qlmsb[n, LMax+m] = Qlm

    # Moments always satisfy Q(l, -m) = (-1)^m Q(l, m)*
    ms = np.arange(-LMax, LMax+1)
    fac = (-1)**(np.abs(ms))
    Qlmsb += np.conj(np.fliplr(Qlmsb))*fac
    Qlmsb[:, LMax] /= 2
    return Qlmsb''', '''    for n in range(LMax+1):
        ms = np.arange(-n, n+1)
        ylm = sp.sph_harm(ms, n, phi, theta)
        Qlmsb[n, LMax-n:LMax+n+1] = M*ylm/d**(n+1)
    return Qlmsb'''),
 ]),
 dict(id='ach-trunc', props=['C07', 'C05'], edits=[
  ('newt/qlmACH.py', 'import numpy as np\n', '''import numpy as np


def _truncate(qlm, LMax, L):
    """Keep degrees up to LMax"""
    if LMax >= L:
        return qlm
    return qlm[:LMax+1, L-LMax:L+LMax+1]

'''),
  ('newt/qlmACH.py', '''    # Truncate if LMax < 5
    if LMax < 5:
        qlm = qlm[:LMax+1, L-LMax:L+LMax+1]
    return qlm''', '''    return _truncate(qlm, LMax, L)''', 'all'),
  ('newt/qlmACH.py', '''    if LMax < 5:
        L = 5
    else:
        L = LMax
''', '''    L = max(LMax, 5)
''', 'all'),
 ]),
]
