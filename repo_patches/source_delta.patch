From 7e5d7e63c59ceb98ba5126d1a22eada933c72f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 01/49] fix: glibShapes.rectangle centres the y grid with ny

---
 newt/glibShapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/glibShapes.py b/newt/glibShapes.py
index d63c9bd..3b0deea 100644
--- a/newt/glibShapes.py
+++ b/newt/glibShapes.py
@@ -134,7 +134,7 @@ def rectangle(mass, x, y, z, nx, ny, nz):
         for l in range(ny):
             for m in range(nx):
                 pointArray[k*ny*nx+l*nx+m, 1] = (m-(nx-1)/2)*xgrid
-                pointArray[k*ny*nx+l*nx+m, 2] = (l-(nx-1)/2)*ygrid
+                pointArray[k*ny*nx+l*nx+m, 2] = (l-(ny-1)/2)*ygrid
                 pointArray[k*ny*nx+l*nx+m, 3] = (k-(nz-1)/2)*zgrid
 
     return pointArray
-- 
2.43.0


From feac34f26ead44380ab85ccb7945e074e59b37d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 02/49] fix: glibShapes.sphere spans the full diameter

---
 newt/glibShapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/glibShapes.py b/newt/glibShapes.py
index 3b0deea..bb77493 100644
--- a/newt/glibShapes.py
+++ b/newt/glibShapes.py
@@ -76,7 +76,7 @@ def sphere(mass, R, N):
     """
     pointArray = np.zeros([N**3, 4])
     pointArray[:, 0] = mass/N**3
-    grid = R/N
+    grid = 2*R/N
 
     ctr = 0
     for k in range(N):
-- 
2.43.0


From 0ecc16d37862d355282b2970c0e5311ffe401a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 03/49] fix: glibShapes.tri_prism and tetrahedron centre the y
 grid on the base

---
 newt/glibShapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/glibShapes.py b/newt/glibShapes.py
index bb77493..31f2eb6 100644
--- a/newt/glibShapes.py
+++ b/newt/glibShapes.py
@@ -524,7 +524,7 @@ def tri_prism(mass, d, y1, y2, t, nx, ny, nz):
         print('Require y2 > y1')
         return []
     base = np.max([0, y2])-np.min([0, y1])
-    yave = base/2
+    yave = (np.max([0, y2])+np.min([0, y1]))/2
     zgrid = t/nz
     xgrid = d/nx
     ygrid = base/ny
@@ -584,7 +584,7 @@ def tetrahedron(mass, x, y1, y2, z, nx, ny, nz):
         print('Require y2 > y1')
         return []
     base = np.max([0, y2])-np.min([0, y1])
-    yave = base/2
+    yave = (np.max([0, y2])+np.min([0, y1]))/2
     zgrid = z/nz
     xgrid = x/nx
     ygrid = base/ny
-- 
2.43.0


From c5866af6ec02e8d51843f90b09c4f89c156cdb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 04/49] fix: glibShapes.pyramid takes the half-lengths its
 documentation states

---
 newt/glibShapes.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/newt/glibShapes.py b/newt/glibShapes.py
index 31f2eb6..53f9726 100644
--- a/newt/glibShapes.py
+++ b/newt/glibShapes.py
@@ -706,11 +706,10 @@ def pyramid(mass, x, y, z, nx, ny, nz):
         point mass array of format [m, x, y, z]
     """
     zgrid = z/nz
-    xgrid = x/nx
-    ygrid = y/ny
-    print(xgrid, ygrid)
+    xgrid = 2*x/nx
+    ygrid = 2*y/ny
 
-    density = mass/(z*y*x/3)
+    density = mass/(4*z*y*x/3)
     pointMass = density*(xgrid*ygrid*zgrid/3)
 
     pointArray = np.zeros([nx*ny*nz, 4])
@@ -722,10 +721,10 @@ def pyramid(mass, x, y, z, nx, ny, nz):
                 xval = (m-(nx-1)/2)*xgrid
                 yval = (l-(ny-1)/2)*ygrid
                 zval = (k-(nz-1)/2)*zgrid + z/2
-                yx = yval*x/2
-                xy = xval*y/2
-                xr = 2*xval/x
-                yr = 2*yval/y
+                yx = yval*x
+                xy = xval*y
+                xr = xval/x
+                yr = yval/y
                 # upper quad
                 if (xy <= yx) and (xy >= -yx) and (zval <= z*(1-yr)):
                     pointArray[ctr, 1:] = xval, yval, zval
-- 
2.43.0


From 39431037e4e7648838f2b9b307db3374c072f255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 05/49] fix: glibShapes.platehole uses the perpendicular radius
 of the tilted hole

---
 newt/glibShapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/glibShapes.py b/newt/glibShapes.py
index 53f9726..7063d2d 100644
--- a/newt/glibShapes.py
+++ b/newt/glibShapes.py
@@ -834,7 +834,7 @@ def platehole(mass, t, r, theta, nx, ny, nz):
         point mass array of format [m, x, y, z]
     """
     s = np.tan(theta)
-    x = 2*(r + t*s/2)
+    x = r*np.sqrt(1+s**2) + t*np.abs(s)/2
     zgrid = t/nz
     xgrid = 2*x/nx
     ygrid = 2*r/ny
@@ -853,7 +853,7 @@ def platehole(mass, t, r, theta, nx, ny, nz):
                 y = (l-(ny-1)/2)*ygrid
                 z = (k-(nz-1)/2)*zgrid
                 xz = z*s
-                if (y**2 + (x-xz)**2) <= r**2:
+                if (y**2 + (x-xz)**2/(1+s**2)) <= r**2:
                     pointArray[ctr, 1:] = x, y, z
                     ctr += 1
 
-- 
2.43.0


From ae2600ff67c08fa85c2d7c87d84d100249da3536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 06/49] fix: gShapeGL.annulus, cone and wedge use dz points in
 z

---
 newt/gShapeGL.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/newt/gShapeGL.py b/newt/gShapeGL.py
index f50f68a..46aeb59 100644
--- a/newt/gShapeGL.py
+++ b/newt/gShapeGL.py
@@ -129,7 +129,7 @@ def annulus(mass, iR, oR, t, dd, dz):
     pointArray = np.zeros([dz*dd**2, 4])
     sx, wx = np.polynomial.legendre.leggauss(dd)
     sy, wy = np.polynomial.legendre.leggauss(dd)
-    sz, wz = np.polynomial.legendre.leggauss(dd)
+    sz, wz = np.polynomial.legendre.leggauss(dz)
     for k in range(dz):
         for l in range(dd):
             for m in range(dd):
@@ -174,7 +174,7 @@ def cone(mass, R, H, dd, dz):
     tanTheta = H/R
     sx, wx = np.polynomial.legendre.leggauss(dd)
     sy, wy = np.polynomial.legendre.leggauss(dd)
-    sz, wz = np.polynomial.legendre.leggauss(dd)
+    sz, wz = np.polynomial.legendre.leggauss(dz)
     for k in range(dz):
         for l in range(dd):
             for m in range(dd):
@@ -230,7 +230,7 @@ def wedge(mass, iR, oR, t, theta, dd, dz):
     ctr = 0
     sx, wx = np.polynomial.legendre.leggauss(dd)
     sy, wy = np.polynomial.legendre.leggauss(dd)
-    sz, wz = np.polynomial.legendre.leggauss(dd)
+    sz, wz = np.polynomial.legendre.leggauss(dz)
     for k in range(dz):
         for l in range(dd):
             for m in range(dd):
-- 
2.43.0


From 584fd7ec2912328847bde68c070033cf9862cc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 07/49] fix: gShapeGL.annulus and wedge have thickness t

---
 newt/gShapeGL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/gShapeGL.py b/newt/gShapeGL.py
index 46aeb59..b58a793 100644
--- a/newt/gShapeGL.py
+++ b/newt/gShapeGL.py
@@ -135,7 +135,7 @@ def annulus(mass, iR, oR, t, dd, dz):
             for m in range(dd):
                 pointArray[k*dd*dd+l*dd+m, 1] = sx[m]*oR
                 pointArray[k*dd*dd+l*dd+m, 2] = sy[l]*oR
-                pointArray[k*dd*dd+l*dd+m, 3] = sz[k]*t
+                pointArray[k*dd*dd+l*dd+m, 3] = sz[k]*t/2
                 pointArray[k*dd*dd+l*dd+m, 0] = wx[m]*wy[l]*wz[k]
 
     pointArray = np.array([pointArray[k] for k in range(dz*dd**2) if
@@ -236,7 +236,7 @@ def wedge(mass, iR, oR, t, theta, dd, dz):
             for m in range(dd):
                 x = sx[m]*dx + xa
                 y = sy[l]*ymax
-                z = sz[k]*t
+                z = sz[k]*t/2
                 w = wx[m]*wy[l]*wz[k]
                 r = np.sqrt(x**2 + y**2)
                 q = np.arctan2(y, x)
-- 
2.43.0


From c3f7832abf683dbc53fc9ff63c3c5e2fbb836a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 08/49] fix: gShapeGL.cone is a single cone of height H

---
 newt/gShapeGL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/gShapeGL.py b/newt/gShapeGL.py
index b58a793..7bc31ad 100644
--- a/newt/gShapeGL.py
+++ b/newt/gShapeGL.py
@@ -180,7 +180,7 @@ def cone(mass, R, H, dd, dz):
             for m in range(dd):
                 pointArray[k*dd*dd+l*dd+m, 1] = sx[m]*R
                 pointArray[k*dd*dd+l*dd+m, 2] = sy[l]*R
-                pointArray[k*dd*dd+l*dd+m, 3] = sz[k]*H
+                pointArray[k*dd*dd+l*dd+m, 3] = sz[k]*H/2 + H/2
                 pointArray[k*dd*dd+l*dd+m, 0] = wx[m]*wy[l]*wz[k]
 
     pointArray = np.array([pointArray[k] for k in range(dz*dd**2) if
-- 
2.43.0


From 19f94c2abdf1f6eccf7f59deb6459e85f9f97457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 09/49] fix: gShapeGL.tri_prism covers the whole base

---
 newt/gShapeGL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/gShapeGL.py b/newt/gShapeGL.py
index 7bc31ad..7cc48d4 100644
--- a/newt/gShapeGL.py
+++ b/newt/gShapeGL.py
@@ -294,7 +294,7 @@ def tri_prism(mass, d, y1, y2, t, dx, dy, dz):
         for l in range(dy):
             for m in range(dx):
                 pointArray[k*dy*dx+l*dx+m, 1] = sx[m]*d/2 + d/2
-                pointArray[k*dy*dx+l*dx+m, 2] = sy[l]*base/2 + yave
+                pointArray[k*dy*dx+l*dx+m, 2] = sy[l]*base + yave
                 pointArray[k*dy*dx+l*dx+m, 3] = sz[k]*t/2
                 pointArray[k*dy*dx+l*dx+m, 0] = wx[m]*wy[l]*wz[k]
 
-- 
2.43.0


From 4ba3733fb07547f03493e22ff36355a54c475c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 10/49] fix: inner moments of point masses at the origin

---
 newt/pg2Multi.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/newt/pg2Multi.py b/newt/pg2Multi.py
index 76019c7..5304e3f 100644
--- a/newt/pg2Multi.py
+++ b/newt/pg2Multi.py
@@ -34,7 +34,8 @@ def qmoment(l, m, massArray):
     if l == 0:
         qlm = massArray[:, 0]/np.sqrt(4*np.pi)
     else:
-        qlm = massArray[:, 0]*r**l*np.conj(sp.sph_harm(m, l, phi, theta))
+        qlm = massArray[rids, 0]*r[rids]**l
+        qlm = qlm*np.conj(sp.sph_harm(m, l, phi, theta))
     qlm = np.sum(qlm)
     return qlm
 
@@ -99,7 +100,8 @@ def imoment(l, m, lmbd, massArray):
     if l == 0:
         ilm = massArray[:, 0]*il/np.sqrt(4*np.pi)
     else:
-        ilm = massArray[:, 0]*il*np.conj(sp.sph_harm(m, l, phi, theta))
+        ilm = massArray[rids, 0]*il[rids]
+        ilm = ilm*np.conj(sp.sph_harm(m, l, phi, theta))
     ilm = np.sum(ilm)
     return ilm
 
@@ -135,7 +137,7 @@ def qmoments(l, massArray):
     for n in range(1, l+1):
         rl = r**n
         for m in range(n+1):
-            qlm = np.conj(sp.sph_harm(m, n, phi[rids], theta[rids]))
+            qlm = np.conj(sp.sph_harm(m, n, phi, theta))
             qlm *= massArray[rids, 0]*rl[rids]
             qlms[n, l+m] = np.sum(qlm)
 
@@ -224,7 +226,7 @@ def imoments(l, lmbd, massArray):
     for n in range(1, l+1):
         il = sp.spherical_in(l, r/lmbd)
         for m in range(n+1):
-            ilm = np.conj(sp.sph_harm(m, n, phi[rids], theta[rids]))
+            ilm = np.conj(sp.sph_harm(m, n, phi, theta))
             ilm *= massArray[rids, 0]*il[rids]
             ilms[n, l+m] = np.sum(ilm)
 
-- 
2.43.0


From f78a4aa8a5d4a47d496e4c0d46c92502f02d398a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 11/49] fix: imoments uses the bessel function of its own order

---
 newt/pg2Multi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/pg2Multi.py b/newt/pg2Multi.py
index 5304e3f..9c007f3 100644
--- a/newt/pg2Multi.py
+++ b/newt/pg2Multi.py
@@ -224,7 +224,7 @@ def imoments(l, lmbd, massArray):
     ilms[0, l] = np.sum(ilm)
 
     for n in range(1, l+1):
-        il = sp.spherical_in(l, r/lmbd)
+        il = sp.spherical_in(n, r/lmbd)
         for m in range(n+1):
             ilm = np.conj(sp.sph_harm(m, n, phi, theta))
             ilm *= massArray[rids, 0]*il[rids]
-- 
2.43.0


From f4fc281a91a8c7eb1abf01a99c578d4203b4074a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:46 +0000
Subject: [PATCH 12/49] fix: qlmACH.cone q50 polynomial

---
 newt/qlmACH.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/qlmACH.py b/newt/qlmACH.py
index 3103f95..5b4a5c1 100644
--- a/newt/qlmACH.py
+++ b/newt/qlmACH.py
@@ -210,7 +210,7 @@ def cone(LMax, rho, h, r1, r2):
     # q5 += 15*(5*r1**2*r2**4 + 6*r1*r2**5 + 7*r2**6)
     # qlm[5, L] = fac*h**2*q5*np.sqrt(11)/2688
     q5 = h**4 - 4*h**2*(3*r1**2 + r1*r2 + 3*r2**2)
-    q5 += 5*(3*r1**4 + 2*r1**2*r2 + 4*r1**2*r2**2 + 2*r1*r2**3 + 3*r2**4)
+    q5 += 5*(3*r1**4 + 2*r1**3*r2 + 4*r1**2*r2**2 + 2*r1*r2**3 + 3*r2**4)
     qlm[5, L] = fac*q5*h**2*(r1**2 - r2**2)*np.sqrt(11)/896
 
     # Moments always satisfy q(l, -m) = (-1)^m q(l, m)*
-- 
2.43.0


From bce4c67cecc59a70c3845474539b3c144d23ecf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:46 +0000
Subject: [PATCH 13/49] fix: qlmACH.cone2 q20 polynomial

---
 newt/qlmACH.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/qlmACH.py b/newt/qlmACH.py
index 5b4a5c1..1f55051 100644
--- a/newt/qlmACH.py
+++ b/newt/qlmACH.py
@@ -260,7 +260,7 @@ def cone2(LMax, rho, h, r1, r2):
     qlm[0, L] = fac*h*(r1**2 + r1*r2 + r2**2)/6
     qlm[1, L] = fac*h**2*(r1**2 + 2*r1*r2 + 3*r2**2)/(8*np.sqrt(3))
     q20 = 2*h**2*(r1**2 + 3*r1*r2 + 6*r2**2)
-    q20 -= 3*(r1**4 + 2*r1**3*r2 + 3*r1**2*r2**2 + r1*r2**3 + r2**4)
+    q20 -= 3*(r1**4 + r1**3*r2 + r1**2*r2**2 + r1*r2**3 + r2**4)
     qlm[2, L] = fac*h*q20/(24*np.sqrt(5))
     q3 = 2*h**2*(r1**2 + 4*r1*r2 + 10*r2**2)
     q3 -= 3*(r1**4 + 2*r1**3*r2 + 3*r1**2*r2**2 + 4*r1*r2**3 + 5*r2**4)
-- 
2.43.0


From ce292cd24a8bea3039beb3cf98c4d61137042e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:46 +0000
Subject: [PATCH 14/49] fix: qlmACH.trapezoid q44 sign

---
 newt/qlmACH.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/qlmACH.py b/newt/qlmACH.py
index 1f55051..f343124 100644
--- a/newt/qlmACH.py
+++ b/newt/qlmACH.py
@@ -439,7 +439,7 @@ def trapezoid(LMax, rho, t, w1, w2, h):
     qlm[4, L+2] = q42
     q44 = 24*delw**3*w**2*h**2 + 3*delw**4*w**4
     q44 -= delw*(256*h**4 - 480*h**2*w**2)
-    q44 -= delw**2*w**2*(192*h**2-40*w**2) + 16*(48*h**4-40*h**2*w**2+3*w**4)
+    q44 -= delw**2*w**2*(192*h**2-40*w**2) - 16*(48*h**4-40*h**2*w**2+3*w**4)
     q44 *= q00*np.sqrt(7/10)/2048
     qlm[4, L+4] = q44
     q51 = 3*delw**5*w**4 - 42*delw**4*w**4
-- 
2.43.0


From bb7c1e4fecfb2e471a763ac31dfc8d2f3eb97c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:46 +0000
Subject: [PATCH 15/49] fix: qlmACH.cylhole q22 and q44

---
 newt/qlmACH.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/newt/qlmACH.py b/newt/qlmACH.py
index f343124..27b7bf7 100644
--- a/newt/qlmACH.py
+++ b/newt/qlmACH.py
@@ -665,13 +665,14 @@ def cylhole(LMax, rho, r, R):
     Fc4 = sp.hyp2f1(-.5, 2.5, 4, x)
     qlm[0, L] = fac*r*Fc2
     qlm[2, L] = -fac*r*np.sqrt(5)/6*((r**2-2*R**2)*Fc2 + r**2*Fc3)
-    qlm[2, L+2] = fac*r*np.sqrt(15/2)*Fc2
+    qlm[2, L+2] = fac*r**3*np.sqrt(15/2)/6*(Fc3 - Fc2)
     q40 = (9*r**5-40*r**3*R**2+24*r*R**4)*Fc2 + (13*r**5-32*r**3*R**2)*Fc3
     q40 += 16*r**5*Fc4
     qlm[4, L] = fac/40*q40
     q42 = (6*r**2-20*R**2)*Fc2 + 2*(r**2+10*R**2)*Fc3 - 13*r**2*Fc4
     qlm[4, L+2] = fac*r**3*q42/(8*np.sqrt(10))
-    qlm[4, L+4] = 3*fac*r*np.sqrt(35/2)*Fc2/2
+    q44 = Fc2 - 3*Fc3 + 2*Fc4
+    qlm[4, L+4] = 3*fac*r**5*np.sqrt(35/2)*q44/40
 
     # Moments always satisfy q(l, -m) = (-1)^m q(l, m)*
     ms = np.arange(-L, L+1)
-- 
2.43.0


From 2ce73656b2dcade3569c6ad25db38597c7e2bd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 16/49] fix: bigQlm.annulus Q20 is proportional to the height

---
 newt/bigQlm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/bigQlm.py b/newt/bigQlm.py
index bc18a14..ac197a3 100644
--- a/newt/bigQlm.py
+++ b/newt/bigQlm.py
@@ -105,8 +105,8 @@ def annulus(LMax, dens, H, r0, r1, phic, phih):
     Qlmb[1, L] = sH*dens*np.sqrt(3/np.pi)*phih*Q10
     Q11 = np.log((r1+d1)/(r0+d0))
     Qlmb[1, L+1] = -dens*H*np.sqrt(3/(2*np.pi))*Q11*np.sin(phih)
-    Q22 = 1/d1 - 1/d0
-    Qlmb[2, L] = dens*np.sqrt(5/(4*np.pi))*phih*Q22
+    Q20 = H*(1/d1 - 1/d0)
+    Qlmb[2, L] = dens*np.sqrt(5/(4*np.pi))*phih*Q20
     Q21 = r1/d1 - r0/d0 + np.log((r1*(r0+d0))/(r0*(r1+d1)))
     Qlmb[2, L+1] = -sH*dens*np.sqrt(5/(6*np.pi))*Q21*np.sin(phih)
     Q22 = H*(1/d0-1/d1) - 2*np.log((r0*(H+d1))/(r1*(H+d0)))
-- 
2.43.0


From ef91a1eacadf509b01110ecb6009ddc21fb3e61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 17/49] fix: bigQlm.annulus Q53 polynomial

---
 newt/bigQlm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/bigQlm.py b/newt/bigQlm.py
index ac197a3..0d7e1fb 100644
--- a/newt/bigQlm.py
+++ b/newt/bigQlm.py
@@ -141,7 +141,7 @@ def annulus(LMax, dens, H, r0, r1, phic, phih):
     Q52 = 5/r1**3 + (4*H**4+14*H**2*r1**2-5*r1**4)/d1**7
     Q52 -= 5/r0**3 + (4*H**4+14*H**2*r0**2-5*r0**4)/d0**7
     Qlmb[5, L+2] = sH*dens*np.sqrt(11/(210*np.pi))/12*Q52*np.sin(2*phih)/2
-    Q53 = r1**5*(7*H**2+r1**2)/d1**7 - r0**5*(7*H**2+r0**2)/d0**7
+    Q53 = r1**5*(7*H**2+2*r1**2)/d1**7 - r0**5*(7*H**2+2*r0**2)/d0**7
     Qlmb[5, L+3] = dens*np.sqrt(11/(35*np.pi))/(16*H**3)*Q53*np.sin(3*phih)/3
     Q54 = 35/r0**3 - (8*H**4+28*H**2*r0**2+35*r0**4)/d0**7
     Q54 -= 35/r1**3 - (8*H**4+28*H**2*r1**2+35*r1**4)/d1**7
-- 
2.43.0


From c68389305a372a02347084cc367bcb2a500a0730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 18/49] fix: bigQlm.annulus rotates outer moments by +phic

---
 newt/bigQlm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/bigQlm.py b/newt/bigQlm.py
index 0d7e1fb..fdef32b 100644
--- a/newt/bigQlm.py
+++ b/newt/bigQlm.py
@@ -152,7 +152,7 @@ def annulus(LMax, dens, H, r0, r1, phic, phih):
 
     # Moments always satisfy Q(l, -m) = (-1)^m Q(l, m)*
     ms = np.arange(-L, L+1)
-    Qlmb *= np.exp(-1j*ms*phic)
+    Qlmb *= np.exp(1j*ms*phic)
     mfac = (-1)**(np.abs(ms))
     Qlmb += np.conj(np.fliplr(Qlmb))*mfac
     Qlmb[:, L] /= 2
-- 
2.43.0


From af678a776f9b809da42d777602ef7fab75174e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 19/49] fix: translating by zero returns a copy of the moments

---
 newt/translations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/translations.py b/newt/translations.py
index c943bbe..c5b8874 100644
--- a/newt/translations.py
+++ b/newt/translations.py
@@ -34,7 +34,7 @@ def translate_qlm(qlm, rPrime):
     """
     rP = np.sqrt(rPrime[0]**2+rPrime[1]**2+rPrime[2]**2)
     if rP == 0:
-        return qlm
+        return np.copy(qlm)
     phiP = np.arctan2(rPrime[1], rPrime[0])
     thetaP = np.arccos(rPrime[2]/rP)
     # Restrict LMax to size of qlm for now
@@ -95,7 +95,7 @@ def translate_Qlmb(Qlm, rPrime):
     """
     rP = np.sqrt(rPrime[0]**2+rPrime[1]**2+rPrime[2]**2)
     if rP == 0:
-        return Qlm
+        return np.copy(Qlm)
     phiP = np.arctan2(rPrime[1], rPrime[0])
     thetaP = np.arccos(rPrime[2]/rP)
     # Restrict LMax to size of Qlm for now
-- 
2.43.0


From 8698e5de2c995a96871b6624979061704f5c92f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:12 +0000
Subject: [PATCH 20/49] fix: transl_newt_z_SR for displacements along -z

---
 newt/translationRecurs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/translationRecurs.py b/newt/translationRecurs.py
index 0153d9b..14d9c5a 100644
--- a/newt/translationRecurs.py
+++ b/newt/translationRecurs.py
@@ -219,7 +219,7 @@ def transl_newt_z_SR(LMax, dr):
     http://legacydirs.umiacs.umd.edu/~gumerov/PDFs/cs-tr-4701.pdf
     """
     lp = np.arange(2*LMax+1)
-    svals = np.sign(dr)**(lp+1)*np.exp(sp.gammaln(lp+1) - (lp+1)*np.log(np.abs(dr)))
+    svals = np.sign(dr)**lp*np.exp(sp.gammaln(lp+1) - (lp+1)*np.log(np.abs(dr)))
     srms = []
     for m in range(LMax+1):
         faca = alphanm(lp[m:LMax+1], m)
-- 
2.43.0


From 20efb63565b63ec8e7a51ad42922cc377e21b126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:49 +0000
Subject: [PATCH 21/49] fix: rotate_H_recurs returns a list of matrices at p=0

---
 newt/rotations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/rotations.py b/newt/rotations.py
index e5ead66..7ffd77a 100644
--- a/newt/rotations.py
+++ b/newt/rotations.py
@@ -30,7 +30,7 @@ def rotate_H_recurs(p, beta, Hn_prev=None):
     https://arxiv.org/pdf/1403.7698v1.pdf
     """
     if p == 0:
-        return 1.0
+        return [np.ones([1, 1])]
     else:
         H = []
 
-- 
2.43.0


From caa7cbc14b4ae6fb053a38ca09225cb55be7ae6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:49 +0000
Subject: [PATCH 22/49] fix: torque of inner moments moved to outer along +z
 flips the order

---
 newt/multipoleLib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/multipoleLib.py b/newt/multipoleLib.py
index ab82681..bacbf8c 100644
--- a/newt/multipoleLib.py
+++ b/newt/multipoleLib.py
@@ -279,7 +279,7 @@ def torque(qlm, Qlm, euler, rvec, trans_type='inner-inner', cnst=BIG_G):
                 q2Q = True
             else:
                 sms = trr.transl_newt_z_SS(minL, r)
-            qnew = trr.apply_trans_mat_right(qnew, sms)
+            qnew = trr.apply_trans_mat_right(qnew, sms, q2Q)
             qnew = rot.rotate_qlm_Ds_right(qnew, DsR)
         else:
             phi = np.arctan2(rvec[1], rvec[0])
-- 
2.43.0


From 205f9828e4e2d10ac9849bbd6e80de1d8487b9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:49 +0000
Subject: [PATCH 23/49] fix: torque of translated outer moments rotates them as
 outer moments

---
 newt/multipoleLib.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/newt/multipoleLib.py b/newt/multipoleLib.py
index bacbf8c..1b330b3 100644
--- a/newt/multipoleLib.py
+++ b/newt/multipoleLib.py
@@ -291,6 +291,7 @@ def torque(qlm, Qlm, euler, rvec, trans_type='inner-inner', cnst=BIG_G):
                 Ds2 = rot.wignerDl(minL, phi, -theta, phi)
             else:
                 sms = trr.transl_newt_z_SS(minL, r)
+                Ds = rot.wignerDl(minL, phi, -theta, phi)
                 Ds2 = Ds
             # Translate and rotate in opposite order than applied to q
             qnew = rot.rotate_qlm_Ds_right(qnew, Ds2, True)
-- 
2.43.0


From c170a6bac532e0d457118b59993d2adf44033d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:49 +0000
Subject: [PATCH 24/49] fix: force_basis of degree zero at the origin

---
 newt/multipoleLib.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/newt/multipoleLib.py b/newt/multipoleLib.py
index 1b330b3..9ea14b3 100644
--- a/newt/multipoleLib.py
+++ b/newt/multipoleLib.py
@@ -23,9 +23,10 @@ def force_basis(L, x, y, z):
     bZ = np.zeros([L+1, 2*L+1], dtype='complex')
 
     if (x == 0) and (y == 0) and (z == 0):
-        bZ[1, L] = 1
-        bX[1, L+1] = -1/2
-        bY[1, L+1] = 1j/2
+        if L > 0:
+            bZ[1, L] = 1
+            bX[1, L+1] = -1/2
+            bY[1, L+1] = 1j/2
     else:
         ytilC[0, L] = 1
         r2 = x**2 + y**2 + z**2
-- 
2.43.0


From a1a9404b0ee80b7772d40a94f4ace1349f0605a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 25/49] fix: qlm.annulus rejects equal radii instead of
 returning nan

---
 newt/qlm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/qlm.py b/newt/qlm.py
index 3472213..f3377ad 100644
--- a/newt/qlm.py
+++ b/newt/qlm.py
@@ -105,7 +105,7 @@ def annulus(L, mass, H, Ri, Ro, phic, phih):
     """
     factor = mass*np.sqrt(1/(4.*np.pi))
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (H <= 0) or (Ro < Ri) or (phih <= 0) or (phih > np.pi) or (Ri < 0):
+    if (H <= 0) or (Ro <= Ri) or (phih <= 0) or (phih > np.pi) or (Ri < 0):
         raise ValueError('Unphysical parameter arguments')
     rfac = Ro**2 - Ri**2
     for l in range(L+1):
-- 
2.43.0


From e9475fa73d5c42ba547e121b32eeeb7f5281a569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 26/49] fix: qlm.ngon_prism rejects fewer than three sides

---
 newt/qlm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/qlm.py b/newt/qlm.py
index f3377ad..00ef7a0 100644
--- a/newt/qlm.py
+++ b/newt/qlm.py
@@ -462,7 +462,7 @@ def ngon_prism(L, mass, H, a, phic, N):
     """
     factor = mass*np.sqrt(1/(4.*np.pi))
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (H <= 0) or (a <= 0) or (N <= 0):
+    if (H <= 0) or (a <= 0) or (N < 3):
         raise ValueError('Unphysical parameter arguments')
     tanN = np.tan(np.pi/N)
     for l in range(L+1):
-- 
2.43.0


From edbb6fc8bceb93e4eabfa0b5c0434b488f13c5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 27/49] fix: qlm.sphere rejects non-positive radii

---
 newt/qlm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/newt/qlm.py b/newt/qlm.py
index 00ef7a0..0589047 100644
--- a/newt/qlm.py
+++ b/newt/qlm.py
@@ -29,6 +29,8 @@ def sphere(L, mass, R):
     qlm : ndarray, complex
         (L+1)x(2L+1) array of complex moment values
     """
+    if R <= 0:
+        raise ValueError('R <= 0')
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
     qlm[0, L] = mass/np.sqrt((4*np.pi))
     return qlm
-- 
2.43.0


From ed33e3a3d869b2d1cc37b95a58ef84e30415576d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 28/49] fix: qlmACH.annulus rejects negative inner radii

---
 newt/qlmACH.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/qlmACH.py b/newt/qlmACH.py
index 27b7bf7..aeea2ab 100644
--- a/newt/qlmACH.py
+++ b/newt/qlmACH.py
@@ -98,7 +98,7 @@ def annulus(LMax, rho, H, Ri, Ro, phic, phih):
     dr = Ro-Ri
     r = (Ro+Ri)/2
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (Ro <= Ri) or (Ro <= 0) or (H <= 0) or (phih > np.pi) or (phih <= 0):
+    if (Ro <= Ri) or (Ri < 0) or (H <= 0) or (phih > np.pi) or (phih <= 0):
         raise ValueError('Unphysical parameter arguments')
     eiphi = np.exp(-1j*phic)
     sdphih = np.sin(dphi/2)
-- 
2.43.0


From 835271d05eba6da8695fb8f0e84ba5ddc991d70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 29/49] fix: qlmACH.cone and cone2 reject negative radii

---
 newt/qlmACH.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/qlmACH.py b/newt/qlmACH.py
index aeea2ab..1f345e2 100644
--- a/newt/qlmACH.py
+++ b/newt/qlmACH.py
@@ -176,7 +176,7 @@ def cone(LMax, rho, h, r1, r2):
     else:
         L = LMax
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (h <= 0) or ((r1 == 0) and (r2 == 0)):
+    if (h <= 0) or (r1 < 0) or (r2 < 0) or ((r1 == 0) and (r2 == 0)):
         raise ValueError('Unphysical parameter arguments')
     fac = rho*np.sqrt(np.pi)
     qlm[0, L] = fac*h*(r1**2 + r1*r2 + r2**2)/6
@@ -254,7 +254,7 @@ def cone2(LMax, rho, h, r1, r2):
     else:
         L = LMax
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (h <= 0) or ((r1 == 0) and (r2 == 0)):
+    if (h <= 0) or (r1 < 0) or (r2 < 0) or ((r1 == 0) and (r2 == 0)):
         raise ValueError('Unphysical parameter arguments')
     fac = rho*np.sqrt(np.pi)
     qlm[0, L] = fac*h*(r1**2 + r1*r2 + r2**2)/6
-- 
2.43.0


From b6f63cadd47f8a85406e493db36c1ad7afe19bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 30/49] fix: qlmACH.trapezoid rejects two vanishing widths

---
 newt/qlmACH.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/qlmACH.py b/newt/qlmACH.py
index 1f345e2..b2e80a7 100644
--- a/newt/qlmACH.py
+++ b/newt/qlmACH.py
@@ -407,7 +407,7 @@ def trapezoid(LMax, rho, t, w1, w2, h):
     else:
         L = LMax
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (h <= 0) or (t <= 0) or (w1 < 0) or (w2 < 0):
+    if (h <= 0) or (t <= 0) or (w1 < 0) or (w2 < 0) or (w1 + w2 == 0):
         raise ValueError('Unphysical parameter arguments')
     w = (w1+w2)/2
     delw = (w1-w2)/w
-- 
2.43.0


From bb97bddf483df5bc8f2c54157271065d0e8cc4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 31/49] fix: qlmACH.platehole rejects holes lying in the plate

---
 newt/qlmACH.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/qlmACH.py b/newt/qlmACH.py
index b2e80a7..2975f62 100644
--- a/newt/qlmACH.py
+++ b/newt/qlmACH.py
@@ -783,7 +783,7 @@ def platehole(LMax, rho, t, r, theta):
     else:
         L = LMax
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (r <= 0) or (t <= 0) or (abs(theta) > np.pi/2):
+    if (r <= 0) or (t <= 0) or (abs(theta) >= np.pi/2):
         raise ValueError('Unphysical parameter arguments')
     s = np.tan(theta)
     q00 = rho*t*r**2*np.sqrt(np.pi*(1+s**2))/2
-- 
2.43.0


From 4a49ec01ef7f608661d41cc16ab1ac25abd91e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 32/49] fix: bigQlm.annulus rejects a vanishing inner radius

---
 newt/bigQlm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/bigQlm.py b/newt/bigQlm.py
index fdef32b..e853a3e 100644
--- a/newt/bigQlm.py
+++ b/newt/bigQlm.py
@@ -93,7 +93,7 @@ def annulus(LMax, dens, H, r0, r1, phic, phih):
     else:
         L = LMax
     Qlmb = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (H == 0) or (r1 < r0) or (r1 < 0) or (r0 < 0) or (phih <= 0) or (phih > np.pi):
+    if (H == 0) or (r1 < r0) or (r1 < 0) or (r0 <= 0) or (phih <= 0) or (phih > np.pi):
         raise ValueError('Unphysical parameter arguments')
     d1 = np.sqrt(H**2 + r1**2)
     d0 = np.sqrt(H**2 + r0**2)
-- 
2.43.0


From d356ce39c874fa5c9ccbe2f75000e023a94f3ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 33/49] fix: bigQlm.sphere rejects non-positive radii

---
 newt/bigQlm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/newt/bigQlm.py b/newt/bigQlm.py
index e853a3e..a4c8a36 100644
--- a/newt/bigQlm.py
+++ b/newt/bigQlm.py
@@ -37,6 +37,8 @@ def sphere(LMax, dens, R, x, y, z):
     M = dens*(4*np.pi*R**3)/3
     Qlmsb = np.zeros([LMax+1, 2*LMax+1], dtype='complex')
     d = np.sqrt(x**2 + y**2 + z**2)
+    if R <= 0:
+        raise ValueError('R <= 0')
     if (d == 0):
         print('Outer multipole moments cannot be evaluated at the origin.')
         raise ValueError('Unphysical parameter arguments')
-- 
2.43.0


From f7e07fae23abbc55d107a28debc64507243165c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:41 +0000
Subject: [PATCH 34/49] fix: Shape.rotate rotates outer moments with the shape

---
 newt/shapes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index 4f0dd43..5cf121f 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -56,7 +56,11 @@ class Shape:
         np.savetxt(filename+'.txt', self.qlm, header=header)
 
     def rotate(self, alpha, beta, gamma):
-        self.qlm = rot.rotate_qlm(self.qlm, alpha, beta, gamma)
+        if self.inner:
+            self.qlm = rot.rotate_qlm(self.qlm, alpha, beta, gamma)
+        else:
+            # Outer moments are not conjugated, so z-rotations change sign
+            self.qlm = rot.rotate_qlm(self.qlm, -alpha, beta, -gamma)
         self.mesh = gcad.rotate_mesh(self.mesh, alpha, beta, gamma)
 
         # Rotate center of mass using point-gravity tools
-- 
2.43.0


From cd132c5ca55c68cf97c22cb6484ea077d92974f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:41 +0000
Subject: [PATCH 35/49] fix: Shape.translate refuses outer to inner before
 changing the shape

---
 newt/shapes.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index 5cf121f..9e2e0a3 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -71,17 +71,17 @@ class Shape:
         self.com = rotcom[1:4]
 
     def translate(self, tvec, to_inner):
-        self.com += tvec
+        if to_inner and not self.inner:
+            raise ValueError('Outer to inner translations not allowed.')
+        self.com = self.com + tvec
         self.mesh = gcad.translate_mesh(self.mesh, tvec)
-        if self.inner and to_inner:
+        if to_inner:
             self.qlm = trs.translate_qlm(self.qlm, tvec)
-        elif self.inner and not to_inner:
+        elif self.inner:
             self.inner = False
             self.qlm = trs.translate_q2Q(self.qlm, tvec)
-        elif not self.inner and not to_inner:
-            self.qlm = trs.translate_Qlmb(self.qlm, tvec)
         else:
-            raise ValueError('Outer to inner translations not allowed.')
+            self.qlm = trs.translate_Qlmb(self.qlm, tvec)
 
     def add(self, shapes):
         """
-- 
2.43.0


From 7984fa1ae179f6af7bc8013ed9e2aed58e5e6f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:41 +0000
Subject: [PATCH 36/49] fix: outer moments of Annulus have the mass of the
 annulus

---
 newt/shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index 9e2e0a3..74d1946 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -142,7 +142,7 @@ class Annulus(Shape):
         if self.inner:
             self.qlm = qlm.annulus(lmax, mass, H, Ri, Ro, phic, phih)
         else:
-            dens = mass/(2*phih*(Ro**2 - Ri**2)*H)
+            dens = mass/(phih*(Ro**2 - Ri**2)*H)
             self.qlm = bqlm.annulus(lmax, dens, H/2, Ri, Ro, phic, phih)
             self.qlm += bqlm.annulus(lmax, dens, -H/2, Ri, Ro, phic, phih)
 
-- 
2.43.0


From 9c84ad3a8986bc56ceefd7fb3460057149c3c8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:41 +0000
Subject: [PATCH 37/49] fix: outer Sphere keeps its moments and center

---
 newt/shapes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index 74d1946..f9f9620 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -202,7 +202,10 @@ class Sphere(Shape):
             self.translate(center, True)
         else:
             dens = mass/(4*np.pi*R**3/3)
-            bqlm.sphere(lmax, dens, R, center[0], center[1], center[2])
+            self.qlm = bqlm.sphere(lmax, dens, R, center[0], center[1],
+                                   center[2])
+            self.com = self.com + center
+            self.mesh = gcad.translate_mesh(self.mesh, center)
 
 
 class NGon(Shape):
-- 
2.43.0


From 08106b03e08313da6cce1886fce5fd8ae115a42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:42 +0000
Subject: [PATCH 38/49] fix: OuterCone keeps its moments, with the mass of the
 cone

---
 newt/shapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index f9f9620..6668240 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -261,8 +261,8 @@ class OuterCone(Shape):
         if self.inner:
             print('Inner cone shape should come from Cone.')
         else:
-            dens = mass/(2*phih*H*(OR**2-IR**2)/3)
-            bqlmn.outer_cone(lmax, dens, H, IR, OR, phih)
+            dens = mass/(phih*H*(OR-IR)*(OR+2*IR)/3)
+            self.qlm = bqlmn.outer_cone(lmax, dens, H, IR, OR, phih)
 
 
 class Cylhole(Shape):
-- 
2.43.0


From 4b26a930d48bc4afe47523178af393ace1658fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:42 +0000
Subject: [PATCH 39/49] fix: Cylhole and Platehole moments have the mass given

---
 newt/shapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index 6668240..7374750 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -276,7 +276,7 @@ class Cylhole(Shape):
         if self.inner:
             dens = 1
             self.qlm = qlmn.steinmetz(lmax, dens, r, R)
-            self.qlm *= mass/np.real(self.qlm[0, lmax])*np.sqrt(4*np.pi)
+            self.qlm *= mass/(np.real(self.qlm[0, lmax])*np.sqrt(4*np.pi))
         else:
             print('Outer cylindrical hole shape not defined.')
 
@@ -292,6 +292,6 @@ class Platehole(Shape):
         if self.inner:
             dens = 1
             self.qlm = qlmn.platehole(lmax, dens, t, r, theta)
-            self.qlm *= mass/np.real(self.qlm[0, lmax])*np.sqrt(4*np.pi)
+            self.qlm *= mass/(np.real(self.qlm[0, lmax])*np.sqrt(4*np.pi))
         else:
             print('Outer plate hole shape not defined.')
-- 
2.43.0


From 787de3924e113895aa58f3aac54d83e51e51e16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:42 +0000
Subject: [PATCH 40/49] fix: shapes not centered on the origin start with their
 center of mass

---
 newt/shapes.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index 7374750..8701274 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -139,6 +139,8 @@ class Annulus(Shape):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
         self.mesh = gcad.annulus(mass > 0, H, Ri, Ro, phic, phih)
+        rcom = 2*(Ro**2+Ro*Ri+Ri**2)/(3*(Ro+Ri))*np.sin(phih)/phih
+        self.com = np.array([rcom*np.cos(phic), rcom*np.sin(phic), 0.])
         if self.inner:
             self.qlm = qlm.annulus(lmax, mass, H, Ri, Ro, phic, phih)
         else:
@@ -169,6 +171,7 @@ class TriPrism(Shape):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
         self.mesh = gcad.tri_prism(mass > 0, H, d, y1, y2)
+        self.com = np.array([2*d/3, (y1+y2)/3, 0.])
         if self.inner:
             self.qlm = qlm.tri_prism(lmax, mass, H, d, y1, y2)
         else:
@@ -183,6 +186,8 @@ class Cone(Shape):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
         self.mesh = gcad.cone(mass > 0, P, 0, R, phic, phih)
+        rcom = R/2*np.sin(phih)/phih
+        self.com = np.array([rcom*np.cos(phic), rcom*np.sin(phic), P/4])
         if self.inner:
             self.qlm = qlm.cone(lmax, mass, P, R, phic, phih)
         else:
@@ -230,6 +235,7 @@ class Tetrahedron(Shape):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
         self.mesh = gcad.tetrahedron2(mass > 0, x, y1, y2, z)
+        self.com = np.array([x/2, (y1+y2)/4, z/4])
         if self.inner:
             self.qlm = qlm.tetrahedron2(lmax, mass, x, y1, y2, z)
         else:
@@ -244,6 +250,7 @@ class Pyramid(Shape):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
         self.mesh = gcad.pyramid(mass > 0, x, y, z)
+        self.com = np.array([0., 0., z/4])
         if self.inner:
             self.qlm = qlm.pyramid(lmax, mass, x, y, z)
         else:
@@ -257,7 +264,10 @@ class OuterCone(Shape):
     def __init__(self, lmax, inner, mass, H, IR, OR, phih):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
-        self.mesh = gcad.outercone(mass, H, IR, OR, phih)
+        self.mesh = gcad.outercone(mass > 0, H, IR, OR, phih)
+        rcom = (OR**2+2*OR*IR+3*IR**2)/(2*(OR+2*IR))*np.sin(phih)/phih
+        zcom = H*(OR+3*IR)/(4*(OR+2*IR))
+        self.com = np.array([rcom, 0., zcom])
         if self.inner:
             print('Inner cone shape should come from Cone.')
         else:
-- 
2.43.0


From 80c7606c6bc1f39b391ededd7bdba57d2a36880b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:49 +0000
Subject: [PATCH 41/49] fix: read_mpc ignores comments and empty lines anywhere
 in a program

---
 newt/read_multiFor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index 31c8be9..9eb0189 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -132,6 +132,9 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
         lines = f.readlines()
     title = lines[0]
     print(title)
+    # Get rid of stuff after a comment, and of empty lines
+    lines = [line.split('%')[0] for line in lines[1:]]
+    lines = [title] + [line for line in lines if line.strip()]
     # We don't actually use n integration in this
     nsteps = 25
     # Assume units are centimeters unless told otherwise
@@ -142,8 +145,6 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
     k = 0
     while k < nlines:
         line = lines[1+k]
-        # Get rid of stuff after a comment
-        line = line.split('%')[0]
         if 'create' in line:
             print(line)
             shape = line.split('create')[1].split()[0]
-- 
2.43.0


From b9630b032d07373a8db20fd54d319293f3e0ce7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:49 +0000
Subject: [PATCH 42/49] fix: read_mpc loads parts whose names contain a command

---
 newt/read_multiFor.py | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index 9eb0189..a05998f 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -145,7 +145,16 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
     k = 0
     while k < nlines:
         line = lines[1+k]
-        if 'create' in line:
+        if line.split()[0] == 'load':
+            fname = line.split('load ')[1]
+            fname = fname.strip()
+            print(fname)
+            qlmLoad = read_gsq(fname, filepath.replace('mpc', 'mom'))
+            if np.shape(qlmLoad) != np.shape(qlmWrk):
+                raise TypeError('Loaded part '+fname+' has wrong LMax')
+            qlmWrk = qlmLoad
+            shape = fname
+        elif 'create' in line:
             print(line)
             shape = line.split('create')[1].split()[0]
             if shape == 'cylinder':
@@ -160,7 +169,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.annulus(LMax, mass, H, Ri, Ro, phic, phih)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and lines[2+k].split()[0] == 'add':
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -175,7 +184,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.sphere(LMax, mass, r)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and lines[2+k].split()[0] == 'add':
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -191,7 +200,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.cone(LMax, mass, H, LR, 0, np.pi)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and lines[2+k].split()[0] == 'add':
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -206,7 +215,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.tri_prism(LMax, mass, t, d, y1, y2)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and lines[2+k].split()[0] == 'add':
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -237,7 +246,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                     qlmWrk = rot.rotate_qlm(qlmWrk, 0, 0, np.pi)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and lines[2+k].split()[0] == 'add':
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -255,7 +264,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk -= qlm.tri_iso_prism2(LMax, massTri, h, r, 0, phih)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and lines[2+k].split()[0] == 'add':
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -270,7 +279,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.tetrahedron(LMax, mass, x, y, z)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and lines[2+k].split()[0] == 'add':
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -288,7 +297,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 # qlmWrk = rot.rotate_qlm(qlmWrk, 0, theta, 0)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and lines[2+k].split()[0] == 'add':
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -303,7 +312,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = rot.rotate_qlm(qlmWrk, np.pi/2, 0, 0)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and lines[2+k].split()[0] == 'add':
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -318,7 +327,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.pyramid(LMax, mass, x/2, y/2, z)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and lines[2+k].split()[0] == 'add':
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -333,7 +342,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.rect_prism(LMax, mass, z, x, y, 0)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and lines[2+k].split()[0] == 'add':
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -370,15 +379,6 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
             fac = 25.4e-3
         elif 'nsteps' in line:
             nsteps = line.split()[-1]
-        elif 'load' in line:
-            fname = line.split('load ')[1]
-            fname = fname.strip()
-            print(fname)
-            qlmLoad = read_gsq(fname, filepath.replace('mpc', 'mom'))
-            if np.shape(qlmLoad) != np.shape(qlmWrk):
-                raise TypeError('Loaded part '+fname+' has wrong LMax')
-            qlmWrk = qlmLoad
-            shape = fname
         elif 'zeroqlm' in line:
             qlmTot *= 0
         elif 'gettotal' in line:
-- 
2.43.0


From eafc16379587a4d64a578e14aff34e606c996c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:49 +0000
Subject: [PATCH 43/49] fix: read_mpc accepts a shape as the last command

---
 newt/read_multiFor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index a05998f..0abdd81 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -134,7 +134,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
     print(title)
     # Get rid of stuff after a comment, and of empty lines
     lines = [line.split('%')[0] for line in lines[1:]]
-    lines = [title] + [line for line in lines if line.strip()]
+    lines = [title] + [line for line in lines if line.strip()] + ['end']
     # We don't actually use n integration in this
     nsteps = 25
     # Assume units are centimeters unless told otherwise
-- 
2.43.0


From 718615931d4985e017b40ac6212f6675045ddf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:49 +0000
Subject: [PATCH 44/49] fix: read_mpc accepts register commands before the
 first shape

---
 newt/read_multiFor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index 0abdd81..45bd59a 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -142,6 +142,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
     nlines = len(lines[1:])
     qlmTot = np.zeros([LMax+1, 2*LMax+1], dtype='complex')
     qlmWrk = np.zeros([LMax+1, 2*LMax+1], dtype='complex')
+    shape = ''
     k = 0
     while k < nlines:
         line = lines[1+k]
-- 
2.43.0


From 3b0dc754cc3e509fb1a8e27c4b914d0af8efe273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:49 +0000
Subject: [PATCH 45/49] fix: read_mpc uses the upper radius of cones

---
 newt/read_multiFor.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index 45bd59a..2d10e1e 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -196,9 +196,24 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 line2 = [float(val)*fac for val in lines[2+k].split(',')]
                 LR, UR, H = line2
                 dens = float(lines[3+k].split(',')[0])*1000
-                mass = dens*np.pi*H*LR**2/3
+                mass = dens*np.pi*H*(LR**2+LR*UR+UR**2)/3
                 print(LR, UR, H, dens, mass)
-                qlmWrk = qlm.cone(LMax, mass, H, LR, 0, np.pi)
+                if LR == UR:
+                    qlmWrk = qlm.annulus(LMax, mass, H, 0, LR, 0, np.pi)
+                    qlmWrk = trs.translate_qlm(qlmWrk, [0, 0, H/2])
+                else:
+                    # Cone with its tip cut off, upside down if UR > LR
+                    R, r = max(LR, UR), min(LR, UR)
+                    Hb, Hs = H*R/(R-r), H*r/(R-r)
+                    qlmWrk = qlm.cone(LMax, dens*np.pi*Hb*R**2/3, Hb, R, 0,
+                                      np.pi)
+                    if r > 0:
+                        qlmTip = qlm.cone(LMax, dens*np.pi*Hs*r**2/3, Hs, r, 0,
+                                          np.pi)
+                        qlmWrk -= trs.translate_qlm(qlmTip, [0, 0, H])
+                    if UR > LR:
+                        qlmWrk = rot.rotate_qlm(qlmWrk, 0, np.pi, 0)
+                        qlmWrk = trs.translate_qlm(qlmWrk, [0, 0, H])
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
                 if (pos == 0).all() and lines[2+k].split()[0] == 'add':
-- 
2.43.0


From f2698e1cadf60dabfba5e2ec47b53b63a56471eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:49 +0000
Subject: [PATCH 46/49] fix: read_mpc accepts trapezoids of equal widths

---
 newt/read_multiFor.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index 2d10e1e..52e6bdd 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -249,14 +249,18 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                     flip = False
                 dens = float(lines[3+k].split(',')[0])*1000
                 y1, y2 = w3/2, w4/2
-                hs = w3*h/(w4-w3)
-                hb = h + hs
-                massTrib = dens*t*w4*hb/2
-                massTris = dens*t*w3*hs/2
-                print(hs, hb, w3, w4)
-                qlmWrk = qlm.tri_iso_prism(LMax, massTrib, t, w4, hb, 0)
-                qlmWrk -= qlm.tri_iso_prism(LMax, massTris, t, w3, hs, 0)
-                qlmWrk = trs.translate_qlm(qlmWrk, [-hs, 0, 0])
+                if w3 == w4:
+                    qlmWrk = qlm.rect_prism(LMax, dens*t*w3*h, t, h, w3, 0)
+                    qlmWrk = trs.translate_qlm(qlmWrk, [h/2, 0, 0])
+                else:
+                    hs = w3*h/(w4-w3)
+                    hb = h + hs
+                    massTrib = dens*t*w4*hb/2
+                    massTris = dens*t*w3*hs/2
+                    print(hs, hb, w3, w4)
+                    qlmWrk = qlm.tri_iso_prism(LMax, massTrib, t, w4, hb, 0)
+                    qlmWrk -= qlm.tri_iso_prism(LMax, massTris, t, w3, hs, 0)
+                    qlmWrk = trs.translate_qlm(qlmWrk, [-hs, 0, 0])
                 if flip:
                     qlmWrk = trs.translate_qlm(qlmWrk, [-(hb-hs), 0, 0])
                     qlmWrk = rot.rotate_qlm(qlmWrk, 0, 0, np.pi)
-- 
2.43.0


From 47210efa2f6519aea071b0d404245f4c4de90b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:49 +0000
Subject: [PATCH 47/49] fix: read_mpc accepts part cylinders of more than half
 a cylinder

---
 newt/read_multiFor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index 52e6bdd..04dc3b1 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -281,7 +281,12 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 massCyl = dens*h*phih*r**2
                 massTri = dens*h*d*r*np.sin(phih)
                 qlmWrk = qlm.annulus(LMax, massCyl, h, 0, r, 0, phih)
-                qlmWrk -= qlm.tri_iso_prism2(LMax, massTri, h, r, 0, phih)
+                # Triangle is missing if d > 0 and is in addition if d < 0
+                phicTri, phihTri = 0, phih
+                if d < 0:
+                    phicTri, phihTri = np.pi, np.pi-phih
+                qlmWrk -= qlm.tri_iso_prism2(LMax, massTri, h, r, phicTri,
+                                             phihTri)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
                 if (pos == 0).all() and lines[2+k].split()[0] == 'add':
-- 
2.43.0


From b70119c4a8656cc8a328fb571ed67a0315b38156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:49 +0000
Subject: [PATCH 48/49] fix: read_mpc gives triangles at negative d a mass of
 the right sign

---
 newt/read_multiFor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index 04dc3b1..0d54a27 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -227,7 +227,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 line2 = [float(val)*fac for val in lines[2+k].split(',')]
                 d, y1, y2, t = line2
                 dens = float(lines[3+k].split(',')[0])*1000
-                mass = dens*t*d*abs(y2-y1)/2
+                mass = dens*t*abs(d*(y2-y1))/2
                 qlmWrk = qlm.tri_prism(LMax, mass, t, d, y1, y2)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-- 
2.43.0


From c459d72b17d00c4c3270f4fdec0e46f5d1975186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:27 +0000
Subject: [PATCH 49/49] fix: read_mpc loads parts when the path to the mpc
 directory contains mpc elsewhere

---
 newt/read_multiFor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index 0d54a27..db021aa 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -150,7 +150,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
             fname = line.split('load ')[1]
             fname = fname.strip()
             print(fname)
-            qlmLoad = read_gsq(fname, filepath.replace('mpc', 'mom'))
+            qlmLoad = read_gsq(fname, 'mom'.join(filepath.rsplit('mpc', 1)))
             if np.shape(qlmLoad) != np.shape(qlmWrk):
                 raise TypeError('Loaded part '+fname+' has wrong LMax')
             qlmWrk = qlmLoad
-- 
2.43.0

