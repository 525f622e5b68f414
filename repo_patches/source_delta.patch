From 19af1c4b9e4841c18db78f0beaee757eb36a22d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:21 +0000
Subject: [PATCH 01/37] fix: BravaisLattice could not be constructed, np.alen
 no longer exists in numpy

---
 structrans/crystallography/bravais_lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/crystallography/bravais_lattice.py b/structrans/crystallography/bravais_lattice.py
index b4756bb..9670303 100644
--- a/structrans/crystallography/bravais_lattice.py
+++ b/structrans/crystallography/bravais_lattice.py
@@ -33,14 +33,14 @@ class BravaisLattice(Lattice):
             if not latID in range(1, 15):
                 raise ValueError('3D Bravais lattice ID must between 1 and 14')
             pramlen = [1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 6] 
-            if not np.alen(latParam) == pramlen[latID - 1]:
+            if not len(latParam) == pramlen[latID - 1]:
                 raise ValueError('the number of lattice parameters does not match the type of Bravais lattice.')
             E, C = BravaisLattice.__primitiveBase3D__(latID, latParam)
         if dim == 2:
             if not latID in range(1, 6):
                 raise ValueError('2D Bravais lattice ID must be between 1 and 5.')
             pramlen = [1, 2, 2, 1, 3] 
-            if not np.alen(latParam) == pramlen[latID-1]:
+            if not len(latParam) == pramlen[latID-1]:
                 raise ValueError('the number of lattice parameters does not match the type of Bravais lattice.')
             E, C = BravaisLattice.__primitiveBase2D__(latID, latParam)
 
-- 
2.43.0


From e700f7ddd3f6834f910edf66acffaaf082d72bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:21 +0000
Subject: [PATCH 02/37] fix: a lattice compared equal to its proper sublattices

---
 structrans/crystallography/lattice.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index 351b0a1..cbaa390 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -181,7 +181,9 @@ class Lattice():
         # E1 A = E2
         A = np.dot(la.inv(E1), E2)
         A_int = np.rint(A)
-        return np.allclose(A, A_int, atol=1E-8)
+        # both A and its inverse have to be integral, otherwise
+        # E2 only spans a proper sublattice of E1
+        return np.allclose(A, A_int, atol=1E-8) and np.rint(abs(la.det(A_int))) == 1
 
     def __str__(self):
         des_str = '{:d} dimensional lattice:'.format(self.__N)
-- 
2.43.0


From 7b79d034acfafa2b6b4f09f7523caee1c8f83e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:21 +0000
Subject: [PATCH 03/37] fix: rotation about an axis antiparallel to [1, 0, 0]
 was nan

---
 structrans/util/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/util/utils.py b/structrans/util/utils.py
index c346d3f..0219dde 100644
--- a/structrans/util/utils.py
+++ b/structrans/util/utils.py
@@ -72,7 +72,7 @@ def rotation(angle, axis, unit="deg"):
     a = axis if isinstance(axis, np.ndarray) else np.array(axis)
     z = a/la.norm(a)
     t = radians(angle) if unit is "deg" else angle
-    if z.dot(np.array([1, 0, 0])) < 0.9:
+    if abs(z.dot(np.array([1, 0, 0]))) < 0.9:
         # z is not parallel to e1
         z1 = np.cross(z, np.array([1, 0, 0]))
         z2 = np.cross(z, z1)
-- 
2.43.0


From ad124990e07f49a19e770314a68831ce610102c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:21 +0000
Subject: [PATCH 04/37] fix: getlatticegroup returned the special lattice group

---
 structrans/crystallography/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index cbaa390..c96d376 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -167,7 +167,7 @@ class Lattice():
 
     def getlatticegroup(self):
         warn("getlatticegroup() is deprecated, please use lattice_group() instead.", DeprecationWarning)
-        return self.special_lattice_group()
+        return self.lattice_group()
 
     def __eq__(self, other):
         if not isinstance(other, Lattice):
-- 
2.43.0


From 12fb668036429aa56c79e58445177ecde2dafb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:21 +0000
Subject: [PATCH 05/37] fix: toPrimitive and toConventional dropped their
 argument and always raised

---
 structrans/crystallography/bravais_lattice.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/structrans/crystallography/bravais_lattice.py b/structrans/crystallography/bravais_lattice.py
index 9670303..18db907 100644
--- a/structrans/crystallography/bravais_lattice.py
+++ b/structrans/crystallography/bravais_lattice.py
@@ -347,8 +347,8 @@ class BravaisLattice(Lattice):
         return res[0] if len(idx) == 1 else res
 
     def toPrimitive(self, idx):
-        warn("toPrimitive() is deprecated, please use to_primitive() instead.", DeprecationWarning)
-        return self.to_primitive()
+        warn("toPrimitive() is deprecated, please use to_primitive_Miller() instead.", DeprecationWarning)
+        return self.to_primitive_Miller(idx)
 
     def to_conventional_Miller(self, idx):
         """
@@ -375,4 +375,4 @@ class BravaisLattice(Lattice):
 
     def toConventional(self, idx):
         warn("toConventional() is deprecated, please use to_conventional_Miller() instead.", DeprecationWarning)
-        return self.to_conventional_Miller()
\ No newline at end of file
+        return self.to_conventional_Miller(idx)
\ No newline at end of file
-- 
2.43.0


From 516c26f31ec99a04cfdbabc2e6f5bdb980932b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:21 +0000
Subject: [PATCH 06/37] fix: strain distance was offset by one in two
 dimensions

---
 structrans/marttrans/lat_cor/dist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/dist.py b/structrans/marttrans/lat_cor/dist.py
index 08668e7..783e750 100644
--- a/structrans/marttrans/lat_cor/dist.py
+++ b/structrans/marttrans/lat_cor/dist.py
@@ -21,7 +21,7 @@ def strain_dist(x, E1, E2inv):
     Cinv = np.dot(Finv, Finv.T)
     lam = np.real(la.eig(Cinv)[0])
     slam = np.sqrt(lam)
-    return np.sum(lam) - 2*np.sum(slam) + 3
+    return np.sum(lam) - 2*np.sum(slam) + dim
 
 
 def Cauchy_dist(x, E1, E2inv):
-- 
2.43.0


From d3036ee4cc3ca69e1006be6bf22744a0d06300bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:43 +0000
Subject: [PATCH 07/37] fix: mat_math failed on every call under Python 3 and
 mat_trace summed into uninitialised memory

---
 structrans/mat_math.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/structrans/mat_math.py b/structrans/mat_math.py
index 825debf..64abcfd 100644
--- a/structrans/mat_math.py
+++ b/structrans/mat_math.py
@@ -3,6 +3,7 @@ This file contains functions and data related to
 matrix operation of a large number of matrices
 '''
 import numpy as np
+from .general_imports import *
 from math import sqrt
 try:
     from scipy.linalg import eig
@@ -32,7 +33,7 @@ def mat_trace (l):
     # dimension
     d = int(sqrt(len(l[0])))
     
-    tr = np.empty(len(l), dtype=l.dtype)    
+    tr = np.zeros(len(l), dtype=l.dtype)    
         
     for i in xrange(d):
         tr += l[:, i*d+i]
@@ -52,7 +53,7 @@ def mat_det (l):
         # calculate the minors
         s = (-1)**n # sign
         # remove the 0-th row and the n-th column
-        rm_idx = range(d)
+        rm_idx = list(range(d))
         rm_idx.extend([i*d+n for i in xrange(1,d)])
         # idx of the minors
         mn_idx = [i for i in xrange(d**2) if not i in rm_idx]
@@ -73,7 +74,7 @@ def mat_T(l):
     return T
 
 def mat_eig(l, MAX_MEM=1E9):
-    dim = sqrt(l.shape[1])    
+    dim = int(sqrt(l.shape[1]))    
     eigs = np.empty((len(l),dim))    
     for i in xrange(len(l)):
         M = l[i].reshape(dim, dim)
@@ -108,7 +109,7 @@ def cofactor(A):
                 a = np.delete(A, i, axis=0)
                 a = np.delete(a, j, axis=1)
                 minor = np.append(minor, (-1)**(i+j)*det(a))
-        return np.array(minor).reshape(3,3)
+        return np.array(minor).reshape(m,n)
                 
     else:
         print('Please input a square matrix.')
-- 
2.43.0


From 028e504b02c523f0ea77dfc543a35066a0756f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:43 +0000
Subject: [PATCH 08/37] fix: isCompatible accepted every pair with a middle
 eigenvalue below one

---
 structrans/marttrans/Compatibility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/Compatibility.py b/structrans/marttrans/Compatibility.py
index cfa3def..6f542e4 100644
--- a/structrans/marttrans/Compatibility.py
+++ b/structrans/marttrans/Compatibility.py
@@ -18,7 +18,7 @@ def isCompatible(A, B):
     if isinstance(A, np.ndarray) and isinstance(B, np.ndarray):
         C = np.dot(inv(B.T).dot(A.T), A.dot(inv(B)))
         e, v = _math.eigSort(C)
-        if abs(e[1])-1<1e-5:
+        if abs(e[1]-1)<1e-5:
             return True
         else:
             return False
-- 
2.43.0


From 367b4dd0c82b3faa4026ca44b55ab2567924594b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:43 +0000
Subject: [PATCH 09/37] fix: Euler and rotation compared the unit by identity

---
 structrans/util/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/util/utils.py b/structrans/util/utils.py
index 0219dde..6683bd9 100644
--- a/structrans/util/utils.py
+++ b/structrans/util/utils.py
@@ -59,7 +59,7 @@ def Euler(angles, order="ZXZ", unit="deg"):
         if a not in "XYZxyz":
             raise ValueError("unknown rotation axis {:s}", a)
         else:
-            angle = radians(angles[i]) if unit is "deg" else angles[i]
+            angle = radians(angles[i]) if unit == "deg" else angles[i]
             R = canonical_rotation[a.upper()](angle).dot(R)
     return R
 
@@ -71,7 +71,7 @@ def rotation(angle, axis, unit="deg"):
 
     a = axis if isinstance(axis, np.ndarray) else np.array(axis)
     z = a/la.norm(a)
-    t = radians(angle) if unit is "deg" else angle
+    t = radians(angle) if unit == "deg" else angle
     if abs(z.dot(np.array([1, 0, 0]))) < 0.9:
         # z is not parallel to e1
         z1 = np.cross(z, np.array([1, 0, 0]))
-- 
2.43.0


From 3ec7ab5081f71b94ec8437e4027c5639c1e9de28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:43 +0000
Subject: [PATCH 10/37] fix: indefinite stretch matrices with a positive
 determinant were accepted as positive definite

---
 structrans/marttrans/martensite.py | 2 +-
 structrans/util/utils.py           | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/structrans/marttrans/martensite.py b/structrans/marttrans/martensite.py
index bde6f1a..f2c845b 100644
--- a/structrans/marttrans/martensite.py
+++ b/structrans/marttrans/martensite.py
@@ -47,7 +47,7 @@ class Martensite():
         if not np.array_equal(U, U.T):
             raise TypeError("not symmetric")
 
-        if not la.det(U) > 0:
+        if not all(la.det(U[:k, :k]) > 0 for k in (1, 2, 3)):
             raise TypeError("not positive definite")
 
         return Martensite(U, self.getLaue())
diff --git a/structrans/util/utils.py b/structrans/util/utils.py
index 6683bd9..35d5030 100644
--- a/structrans/util/utils.py
+++ b/structrans/util/utils.py
@@ -5,15 +5,17 @@ def is_3_by_3(U):
     """
     U is a [3 x 3] matrix
     """
-    return isinstance(U, np.ndarray) and U.shape is not (3, 3)
+    return isinstance(U, np.ndarray) and U.shape == (3, 3)
 
 def pos_def_sym(U):
     """
     check if U is [3 x 3] positive definite and symmetric
     """
+    if not is_3_by_3(U):
+        return False
     dU = (U - U.T).reshape(9)
     # return is_3_by_3(U) and la.det(U) > 0 and np.array_equal(U, U.T)
-    return is_3_by_3(U) and la.det(U) > 0 and la.norm(dU) < 1e-6
+    return la.norm(dU) < 1e-6 and all(la.det(U[:k, :k]) > 0 for k in (1, 2, 3))
 
 def sort_eig(A):
     """
-- 
2.43.0


From 88a3c064fca98d170f1fca530c3b60d6180ec337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:43 +0000
Subject: [PATCH 11/37] fix: twinparam raised for every twin pair that has a
 two-fold axis

---
 structrans/marttrans/twin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 5cc9bb8..47bc72c 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -396,7 +396,7 @@ def _solvetwin(U, Uj, e):
     """
     find the two solutions to the twinning equation
     """
-    if not e == None:
+    if e is not None:
         ehat = e/la.norm(e)
         Uinv = la.inv(U)
         R180 = -np.eye(3) + 2*np.outer(ehat, ehat)
-- 
2.43.0


From 5370363fe6e4b7e3186f788b32ca9c68f8fc0913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:43 +0000
Subject: [PATCH 12/37] fix: twin parameters of pairs without a two-fold axis
 did not solve the twinning equation

---
 structrans/marttrans/twin.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 47bc72c..9967bb3 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -422,12 +422,14 @@ def _solvetwin(U, Uj, e):
     else:
         cmix = np.dot(la.inv(U).dot(Uj), Uj.dot(la.inv(U)))
         (Q1, hat_a1, hat_n1), (Q2, hat_a2, hat_n2) = _solve_am(cmix)
-        rho1 = U.T.dot(hat_n1)
-        rho2 = U.T.dot(hat_n2)
+        rho1 = la.norm(U.T.dot(hat_n1))
+        rho2 = la.norm(U.T.dot(hat_n2))
         n1 = U.T.dot(hat_n1)/rho1
         a1 = rho1*hat_a1
         n2 = U.T.dot(hat_n2)/rho2
         a2 = rho2*hat_a2
+        Q1 = (U + np.outer(a1, n1)).dot(la.inv(Uj))
+        Q2 = (U + np.outer(a2, n2)).dot(la.inv(Uj))
         return (Q1, a1, n1), (Q2, a2, n2)
 
 def _solve_f(U, a, n):
-- 
2.43.0


From f38d6518dd5003f738bd718bbeeee032ad78856e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:43 +0000
Subject: [PATCH 13/37] fix: habitplanes raised when only one of the two twins
 is compatible

---
 structrans/marttrans/twin.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 9967bb3..1a7333d 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -365,6 +365,9 @@ class TwinPair():
         hps = []
 
         for i, f in enumerate(fs):
+            if f is None:
+                # this twin has no interface with the reference
+                continue
             a = tp[i][1]
             n = tp[i][2]
             Uf = [self.__Ui + f * np.outer(a, n),
-- 
2.43.0


From b9b5e31798ec0b4b68315de6c3d6fe86ad1874bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:43 +0000
Subject: [PATCH 14/37] fix: lat_cor raised StopIteration when the last slice
 improved the solutions

---
 structrans/marttrans/lat_cor/main_direct.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/main_direct.py b/structrans/marttrans/lat_cor/main_direct.py
index 7c16a6c..1abce14 100644
--- a/structrans/marttrans/lat_cor/main_direct.py
+++ b/structrans/marttrans/lat_cor/main_direct.py
@@ -221,7 +221,12 @@ def lat_cor(brava, pa, bravm, pm, **kwargs):
             updated, SOLS, EXT_SOLS, DMAX = update_sol(ary, SOLS, EXT_SOLS, DMAX)
             if updated:
                 maxRadius = rmax(DMAX)
-                checkpoint = np.array(next(g))
+                nextvec = next(g, None)
+                if nextvec is None:
+                    # the searching ball is exhausted
+                    updated = False
+                else:
+                    checkpoint = np.array(nextvec)
                 break
             else:
                 ary = np.array(list(itertools.islice(g, slice_sz)))
-- 
2.43.0


From 5fa1fb4e716951b779e2ee7caae025c48248ac65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:43 +0000
Subject: [PATCH 15/37] fix: vec_generator skipped vectors when resumed from a
 checkpoint

---
 structrans/marttrans/lat_cor/main_direct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/main_direct.py b/structrans/marttrans/lat_cor/main_direct.py
index 1abce14..856d568 100644
--- a/structrans/marttrans/lat_cor/main_direct.py
+++ b/structrans/marttrans/lat_cor/main_direct.py
@@ -34,7 +34,7 @@ def vec_generator(maxlen, dim, x0=None):
                 v[1:] = subvec[:]
                 yield v
             if firstDigit > 0:
-                g = vec_generator(np.sqrt(max(0, maxlen**2 - firstDigit**2)), dim - 1, xs)
+                g = vec_generator(np.sqrt(max(0, maxlen**2 - firstDigit**2)), dim - 1)
                 for subvec in g:
                     v = [-firstDigit] * dim
                     v[1:] = subvec[:]
-- 
2.43.0


From c27ebf4d2120d7554e82e0c79dc8d8a12f997e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:43 +0000
Subject: [PATCH 16/37] fix: merging HNF solutions dropped solutions while
 fewer than nsol were known

---
 structrans/marttrans/lat_cor/main_hnf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/main_hnf.py b/structrans/marttrans/lat_cor/main_hnf.py
index 925f120..c15d09c 100644
--- a/structrans/marttrans/lat_cor/main_hnf.py
+++ b/structrans/marttrans/lat_cor/main_hnf.py
@@ -225,7 +225,7 @@ def lat_cor(ibrava, pbrava, ibravm, pbravm, **kwargs):
                 add_sol(sols, s)
         else:
             for s in xrange(len(new)):
-                if new[s]['d'] <= sols[-1]['d']:
+                if len(sols) < nsol or new[s]['d'] <= sols[-1]['d']:
                     add_sol(sols, new[s])
                 else:
                     return
-- 
2.43.0


From e5b02a03d0e9ac15e4d9f72020791afa15ad82e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:43 +0000
Subject: [PATCH 17/37] fix: reduce_hnfs raised in the parallel workers, which
 get no print function

---
 structrans/marttrans/lat_cor/main_hnf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/main_hnf.py b/structrans/marttrans/lat_cor/main_hnf.py
index c15d09c..68d7eb0 100644
--- a/structrans/marttrans/lat_cor/main_hnf.py
+++ b/structrans/marttrans/lat_cor/main_hnf.py
@@ -19,7 +19,7 @@ def reduce_hnfs(args):
     """
     hnfs = args[0]
     lg = args[1]
-    lprint = args[2] # if len(args) > 2 else print
+    lprint = args[2] if len(args) > 2 else logger.info
     lprint("Reducing {:d} HNFs ...".format(len(hnfs)))
     rhnfs = {}
     for i, h in enumerate(hnfs):
-- 
2.43.0


From 803b80ce1db502ec7f70521f687b30ef7de0ce90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:43 +0000
Subject: [PATCH 18/37] fix: UnitCell could not be constructed and the bonds of
 2D cells always raised

---
 structrans/crystallography/visualization.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/structrans/crystallography/visualization.py b/structrans/crystallography/visualization.py
index 3c93bc5..62d85cc 100644
--- a/structrans/crystallography/visualization.py
+++ b/structrans/crystallography/visualization.py
@@ -43,7 +43,7 @@ def bonds(verts):
 
         elif len(verts[0])==2:
             idx = [[0,1],[0,2],[1,3],[2,3]]
-            return np.array([[verts[i[0]], verts[i[1]]] for i in len(idx)])
+            return np.array([[verts[i[0]], verts[i[1]]] for i in idx])
         else:
             raise visualError('The number of vertices is not valid.')
     
@@ -93,7 +93,7 @@ def box(v_list, E, n=3):
 #         return np.array(bds)
 #     elif len(verts)==4:
 #         idx = [[0,1],[0,2],[1,3],[2,3]]
-#         return np.array([[verts[i[0]], verts[i[1]]] for i in len(idx)])
+#         return np.array([[verts[i[0]], verts[i[1]]] for i in idx])
 #     else:
 #         raise visualError('The number of vertices is not valid.')
         
@@ -108,7 +108,7 @@ class UnitCell():
         r'''
         Constructed by a Bravais lattice
         '''
-        self._lattice = BravaisLattice(lat_ID, lat_Params, N=3)
+        self._lattice = BravaisLattice(lat_ID, lat_Params, dim=N)
         self._o = np.array(origin)
         self._dim = N
     def setOrigin(self, new_origin):
@@ -130,7 +130,7 @@ class UnitCell():
 
         elif len(verts[0])==2:
             idx = [[0,1],[0,2],[1,3],[2,3]]
-            return np.array([[verts[i[0]], verts[i[1]]] for i in len(idx)])
+            return np.array([[verts[i[0]], verts[i[1]]] for i in idx])
         else:
             raise visualError('The number of vertices is not valid.')
         
@@ -149,7 +149,7 @@ class UnitCell():
         verts = vertex(self._o, self._lattice.getConventionalBase().T, self._dim)
         return self.bonds(verts)
     def getPrimitivebonds(self):
-        verts = vertex(self._o, self._lattice.getBase().T, self._dim)
+        verts = vertex(self._o, self._lattice.getbase().T, self._dim)
         return self.bonds(verts)
     def copyTo(self, new_origin, v_list):
 #         verts = self.getConventional()
-- 
2.43.0


From 823934bf6d684682d4f41f929e72830d47af246a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:43 +0000
Subject: [PATCH 19/37] fix: LLL returned a tuple when it took exactly 100
 iterations

---
 structrans/crystallography/lattice_reduction.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/structrans/crystallography/lattice_reduction.py b/structrans/crystallography/lattice_reduction.py
index 15c85b2..f1962e0 100644
--- a/structrans/crystallography/lattice_reduction.py
+++ b/structrans/crystallography/lattice_reduction.py
@@ -64,9 +64,6 @@ def LLL(E):
             B[:, i + 1] = b
         Niter += 1
 
-    if Niter == 100:
-        return B, False
-
     if not copysign(1, la.det(B)) == copysign(1, la.det(E)):
         B[:, 0] = -B[:, 0]
 
-- 
2.43.0


From 5482abacd4bea470066c683d513d5196889be6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:43 +0000
Subject: [PATCH 20/37] fix: LLL bases were not size-reduced in three and more
 dimensions

---
 structrans/crystallography/lattice_reduction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structrans/crystallography/lattice_reduction.py b/structrans/crystallography/lattice_reduction.py
index f1962e0..05eb84c 100644
--- a/structrans/crystallography/lattice_reduction.py
+++ b/structrans/crystallography/lattice_reduction.py
@@ -22,9 +22,10 @@ def Gauss_reduction(E):
     Eo, M = Gram_Schmidt(E)
     B = E.copy()
     for i in xrange(d):
-        for j in xrange(i):
+        for j in reversed(xrange(i)):
             m = np.round(M[i, j])
             B[:, i] -= m * B[:, j]
+            M[i] -= m * M[j]
     return B
 
 
-- 
2.43.0


From b95109133cd18ae791e62e0944ccc18a29da4703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:43 +0000
Subject: [PATCH 21/37] fix: lat_opt raised for two dimensional lattices

---
 structrans/marttrans/lat_cor/lat_opt.py | 2 +-
 structrans/marttrans/lat_cor/slnode.py  | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/lat_opt.py b/structrans/marttrans/lat_cor/lat_opt.py
index 0f25afb..bb7e13a 100644
--- a/structrans/marttrans/lat_cor/lat_opt.py
+++ b/structrans/marttrans/lat_cor/lat_opt.py
@@ -72,7 +72,7 @@ def lat_opt(E1, E2r, **kwargs):
 
     # get dimension of the problem
     dim = len(E1)
-    SLNode.dim = dim
+    SLNode.set_dim(dim)
 
     # start timer
     t_start = timer()
diff --git a/structrans/marttrans/lat_cor/slnode.py b/structrans/marttrans/lat_cor/slnode.py
index 45bac87..07600b7 100644
--- a/structrans/marttrans/lat_cor/slnode.py
+++ b/structrans/marttrans/lat_cor/slnode.py
@@ -15,6 +15,14 @@ class SLNode:
     _T = np.append(T1, T2, axis=0)
     onetotwo = [(i, j) for i in xrange(3) for j in xrange(3) if i != j]
 
+    @classmethod
+    def set_dim(cls, dim):
+        """use the transvections of GL(dim, Z)"""
+        I = np.eye(dim, dtype="int")
+        cls.dim = dim
+        cls.onetotwo = [(i, j) for i in xrange(dim) for j in xrange(dim) if i != j]
+        cls._T = np.array([I + s * np.outer(I[i], I[j]) for s in (1, -1) for i, j in cls.onetotwo])
+
     def __init__(self, elem, cache, parent=None, grandpa=None):
         """
         constructed by node element
-- 
2.43.0


From a0d478709ec09a710572085c030af84e4399312e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:43 +0000
Subject: [PATCH 22/37] fix: a Lattice changed when the array it was built from
 was modified later

---
 structrans/crystallography/lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index c96d376..bf4c3fd 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -13,8 +13,8 @@ class Lattice():
     def __init__(self, E):
         # check if E is a square matrix
         try:
-            if not isinstance(E, np.ndarray):
-                E = np.array(E)
+            # keep a copy, the cached groups must not outlive the base
+            E = np.array(E)
             if not _is_square_mat(E):
                 raise ValueError('Base is not a square matrix')
             if la.det(E)**2 <= 0.0:
-- 
2.43.0


From 87a1d7a52f9bc263095e75e7ae123cfba5d5459e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:02 +0000
Subject: [PATCH 23/37] fix: vec_generator lost integer vectors on the surface
 of the search ball

---
 structrans/marttrans/lat_cor/main_direct.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/structrans/marttrans/lat_cor/main_direct.py b/structrans/marttrans/lat_cor/main_direct.py
index 856d568..70d368a 100644
--- a/structrans/marttrans/lat_cor/main_direct.py
+++ b/structrans/marttrans/lat_cor/main_direct.py
@@ -17,9 +17,11 @@ def vec_generator(maxlen, dim, x0=None):
     """
     if x0 is None:
         x0 = [0] * dim
+    # the square roots below must not lose the vectors on the surface of the ball
+    bound = maxlen + 1E-9
     if dim == 1:
         n = x0[0]
-        while n <= maxlen:
+        while n <= bound:
             yield [n]
             if n > 0:
                 yield [-n]
@@ -27,7 +29,7 @@ def vec_generator(maxlen, dim, x0=None):
     else:
         firstDigit = x0[0]
         xs = x0[1:]
-        while firstDigit <= maxlen:
+        while firstDigit <= bound:
             g = vec_generator(np.sqrt(max(0, maxlen**2 - firstDigit**2)), dim - 1, xs)
             for subvec in g:
                 v = [firstDigit] * dim
-- 
2.43.0


From 8091d5f5a0e3e08d97d5d791604897302faff5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:29 +0000
Subject: [PATCH 24/37] fix: AM_Solver raised a math domain error for stretches
 with a repeated unit eigenvalue

---
 structrans/marttrans/Compatibility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/marttrans/Compatibility.py b/structrans/marttrans/Compatibility.py
index 6f542e4..21c57ad 100644
--- a/structrans/marttrans/Compatibility.py
+++ b/structrans/marttrans/Compatibility.py
@@ -45,8 +45,8 @@ def AM_Solver(A):
     
     
     c = sqrt(eval[2]-eval[0])
-    c1 = sqrt(1-eval[0])
-    c3 = sqrt(eval[2]-1)
+    c1 = sqrt(abs(1-eval[0]))
+    c3 = sqrt(abs(eval[2]-1))
     
     if c < 1e-6:
         print('solution is b = e, m = - 2 e where |e| = 1.')
-- 
2.43.0


From fef620329aa5d6734f7cf174ac9a0d447db70af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:29 +0000
Subject: [PATCH 25/37] fix: Microstructure.setLaue always raised, and invalid
 input raised a NameError

---
 structrans/marttrans/Compatibility.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/structrans/marttrans/Compatibility.py b/structrans/marttrans/Compatibility.py
index 21c57ad..b797d79 100644
--- a/structrans/marttrans/Compatibility.py
+++ b/structrans/marttrans/Compatibility.py
@@ -104,7 +104,7 @@ class Microstructure():
         elif len(args) == 4:
             self._U = np.array([[args[0], args[1], 0],[args[1], args[2], 0],[0, 0, args[3]]])
         else:
-            raise MartensiteError('You can input a 3x3 U matrix or a vector [a_i] where i = 1, 2, 3, 4 to construct a variant.')
+            raise CompatibilityError('You can input a 3x3 U matrix or a vector [a_i] where i = 1, 2, 3, 4 to construct a variant.')
                                     
             
     def getLaue(self):
@@ -114,7 +114,7 @@ class Microstructure():
         
         if isinstance(arg, int) and 0 < arg <= 14:            
             Lat_init = BravaisLattice(arg, latParam[arg-1])
-            self._Laue = Lat_init.getLaueGroup()
+            self._Laue = Lat_init.getLauegroup()
         else:
-            raise MartensiteError("Please input Bravais lattice ID that is an integer between 1 and 14. ")
+            raise CompatibilityError("Please input Bravais lattice ID that is an integer between 1 and 14. ")
     
-- 
2.43.0


From 7deca715a724c2db867b7719f044c02e22fc873b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:50 +0000
Subject: [PATCH 26/37] fix: volume fractions were reported where 1 is not the
 middle eigenvalue, the twins are not compatible with the reference

---
 structrans/marttrans/twin.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 1a7333d..77c8c73 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -446,19 +446,26 @@ def _solve_f(U, a, n):
     beta = la.det(U.dot(U)-np.eye(3)) + minus_alpha / 4.0
 
     if abs(minus_alpha) < SMALL:
-        return 0
+        # the determinant does not depend on f
+        f = 0 if abs(beta) < 1E-6 else None
     elif beta/minus_alpha > 0:
         f = 0.5 + math.sqrt(beta / minus_alpha)
         if abs(1 - f) < 1E-6:
-            return 1
+            f = 1
         elif abs(f) < 1E-6:
-            return 0
-        elif f > 0 and f < 1:
-            return f
-        else:
-            return None
+            f = 0
+        elif not (f > 0 and f < 1):
+            f = None
     else:
-        return None
+        f = None
+
+    if f is not None:
+        # 1 is an eigenvalue, it has to be the one in the middle
+        F = U + f * np.outer(a, n)
+        C = F.T.dot(F)
+        if np.trace(C) - la.det(C) - 2 < -1E-6:
+            f = None
+    return f
 
 def _solve_am(C):
     """
-- 
2.43.0


From c63d851734360baeb00d306f67af9c034ba1a4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:58 +0000
Subject: [PATCH 27/37] fix: TwinPair.isconventional kept the answer for the
 first group it was asked for, and counted rotations that are not two-fold

---
 structrans/marttrans/twin.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 77c8c73..88696ce 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -192,16 +192,15 @@ class TwinPair():
         lauegroup is a MatrixGroup.
         :return:  if the twin pair is conventionally twinned
         """
-        if self.__conventional is None:
-            if not self.__twinnable:
-                return False
-            twofold = CUBIC_LAUE_GROUP.matrices()[1:10] if len(lauegroup) == 0 else lauegroup[0].matrices()
-            conventional = False
-            for Q in twofold:
-                if np.max(np.abs(Q.dot(self.__Ui).dot(Q.T) - self.__Uj)) < SMALL:
-                    conventional = True
-                    break
-            self.__conventional = conventional
+        if not self.__twinnable:
+            return False
+        group = CUBIC_LAUE_GROUP if len(lauegroup) == 0 else lauegroup[0]
+        twofold = [Q for Q in group.matrices() if abs(np.trace(Q) + 1) < 1E-8]
+        self.__conventional = False
+        for Q in twofold:
+            if np.max(np.abs(Q.dot(self.__Ui).dot(Q.T) - self.__Uj)) < SMALL:
+                self.__conventional = True
+                break
         return self.__conventional
 
     def ax(self):
-- 
2.43.0


From afb57d544a83b0f51bc55b241efffd31c59e3fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:58 +0000
Subject: [PATCH 28/37] fix: the twin system of a transformation took the cubic
 group for the parent's Laue group

---
 structrans/marttrans/twin.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 88696ce..6c49af7 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -15,13 +15,14 @@ class TwinSystem():
         if len(args) == 1:
             if isinstance(args[0], Martensite):
                 self.__Ulist = args[0].getvariants()
+                self.__Laue = args[0].getLaue()
             else:
                 try:
                     self.__Ulist = np.array(args[0])
                 except:
                     raise ValueError("illegal construction parameters")
-            # self.__Laue = CUBIC_LAUE_GROUP.matrices()
-            self.__Laue = CUBIC_LAUE_GROUP
+                # self.__Laue = CUBIC_LAUE_GROUP.matrices()
+                self.__Laue = CUBIC_LAUE_GROUP
         elif len(args) >= 2:
             try:
                 self.__Ulist = np.array(args[0])
-- 
2.43.0


From d668356d6441e0d71086a34aa29f7573f5b91f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:58 +0000
Subject: [PATCH 29/37] fix: twins of transformations with a hexagonal parent
 had no twin parameters

---
 structrans/marttrans/twin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 6c49af7..b178545 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -404,7 +404,7 @@ def _solvetwin(U, Uj, e):
         Uinv = la.inv(U)
         R180 = -np.eye(3) + 2*np.outer(ehat, ehat)
         uj = np.dot(R180.dot(U), R180.T)
-        if _isvariant(U, uj):
+        if la.norm((uj - Uj).reshape(9)) < 1E-8:
             n1 = e
             denominator = np.dot(np.dot(Uinv, e), np.dot(Uinv, e))
             a1 = 2 * (Uinv.dot(e)/denominator - U.dot(e))
-- 
2.43.0


From 71b5019b1b67167b873b22bcd489687909722da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:28 +0000
Subject: [PATCH 30/37] fix: the search tree of lattice invariant shears never
 reached many products of shears

---
 structrans/marttrans/lat_cor/slnode.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/structrans/marttrans/lat_cor/slnode.py b/structrans/marttrans/lat_cor/slnode.py
index 07600b7..639dfe4 100644
--- a/structrans/marttrans/lat_cor/slnode.py
+++ b/structrans/marttrans/lat_cor/slnode.py
@@ -66,7 +66,7 @@ class SLNode:
     @classmethod
     def gobacktoparent(cls, child, parent):
         N = SLNode.dim * (SLNode.dim - 1)
-        return False if parent is None else child == (parent + N) % N
+        return False if parent is None else child == (parent + N) % (2 * N)
 
     @classmethod
     def gobacktouncle(cls, child, parent, grandpa):
@@ -80,12 +80,14 @@ class SLNode:
             ic, kc = SLNode.onetotwo[child % N]
             jp, kp = SLNode.onetotwo[parent % N]
             ig, jg = SLNode.onetotwo[grandpa % N]
-            return ic == ig and jg == jp and kp == kc
+            # only for the sign of the commutator
+            inverse = (child >= N) != ((parent >= N) != (grandpa >= N))
+            return inverse and ic == ig and jg == jp and kp == kc
 
     @classmethod
     def gobacktosibling(cls, child, parent):
         """
-        [Tij Tkl] = 1 =>
+        [Tij Tkl] = 1 => Tij Tkl = Tkl Tij if they commute
         """
         if parent is None:
             return False
@@ -93,7 +95,7 @@ class SLNode:
             N = SLNode.dim * (SLNode.dim - 1)
             i, j = SLNode.onetotwo[child % N]
             k, l = SLNode.onetotwo[parent % N]
-            return (i, j) > (k, l)
+            return i != l and j != k and (i, j) > (k, l)
 
     def calc_neighbor_dist(self):
         """distance values of neighbors"""
-- 
2.43.0


From 29e906508f8b92b1d874d49e2fc7ae09688784fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:19 +0000
Subject: [PATCH 31/37] fix: lat_cor_hnf searched equivalent sublattices when
 it rounded the volume ratio

---
 structrans/marttrans/lat_cor/main_hnf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/main_hnf.py b/structrans/marttrans/lat_cor/main_hnf.py
index 68d7eb0..f3cbf7b 100644
--- a/structrans/marttrans/lat_cor/main_hnf.py
+++ b/structrans/marttrans/lat_cor/main_hnf.py
@@ -135,7 +135,7 @@ def lat_cor(ibrava, pbrava, ibravm, pbravm, **kwargs):
         math.floor((1+vol_th)*r)+1,   # upper bound
         dtype='int')
     if len(vf) == 0:
-        vf = (np.round(r),)     
+        vf = (int(np.round(r)),)     
 
     hnfs = [h for i in vf for h in HermiteNormalForms(i, dim)]
 
-- 
2.43.0


From bb927e7f3e2833e2223c3c66fd7fcf865f7868e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:03 +0000
Subject: [PATCH 32/37] fix: a BravaisLattice changed with the arrays it was
 given and returned

---
 structrans/crystallography/bravais_lattice.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/structrans/crystallography/bravais_lattice.py b/structrans/crystallography/bravais_lattice.py
index 18db907..fff15ca 100644
--- a/structrans/crystallography/bravais_lattice.py
+++ b/structrans/crystallography/bravais_lattice.py
@@ -16,11 +16,11 @@ class BravaisLattice(Lattice):
         Constructor
         '''
         try:
-            if not isinstance(latParam, np.ndarray):
-                if isinstance(latParam, list):
-                    latParam = np.array(latParam)
-                else:
-                    latParam = np.array([latParam])
+            if isinstance(latParam, (np.ndarray, list)):
+                # keep a copy
+                latParam = np.array(latParam)
+            else:
+                latParam = np.array([latParam])
             if len(latParam.shape) > 1:
                 raise ValueError('lattice parameters is not a 1D list nor single value')
             elif any(latParam <= 0):
@@ -295,7 +295,7 @@ class BravaisLattice(Lattice):
         '''
         get the lattice parameters
         '''
-        return self.__latParam
+        return self.__latParam.copy()
 
     def getLatParam(self):
         warn("getLatParam() is deprecated, please use lat_param() instead.", DeprecationWarning)
@@ -308,7 +308,7 @@ class BravaisLattice(Lattice):
         - conv_base = prim_base * **cnvr_mat**
         - prim_idx = **cnvr_mat** * conv_idx
         '''
-        return self.__C
+        return self.__C.copy()
 
     def getConventionalTrans(self):
         warn("getConventionalTrans() is deprecated, please use conventional_trans() instead.", DeprecationWarning)
-- 
2.43.0


From 577dec93062e11c7cd0a42a0fc8dc38adacf5bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:03 +0000
Subject: [PATCH 33/37] fix: a MatrixGroup changed with the list it was built
 from

---
 structrans/crystallography/matrix_group.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structrans/crystallography/matrix_group.py b/structrans/crystallography/matrix_group.py
index 64e0d4b..340a9e8 100644
--- a/structrans/crystallography/matrix_group.py
+++ b/structrans/crystallography/matrix_group.py
@@ -74,7 +74,8 @@ class MatrixGroup():
         # self.__mtable = self.isgroup(matrices)
         # if self.__mtable is False:
         #     raise ValueError("input does not form a group")
-        self.__mats = matrices
+        # keep a copy
+        self.__mats = [np.array(m) for m in matrices]
 
 
     def matrices(self):
-- 
2.43.0


From ec4284f250aaf5c9447c4a426ad33e9174b178ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:03 +0000
Subject: [PATCH 34/37] fix: changing an array returned by a Martensite changed
 its variants

---
 structrans/marttrans/martensite.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/structrans/marttrans/martensite.py b/structrans/marttrans/martensite.py
index f2c845b..8747334 100644
--- a/structrans/marttrans/martensite.py
+++ b/structrans/marttrans/martensite.py
@@ -1,3 +1,5 @@
+import copy
+
 from ..general_imports import *
 from ..crystallography import CUBIC_LAUE_GROUP, MatrixGroup, BravaisLattice, Lattice
 
@@ -15,7 +17,8 @@ class Martensite():
     """
     
     def __init__(self, *args):
-        self.__U = args[0] if len(args) > 0 else None
+        # keep a copy
+        self.__U = np.array(args[0]) if len(args) > 0 and args[0] is not None else None
         self.__Laue = args[1] if len(args) > 1 else CUBIC_LAUE_GROUP
         self.__Ulist = None
         self.__Laueidx = None
@@ -102,7 +105,7 @@ class Martensite():
         """
         if self.__Ulist is None:
             self.calcvariants()
-        return self.__Ulist
+        return self.__Ulist.copy()
 
     def getvariant(self, n):
         """
@@ -113,7 +116,7 @@ class Martensite():
         """
         if self.__Ulist is None:
             self.calcvariants()
-        return self.__Ulist[n - 1]
+        return self.__Ulist[n - 1].copy()
 
     def isreversible(self):
         """
@@ -135,7 +138,7 @@ class Martensite():
     def getLaueidx(self):
         if self.__Laueidx is None:
             self.calcvariants()
-        return self.__Laueidx
+        return copy.deepcopy(self.__Laueidx)
 
     def calcvariants(self):
         """
-- 
2.43.0


From 0e0f3d93240e5b21f49487a1294b3489816e183a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:03 +0000
Subject: [PATCH 35/37] fix: a TwinPair changed with the arrays it was given
 and returned

---
 structrans/marttrans/twin.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index b178545..7fed429 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -1,4 +1,5 @@
 from ..general_imports import *
+import copy
 import math
 
 from .. import util
@@ -87,7 +88,7 @@ class TwinSystem():
         """
         if self.__twinpairs is None:
             self.TwinTable()
-        return self.__twinpairs
+        return list(self.__twinpairs)
 
     def getConventional(self):
         """
@@ -143,6 +144,9 @@ class TwinPair():
         if not skipcheck and (not util.utils.pos_def_sym(Ui) or not util.utils.pos_def_sym(Uj)):
             raise ValueError("Ui or Uj is not a 3 x 3 positive definite symmetric matrix")
 
+        # keep copies, the twin parameters are calculated later
+        Ui = np.array(Ui)
+        Uj = np.array(Uj)
         self.__Ui = Ui
         self.__Uj = Uj
 
@@ -228,7 +232,7 @@ class TwinPair():
                     e = del1 * self.__Ui.dot(self.__v[0]) + del3 * self.__Ui.dot(self.__v[2])
                     ehat.append(e/la.norm(e))
             self.__ax = ehat
-        return self.__ax
+        return copy.deepcopy(self.__ax)
 
 
     def iscompound(self):
@@ -306,7 +310,7 @@ class TwinPair():
             else:
                 self.__twinparam = _solvetwin(self.__Ui, self.__Uj, None)
 
-        return self.__twinparam
+        return copy.deepcopy(self.__twinparam)
 
     def iscompatible(self, twintype="C"):
         """
-- 
2.43.0


From 30a7beba3c99426da5d20e56f7e46e0977db3a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:28 +0000
Subject: [PATCH 36/37] fix: the description of a triclinic lattice gave the
 length b as the angle alpha

---
 structrans/crystallography/bravais_lattice.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/structrans/crystallography/bravais_lattice.py b/structrans/crystallography/bravais_lattice.py
index fff15ca..922185c 100644
--- a/structrans/crystallography/bravais_lattice.py
+++ b/structrans/crystallography/bravais_lattice.py
@@ -253,8 +253,10 @@ class BravaisLattice(Lattice):
             if self.__latID in range(8, 15):
                 des_str = des_str+',    c = {:g}'.format(self.__latParam[2])
             # print alpha if it exists
-            if self.__latID in [5, 14]:
+            if self.__latID == 5:
                 des_str = des_str+u',    alpha = {:g}'.format(self.__latParam[1])
+            if self.__latID == 14:
+                des_str = des_str+u',    alpha = {:g}'.format(self.__latParam[3])
             # print beta if it exists
             if self.__latID in np.array([12., 13.]):
                 des_str = des_str+u',    beta = {:g}'.format(self.__latParam[3])
-- 
2.43.0


From 3876252724572129af6f9a3f25f6edbf23ecb050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:34 +0000
Subject: [PATCH 37/37] fix: pole figures along [0, 0, -1] were mirrored

---
 structrans/crystallography/stereogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/crystallography/stereogram.py b/structrans/crystallography/stereogram.py
index f31e319..e4b4925 100644
--- a/structrans/crystallography/stereogram.py
+++ b/structrans/crystallography/stereogram.py
@@ -20,7 +20,7 @@ def stereo_proj(p, z):
         z_2 = z_2/norm(z_2)
     else:
         z_1 = np.array([1,0,0])
-        z_2 = np.array([0,1,0])
+        z_2 = np.cross(zhat, z_1)
         
     
     if norm(p)>1e-6:
-- 
2.43.0

