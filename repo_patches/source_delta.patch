From fe689677a30ea039267328863610df469cc8660b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:08 +0000
Subject: [PATCH 01/12] fix: let Dstring.excite act as a number operator for i
 == a

The branch for i == a came after the test that orbital a is empty, so it
could never be reached and exciting an occupied orbital into itself gave
(None, None).
---
 cqcpy/ci_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index e0b233a..59f7a5e 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -10,12 +10,12 @@ class Dstring(object):
     def excite(self, i, a):
         if self.occ[i] != 1:
             return (None, None)
+        if i == a:
+            return (1.0, Dstring(self.n, self.occ))
         if self.occ[a] != 0:
             return (None, None)
 
-        if i == a:
-            return (1.0, Dstring(self.n, self.occ))
-        elif i < a:
+        if i < a:
             occnew = self.occ.copy()
             occnew[i] = 0
             occnew[a] = 1
-- 
2.43.0


From 40a53a77f2de32f5d3c5e03f1b1b35ee333485cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:08 +0000
Subject: [PATCH 02/12] fix: loop over occupied orbital indices in q_strings

The two outer loops ran over the occupation numbers instead of the indices
of the occupied orbitals. The list of quadruple excitations had duplicates
and missing strings, or the function failed.
---
 cqcpy/ci_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index 59f7a5e..26722b3 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -140,9 +140,9 @@ def q_strings(n, nocc, occ=None):
     ivir = [i for i, x in enumerate(vir) if x > 0]
     ref = Dstring(n, occ)
     dlist = []
-    for i in occ:
+    for i in iocc:
         for a in ivir:
-            for j in occ:
+            for j in iocc:
                 if j <= i:
                     continue
                 for b in ivir:
-- 
2.43.0


From 21c3a00f900e209bd8fcdd587fa9e2bb8ee35a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:08 +0000
Subject: [PATCH 03/12] fix: use the reference of the basis as default
 occupation in gmakeCfromT

The default occupation covered only half of the spin orbitals, so every call
without an explicit occupation failed.
---
 cqcpy/ci_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index 26722b3..7ea4814 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -431,7 +431,7 @@ def gmakeCfromT(no, nv, T1, T2, order=2, occ=None):
         raise Exception("Higher than 4th order is not supported")
 
     if occ is None:
-        occ = [1 if i < no else 0 for i in range(nmo//2)]
+        occ = basis[0].occ
     vir = [1 if x == 0 else 0 for x in occ]
     iocc = [i for i, x in enumerate(occ) if x > 0]
     ivir = [i for i, x in enumerate(vir) if x > 0]
-- 
2.43.0


From 7d65bccb8ad77a2e8655af3f898cea98c16b1cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:08 +0000
Subject: [PATCH 04/12] fix: add the constant to diagonal elements in
 gci_matrixel

The constant was accepted but ignored, unlike in ci_matrixel.
---
 cqcpy/ci_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index 7ea4814..d9224f5 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -1279,7 +1279,7 @@ def gci_matrixel(bra, ket, h, I, const):
         Hel = numpy.einsum('ii,i->', h, p)
         Hel += 0.5*numpy.einsum('ijij,i,j->', I, p, p)
         Hel -= 0.5*numpy.einsum('ijji,i,j->', I, p, p)
-        return Hel
+        return Hel + const
     elif ddd == 1:
         o = numpy.nonzero(ao)[0][0]
         v = numpy.nonzero(av)[0][0]
-- 
2.43.0


From adf8caadc3f92f8c44e1bb7b4af341abc0de8860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:08 +0000
Subject: [PATCH 05/12] fix: sign of double excitations in gci_matrixel

When both holes lie below (or above) both particles the excitation paths
overlap and the parity changes. ci_matrixel already accounts for this.
---
 cqcpy/ci_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index d9224f5..10f0461 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -1303,9 +1303,10 @@ def gci_matrixel(bra, ket, h, I, const):
         j1, j2 = min(o2, v2), max(o2, v2)
         sign1 = 1.0 if b[i1 + 1:i2].sum() % 2 == 0 else -1.0
         sign2 = 1.0 if b[j1 + 1:j2].sum() % 2 == 0 else -1.0
+        sign = -sign1*sign2 if (v2 < o1 or o2 < v1) else sign1*sign2
         # from Ha
         Hel = I[v1, v2, o1, o2] - I[v1, v2, o2, o1]
-        return sign1*sign2*Hel
+        return sign*Hel
     else:
         return 0.0
 
-- 
2.43.0


From aa923aa7582948d5c8121c533320781a25e2b15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:08 +0000
Subject: [PATCH 06/12] fix: keep imaginary parts when applying operators to CI
 vectors

The result was allocated as a real array, so imaginary parts of the vector
or the integrals were dropped.
---
 cqcpy/ci_utils.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index 10f0461..cf6daee 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -1427,7 +1427,7 @@ def ci_matrixel(braa, brab, keta, ketb, ha, hb, Ia, Ib, Iabab, const):
 
 
 def s_on_vec(basis, vec, i, a):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(vec.shape, dtype=numpy.result_type(vec, float))
     for ix, x in enumerate(vec):
         dd = basis[ix]
         s, new = dd.excite(i, a)
@@ -1442,7 +1442,7 @@ def s_on_vec(basis, vec, i, a):
 
 
 def sa_on_vec(basis, vec, i, a):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(vec.shape, dtype=numpy.result_type(vec, float))
     for ix, x in enumerate(vec):
         ab, bb = basis[ix]
         sa, anew = ab.excite(i, a)
@@ -1457,7 +1457,7 @@ def sa_on_vec(basis, vec, i, a):
 
 
 def sb_on_vec(basis, vec, i, a):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(vec.shape, dtype=numpy.result_type(vec, float))
     for ix, x in enumerate(vec):
         ab, bb = basis[ix]
         sb, bnew = bb.excite(i, a)
@@ -1472,7 +1472,7 @@ def sb_on_vec(basis, vec, i, a):
 
 
 def d_on_vec(basis, vec, i, j, a, b):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(vec.shape, dtype=numpy.result_type(vec, float))
     for ix, x in enumerate(vec):
         dd = basis[ix]
         s1, temp = dd.excite(i, a)
@@ -1490,7 +1490,7 @@ def d_on_vec(basis, vec, i, j, a, b):
 
 
 def da_on_vec(basis, vec, i, j, a, b):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(vec.shape, dtype=numpy.result_type(vec, float))
     for ix, x in enumerate(vec):
         ab, bb = basis[ix]
         s1, atemp = ab.excite(i, a)
@@ -1508,7 +1508,7 @@ def da_on_vec(basis, vec, i, j, a, b):
 
 
 def db_on_vec(basis, vec, i, j, a, b):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(vec.shape, dtype=numpy.result_type(vec, float))
     for ix, x in enumerate(vec):
         ab, bb = basis[ix]
         s1, btemp = bb.excite(i, a)
@@ -1526,7 +1526,7 @@ def db_on_vec(basis, vec, i, j, a, b):
 
 
 def sasb_on_vec(basis, vec, i, j, a, b):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(vec.shape, dtype=numpy.result_type(vec, float))
     for ix, x in enumerate(vec):
         ab, bb = basis[ix]
         sa, anew = ab.excite(i, a)
@@ -1544,7 +1544,8 @@ def sasb_on_vec(basis, vec, i, j, a, b):
 
 
 def H_on_vec(basis, vec, ha, hb, Ia, Ib, Iabab):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(
+        vec.shape, dtype=numpy.result_type(vec, ha, hb, Ia, Ib, Iabab, float))
     for i, b in enumerate(basis):
         for j, k in enumerate(basis):
             out[i] += vec[j]*ci_matrixel(
@@ -1553,7 +1554,7 @@ def H_on_vec(basis, vec, ha, hb, Ia, Ib, Iabab):
 
 
 def gH_on_vec(basis, vec, h, I,):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(vec.shape, dtype=numpy.result_type(vec, h, I, float))
     for i, b in enumerate(basis):
         for j, k in enumerate(basis):
             out[i] += vec[j]*gci_matrixel(b, k, h, I, 0.0)
-- 
2.43.0


From 3011c4e8db127ca45611637989f06a3bac21026e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:08 +0000
Subject: [PATCH 07/12] fix: keep imaginary parts in CI coefficients made from
 amplitudes

The coefficients were allocated as a real array, so imaginary parts of the
amplitudes were dropped.
---
 cqcpy/ci_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index cf6daee..1f6b99a 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -438,7 +438,7 @@ def gmakeCfromT(no, nv, T1, T2, order=2, occ=None):
     ref = Dstring(nmo, occ)
 
     nd = len(basis)
-    C = numpy.zeros(nd)
+    C = numpy.zeros(nd, dtype=numpy.result_type(T1, T2, float))
     C[0] = 1.0
     # loop over T1
     for ii, i in enumerate(iocc):
@@ -619,7 +619,8 @@ def makeCfromT(noa, nva, nob, nvb, T1a, T1b, T2aa, T2ab, T2bb, order=2):
     refa = Dstring(na, occa)
     refb = Dstring(nb, occb)
     nd = len(basis)
-    C = numpy.zeros(nd)
+    C = numpy.zeros(
+        nd, dtype=numpy.result_type(T1a, T1b, T2aa, T2ab, T2bb, float))
     C[0] = 1.0
 
     # loop over T1a
-- 
2.43.0


From d73067caddcabd2eb405ae8d3d91e890ca749262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:51 +0000
Subject: [PATCH 08/12] fix: add the missing T1b^2*T2aa contribution to
 makeCfromT

The quadruples with two alpha and two beta excitations had the
T1a^2*T2bb product but not its spin-flipped partner.
---
 cqcpy/ci_utils.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index 1f6b99a..d648d35 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -1118,6 +1118,26 @@ def makeCfromT(noa, nva, nob, nvb, T1a, T1b, T2aa, T2ab, T2bb, order=2):
                                         if bstr is not None and astr is not None:
                                             idx = basis.index((astr, bstr))
                                             C[idx] += sa*s1*s2*s3*T1a[a, i]*T1b[b, j]*T2bb[c, d, k, l]
+        # loop over T1b^2*T2aa
+        for i in range(nob):
+            for j in range(nob):
+                for k in range(noa):
+                    for l in range(k+1, noa):
+                        for a in range(nvb):
+                            for b in range(nvb):
+                                for c in range(nva):
+                                    for d in range(c+1, nva):
+                                        sa1, astr = refa.excite(k, c + noa)
+                                        if astr is None:
+                                            continue
+                                        sa2, astr = astr.excite(l, d + noa)
+                                        sb1, bstr = refb.excite(i, a + nob)
+                                        if bstr is None:
+                                            continue
+                                        sb2, bstr = bstr.excite(j, b + nob)
+                                        if bstr is not None and astr is not None:
+                                            idx = basis.index((astr, bstr))
+                                            C[idx] += sa1*sa2*sb1*sb2*T1b[a, i]*T1b[b, j]*T2aa[c, d, k, l]/2.0
         # loop over T1b^2*T2ab
         for i in range(nob):
             for j in range(nob):
-- 
2.43.0


From 6efc81b6387a4b66b8a8b0b52fe9f2682e7b75ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:36 +0000
Subject: [PATCH 09/12] fix: keep imaginary parts when converting to spin
 orbitals

The spin-orbital arrays were always allocated as real, so complex Fock
matrices, amplitudes and integrals lost their imaginary parts.
---
 cqcpy/spin_utils.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/cqcpy/spin_utils.py b/cqcpy/spin_utils.py
index 1fe7504..6e66977 100644
--- a/cqcpy/spin_utils.py
+++ b/cqcpy/spin_utils.py
@@ -7,19 +7,23 @@ from cqcpy.ov_blocks import two_e_blocks_full
 def F_to_spin(Faa, Fbb, noa, nva, nob, nvb):
     no = noa + nob
     nv = nva + nvb
-    Foo = numpy.zeros((no, no))
+    Foo = numpy.zeros(
+        (no, no), dtype=numpy.result_type(float, Faa.oo, Fbb.oo))
     Foo[:noa, :noa] = Faa.oo
     Foo[noa:, noa:] = Fbb.oo
 
-    Fov = numpy.zeros((no, nv))
+    Fov = numpy.zeros(
+        (no, nv), dtype=numpy.result_type(float, Faa.ov, Fbb.ov))
     Fov[:noa, :nva] = Faa.ov
     Fov[noa:, nva:] = Fbb.ov
 
-    Fvo = numpy.zeros((nv, no))
+    Fvo = numpy.zeros(
+        (nv, no), dtype=numpy.result_type(float, Faa.vo, Fbb.vo))
     Fvo[:nva, :noa] = Faa.vo
     Fvo[nva:, noa:] = Fbb.vo
 
-    Fvv = numpy.zeros((nv, nv))
+    Fvv = numpy.zeros(
+        (nv, nv), dtype=numpy.result_type(float, Faa.vv, Fbb.vv))
     Fvv[:nva, :nva] = Faa.vv
     Fvv[nva:, nva:] = Fbb.vv
 
@@ -48,7 +52,7 @@ def F_to_spatial(F, noa, nva, nob, nvb):
 def T1_to_spin(Ta, Tb, noa, nva, nob, nvb):
     no = noa + nob
     nv = nva + nvb
-    T = numpy.zeros((nv, no))
+    T = numpy.zeros((nv, no), dtype=numpy.result_type(float, Ta, Tb))
     T[:nva, :noa] = Ta.copy()
     T[nva:, noa:] = Tb.copy()
     return T
@@ -87,7 +91,8 @@ def T1_to_spatial(T, noa, nva, nob, nvb):
 def T2_to_spin(Taa, Tab, Tbb, noa, nva, nob, nvb):
     no = noa + nob
     nv = nva + nvb
-    T = numpy.zeros((nv, nv, no, no))
+    T = numpy.zeros(
+        (nv, nv, no, no), dtype=numpy.result_type(float, Taa, Tab, Tbb))
     T[:nva, :nva, :noa, :noa] = Taa.copy()  # aaaa
     T[nva:, nva:, noa:, noa:] = Tbb.copy()  # bbbb
     T[:nva, nva:, :noa, noa:] = Tab.copy()  # abab
@@ -100,7 +105,8 @@ def T2_to_spin(Taa, Tab, Tbb, noa, nva, nob, nvb):
 def D2_to_spin(Daa, Dab, Dbb, noa, nva, nob, nvb):
     no = noa + nob
     nv = nva + nvb
-    D = numpy.zeros((nv, nv, no, no))
+    D = numpy.zeros(
+        (nv, nv, no, no), dtype=numpy.result_type(float, Daa, Dab, Dbb))
     D[:nva, :nva, :noa, :noa] = Daa.copy()  # aaaa
     D[nva:, nva:, noa:, noa:] = Dbb.copy()  # bbbb
     D[:nva, nva:, :noa, noa:] = Dab.copy()  # abab
@@ -123,7 +129,8 @@ def int_to_spin_block(aaaa, bbbb, abab, baba, abba, baab,
     n2 = na2 + nb2
     n3 = na3 + nb3
     n4 = na4 + nb4
-    I = numpy.zeros((n1, n2, n3, n4))
+    I = numpy.zeros((n1, n2, n3, n4), dtype=numpy.result_type(
+        float, aaaa, bbbb, abab, baba, abba, baab))
     I[:na1, :na2, :na3, :na4] = aaaa  # aaaa
     I[na1:, na2:, na3:, na4:] = bbbb  # bbbb
     I[:na1, na2:, :na3, na4:] = abab  # abab
-- 
2.43.0


From b55009393b3344f88d41b331856dcac5ac240cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:39:48 +0000
Subject: [PATCH 10/12] fix: pass the second set of orbitals on in
 get_chem_anti

The first set was passed twice and the second one ignored.
---
 cqcpy/integrals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cqcpy/integrals.py b/cqcpy/integrals.py
index c115f61..c2b7918 100644
--- a/cqcpy/integrals.py
+++ b/cqcpy/integrals.py
@@ -22,7 +22,7 @@ def get_chem(mol, o1, o2, o3, o4, anti=False):
 def get_chem_anti(mol, o1, o2, o3, o4):
     """Get antisymmetrized ERIs in chemist's notation for given
     orbital Coeffs."""
-    return get_chem(mol, o1, o1, o3, o4, anti=True)
+    return get_chem(mol, o1, o2, o3, o4, anti=True)
 
 
 def get_phys(mol, o1, o2, o3, o4, anti=False):
-- 
2.43.0


From a06b527a5f8263860134b862a4d47ea35400c3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:39:48 +0000
Subject: [PATCH 11/12] fix: keep imaginary parts of unrestricted periodic
 integrals

The arrays had the type of one of the orbital coefficient matrices. With
real coefficients there, imaginary parts due to the k-point or to the
other coefficients were dropped.
---
 cqcpy/integrals.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cqcpy/integrals.py b/cqcpy/integrals.py
index c2b7918..bcdb3e3 100644
--- a/cqcpy/integrals.py
+++ b/cqcpy/integrals.py
@@ -249,7 +249,7 @@ def get_chemu_sol(mf, o1, o2, o3, o4, p1, p2, p3, p4, anti=False):
     n2 = a2 + b2
     n3 = a3 + b3
     n4 = a4 + b4
-    dtype = o1.dtype
+    dtype = numpy.result_type(Ia, Ib)
     I = numpy.zeros((n1, n2, n3, n4), dtype=dtype)
     I[:a1, :a2, :a3, :a4] = Ia
     I[a1:, a2:, a3:, a4:] = Ib
@@ -288,7 +288,8 @@ def get_chemu_all_sol(mf, oa, ob, anti=False):
         (ob, ob, ob, ob), mf.kpt, compact=False).reshape(nb, nb, nb, nb)
     Iab = mf.with_df.ao2mo(
         (oa, oa, ob, ob), mf.kpt, compact=False).reshape(na, na, nb, nb)
-    Id = numpy.zeros((n, n, n, n), dtype=oa.dtype)
+    dtype = numpy.result_type(Ia, Ib)
+    Id = numpy.zeros((n, n, n, n), dtype=dtype)
     Id[:na, :na, :na, :na] = Ia
     Id[na:, na:, na:, na:] = Ib
     Id[:na, :na, na:, na:] = Iab
-- 
2.43.0


From d0e3ad767cc7bc9e88d3e83322cbb25ed05c37c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:15 +0000
Subject: [PATCH 12/12] fix: return empty periodic integrals for empty sets of
 orbitals

The density-fitting objects cannot transform to zero orbitals, so a spin
without occupied or without virtual orbitals made the periodic integral
functions and eri_blocks raise. The molecular ones return empty blocks.
---
 cqcpy/integrals.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/cqcpy/integrals.py b/cqcpy/integrals.py
index bcdb3e3..8e99527 100644
--- a/cqcpy/integrals.py
+++ b/cqcpy/integrals.py
@@ -138,6 +138,10 @@ def get_chem_sol(mf, o1, o2, o3, o4, anti=False):
     n2 = o2.shape[1]
     n3 = o3.shape[1]
     n4 = o4.shape[1]
+    if 0 in (n1, n2, n3, n4):
+        dtype = numpy.result_type(
+            o1, o2, o3, o4, complex if numpy.any(mf.kpt) else float)
+        return numpy.zeros((n1, n2, n3, n4), dtype=dtype)
     Id = mf.with_df.ao2mo(
         (o1, o2, o3, o4), mf.kpt, compact=False).reshape(n1, n2, n3, n4)
     if anti:
@@ -164,7 +168,7 @@ def get_chem_solk(kmf, kpt, o1, o2, o3, o4, anti=False):
     n2 = o2.shape[1]
     n3 = o3.shape[1]
     n4 = o4.shape[1]
-    if k4 != k4test:
+    if k4 != k4test or 0 in (n1, n2, n3, n4):
         return numpy.zeros((n1, n2, n3, n4), dtype=complex)
     Id = kmf.with_df.ao2mo(
         (o1, o2, o3, o4),
@@ -282,12 +286,9 @@ def get_chemu_all_sol(mf, oa, ob, anti=False):
     na = oa.shape[1]
     nb = ob.shape[1]
     n = na + nb
-    Ia = mf.with_df.ao2mo(
-        (oa, oa, oa, oa), mf.kpt, compact=False).reshape(na, na, na, na)
-    Ib = mf.with_df.ao2mo(
-        (ob, ob, ob, ob), mf.kpt, compact=False).reshape(nb, nb, nb, nb)
-    Iab = mf.with_df.ao2mo(
-        (oa, oa, ob, ob), mf.kpt, compact=False).reshape(na, na, nb, nb)
+    Ia = get_chem_sol(mf, oa, oa, oa, oa)
+    Ib = get_chem_sol(mf, ob, ob, ob, ob)
+    Iab = get_chem_sol(mf, oa, oa, ob, ob)
     dtype = numpy.result_type(Ia, Ib)
     Id = numpy.zeros((n, n, n, n), dtype=dtype)
     Id[:na, :na, :na, :na] = Ia
-- 
2.43.0

