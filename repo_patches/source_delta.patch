From dee8b203c35c04faf692319375190380eb3b8681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:50 +0000
Subject: [PATCH 01/47] fix: chebyshev ShenBiPolar basis function 0 does not
 satisfy its boundary conditions

---
 shenfun/chebyshev/bases.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shenfun/chebyshev/bases.py b/shenfun/chebyshev/bases.py
index 43dfdb4..f4863e0 100644
--- a/shenfun/chebyshev/bases.py
+++ b/shenfun/chebyshev/bases.py
@@ -1950,12 +1950,13 @@ class ShenBiPolar(CompositeBase):
         N = self.N if N is None else N
         k = np.arange(N)
         d = (k + 1) * 3 / 8
-        d[0] = 0.5
+        d[0] = 3 / 8
         d[1] = 0.5
         d[-4:] = 0
         dm2 = -(k[2:] + 1) / 8
         dm2[-4:] = 0
         dp2 = -(k[:-2] + 1) * 3 / 8
+        dp2[0] = -0.5
         dp2[-2:] = 0
         dp4 = (k[:-4] + 1) / 8
         return SparseMatrix({-2: dm2, 0: d, 2: dp2, 4: dp4}, (N, N))
-- 
2.43.0


From b1b58031de251ec9cdafcdf8ef477424a97986d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:50 +0000
Subject: [PATCH 02/47] fix: W and N5 boundary conditions missing from tables
 used for boundary lifting

---
 shenfun/spectralbase.py        | 2 +-
 shenfun/utilities/findbasis.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/shenfun/spectralbase.py b/shenfun/spectralbase.py
index c83fd36..2fa61fa 100644
--- a/shenfun/spectralbase.py
+++ b/shenfun/spectralbase.py
@@ -2018,7 +2018,7 @@ class BoundaryConditions(dict):
         return len(self.orderedvals())
 
     def num_derivatives(self):
-        n = {'D': 0, 'R': 0, 'N': 1, 'N2': 2, 'N3': 3, 'N4': 4}
+        n = {'D': 0, 'R': 0, 'N': 1, 'W': 1, 'N2': 2, 'N3': 3, 'N4': 4, 'N5': 5}
         num_diff = 0
         for val in self.values():
             for k in val:
diff --git a/shenfun/utilities/findbasis.py b/shenfun/utilities/findbasis.py
index db90923..455dd78 100644
--- a/shenfun/utilities/findbasis.py
+++ b/shenfun/utilities/findbasis.py
@@ -39,7 +39,7 @@ def get_stencil_matrix(bcs, family, alpha=None, beta=None, gn=1):
     base = importlib.import_module('.'.join(('shenfun', family.lower())))
     bnd_values = functools.partial(base.Orthogonal.bnd_values, alpha=alpha, beta=beta, gn=gn)
     bcs = BoundaryConditions(bcs)
-    bc = {'D': 0, 'N': 1, 'N2': 2, 'N3': 3, 'N4': 4}
+    bc = {'D': 0, 'N': 1, 'N2': 2, 'N3': 3, 'N4': 4, 'N5': 5}
     lr = {'L': 0, 'R': 1}
     lra = {'L': 'left', 'R': 'right'}
     s = []
@@ -95,7 +95,7 @@ def get_bc_basis(bcs, family, alpha=None, beta=None, gn=1):
     bnd_values = functools.partial(base.Orthogonal.bnd_values, alpha=alpha, beta=beta, gn=gn)
     bcs = BoundaryConditions(bcs)
     def _computematrix(first):
-        bc = {'D': 0, 'N': 1, 'N2': 2, 'N3': 3, 'N4': 4}
+        bc = {'D': 0, 'N': 1, 'N2': 2, 'N3': 3, 'N4': 4, 'N5': 5}
         lr = {'L': 0, 'R': 1}
         lra = {'L': 'left', 'R': 'right'}
         s = []
-- 
2.43.0


From 273a23353bf2d164d592201e71f93517cf821f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:17 +0000
Subject: [PATCH 03/47] fix: scale N4, N5, Robin and W boundary conditions with
 the domain in every family

---
 shenfun/chebyshev/bases.py      | 2 +-
 shenfun/chebyshevu/bases.py     | 5 +++--
 shenfun/jacobi/bases.py         | 2 +-
 shenfun/laguerre/bases.py       | 2 +-
 shenfun/spectralbase.py         | 8 ++++++++
 shenfun/ultraspherical/bases.py | 2 +-
 6 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/shenfun/chebyshev/bases.py b/shenfun/chebyshev/bases.py
index f4863e0..f783182 100644
--- a/shenfun/chebyshev/bases.py
+++ b/shenfun/chebyshev/bases.py
@@ -2593,9 +2593,9 @@ class Generic(CompositeBase):
     ):
         from shenfun.utilities.findbasis import get_stencil_matrix
 
-        self._stencil = get_stencil_matrix(bc, "chebyshev", -half, -half, cn)
         if not isinstance(bc, BoundaryConditions):
             bc = BoundaryConditions(bc, domain=domain)
+        self._stencil = get_stencil_matrix(bc, "chebyshev", -half, -half, cn)
         CompositeBase.__init__(
             self,
             N,
diff --git a/shenfun/chebyshevu/bases.py b/shenfun/chebyshevu/bases.py
index 58eaeaa..bc93d7b 100644
--- a/shenfun/chebyshevu/bases.py
+++ b/shenfun/chebyshevu/bases.py
@@ -852,7 +852,7 @@ class CompactNeumann(CompositeBase):
     def __init__(self, N, quad="GU", bc=(0, 0), domain=Domain(-1, 1), dtype=float,
                  padding_factor=1, dealias_direct=False, coordinates=None, **kw):
         if isinstance(bc, (tuple, list)):
-            bc = BoundaryConditions({'left': {'N': bc[0]}, 'right': {'N': bc[1]}})
+            bc = BoundaryConditions({'left': {'N': bc[0]}, 'right': {'N': bc[1]}}, domain=domain)
         CompositeBase.__init__(self, N, quad=quad, domain=domain, dtype=dtype, bc=bc,
                                padding_factor=padding_factor, dealias_direct=dealias_direct,
                                coordinates=coordinates)
@@ -1175,8 +1175,9 @@ class Generic(CompositeBase):
     def __init__(self, N, quad="GU", bc={}, domain=Domain(-1, 1), dtype=float,
                  padding_factor=1, dealias_direct=False, coordinates=None, **kw):
         from shenfun.utilities.findbasis import get_stencil_matrix
+        if not isinstance(bc, BoundaryConditions):
+            bc = BoundaryConditions(bc, domain=domain)
         self._stencil = get_stencil_matrix(bc, 'chebyshevu', half, half, un)
-        bc = BoundaryConditions(bc)
         CompositeBase.__init__(self, N, quad=quad, domain=domain, dtype=dtype, bc=bc,
                                padding_factor=padding_factor, dealias_direct=dealias_direct,
                                coordinates=coordinates)
diff --git a/shenfun/jacobi/bases.py b/shenfun/jacobi/bases.py
index a0fc26b..f832bee 100644
--- a/shenfun/jacobi/bases.py
+++ b/shenfun/jacobi/bases.py
@@ -956,9 +956,9 @@ class Generic(CompositeBase):
                  padding_factor=1, dealias_direct=False, coordinates=None,
                  alpha=0, beta=0, **kw):
         from shenfun.utilities.findbasis import get_stencil_matrix
-        self._stencil = get_stencil_matrix(bc, 'jacobi', alpha, beta, 1)
         if not isinstance(bc, BoundaryConditions):
             bc = BoundaryConditions(bc, domain=domain)
+        self._stencil = get_stencil_matrix(bc, 'jacobi', alpha, beta, 1)
         CompositeBase.__init__(self, N, quad=quad, domain=domain, dtype=dtype, bc=bc,
                                padding_factor=padding_factor, dealias_direct=dealias_direct,
                                alpha=alpha, beta=beta, coordinates=coordinates)
diff --git a/shenfun/laguerre/bases.py b/shenfun/laguerre/bases.py
index 9a62e23..044c6c1 100644
--- a/shenfun/laguerre/bases.py
+++ b/shenfun/laguerre/bases.py
@@ -368,9 +368,9 @@ class Generic(CompositeBase):
     def __init__(self, N, quad="LG", bc={}, domain=Domain(0, sp.S.Infinity), dtype=float,
                  padding_factor=1, dealias_direct=False, coordinates=None, **kw):
         from shenfun.utilities.findbasis import get_stencil_matrix
-        self._stencil = get_stencil_matrix(bc, 'laguerre')
         if not isinstance(bc, BoundaryConditions):
             bc = BoundaryConditions(bc, domain=domain)
+        self._stencil = get_stencil_matrix(bc, 'laguerre')
         CompositeBase.__init__(self, N, quad=quad, domain=domain, dtype=dtype, bc=bc,
                                padding_factor=padding_factor, dealias_direct=dealias_direct,
                                coordinates=coordinates)
diff --git a/shenfun/spectralbase.py b/shenfun/spectralbase.py
index 2fa61fa..da92540 100644
--- a/shenfun/spectralbase.py
+++ b/shenfun/spectralbase.py
@@ -2000,6 +2000,14 @@ class BoundaryConditions(dict):
                     val[bc] /= df**2
                 elif bc == 'N3':
                     val[bc] /= df**3
+                elif bc == 'N4':
+                    val[bc] /= df**4
+                elif bc == 'N5':
+                    val[bc] /= df**5
+                elif bc == 'R':
+                    val[bc] = (v[0]*df, v[1])
+                elif bc == 'W':
+                    val[bc] = (v[0]*df, v[1]/df)
         dict.__init__(self, bcs)
 
     def orderednames(self):
diff --git a/shenfun/ultraspherical/bases.py b/shenfun/ultraspherical/bases.py
index 603f2f9..863ce32 100644
--- a/shenfun/ultraspherical/bases.py
+++ b/shenfun/ultraspherical/bases.py
@@ -996,9 +996,9 @@ class Generic(CompositeBase):
                  padding_factor=1, dealias_direct=False, coordinates=None,
                  alpha=0, **kw):
         from shenfun.utilities.findbasis import get_stencil_matrix
-        self._stencil = get_stencil_matrix(bc, 'ultraspherical', alpha, alpha, cn)
         if not isinstance(bc, BoundaryConditions):
             bc = BoundaryConditions(bc, domain=domain)
+        self._stencil = get_stencil_matrix(bc, 'ultraspherical', alpha, alpha, cn)
         CompositeBase.__init__(self, N, quad=quad, domain=domain, dtype=dtype, bc=bc,
                                padding_factor=padding_factor, dealias_direct=dealias_direct,
                                alpha=alpha, coordinates=coordinates)
-- 
2.43.0


From a24f75174417dc37763b0f0e5dd4cfa64db5aab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:18 +0000
Subject: [PATCH 04/47] fix: jacobi boundary basis ignores parameter beta

---
 shenfun/jacobi/bases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shenfun/jacobi/bases.py b/shenfun/jacobi/bases.py
index f832bee..ab7c0e9 100644
--- a/shenfun/jacobi/bases.py
+++ b/shenfun/jacobi/bases.py
@@ -113,7 +113,7 @@ class JacobiBase(SpectralBase):
     def get_bc_space(self):
         if self._bc_space:
             return self._bc_space
-        self._bc_space = BCGeneric(self.N, bc=self.bcs, domain=self.domain, alpha=self.alpha, beta=self.alpha)
+        self._bc_space = BCGeneric(self.N, bc=self.bcs, domain=self.domain, alpha=self.alpha, beta=self.beta)
         return self._bc_space
 
 class Orthogonal(JacobiBase):
-- 
2.43.0


From 66e5b75c1933438fb9a7ec58f5ef7c8659b82c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:25 +0000
Subject: [PATCH 05/47] fix: jacobi FunctionSpace factory confuses upper
 Dirichlet and named bases with tuple boundary values

---
 shenfun/forms/arguments.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/shenfun/forms/arguments.py b/shenfun/forms/arguments.py
index ed16a5b..28cc4a5 100644
--- a/shenfun/forms/arguments.py
+++ b/shenfun/forms/arguments.py
@@ -386,14 +386,18 @@ def FunctionSpace(N, family='Fourier', bc=None, dtype='d', quad=None,
                                 '': jacobi.bases.Orthogonal,
                                 'LDRD': jacobi.bases.CompactDirichlet,
                                 'LNRN': jacobi.bases.CompactNeumann,
-                                'UD': jacobi.bases.UpperDirichlet,
+                                'RD': jacobi.bases.UpperDirichlet,
                                 'LD': jacobi.bases.LowerDirichlet,
                                 'LDLNRDRN': jacobi.bases.Phi2,
                                 'LDLNLN2RDRNRN2': jacobi.bases.Phi3,
                                 #'LDLNLN2N3RDRNRN2N3': jacobi.bases.Phi4,
                             })
 
-        if isinstance(bc, (str, tuple, dict)):
+        if basis is not None and isinstance(bc, tuple):
+            # The named basis interprets its own tuple of boundary values
+            par['bc'] = bc
+
+        elif isinstance(bc, (str, tuple, dict)):
             domain = Domain(-1, 1) if domain is None else domain
             bcs = BoundaryConditions(bc, domain=domain)
             key = bcs.orderednames()
-- 
2.43.0


From 729c887436e922651d9f4eca5ce6dfe45f8f8c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 06/47] fix: laguerre Generic function space cannot compute its
 stencil matrix

---
 shenfun/laguerre/bases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shenfun/laguerre/bases.py b/shenfun/laguerre/bases.py
index 044c6c1..b000e07 100644
--- a/shenfun/laguerre/bases.py
+++ b/shenfun/laguerre/bases.py
@@ -370,10 +370,10 @@ class Generic(CompositeBase):
         from shenfun.utilities.findbasis import get_stencil_matrix
         if not isinstance(bc, BoundaryConditions):
             bc = BoundaryConditions(bc, domain=domain)
-        self._stencil = get_stencil_matrix(bc, 'laguerre')
         CompositeBase.__init__(self, N, quad=quad, domain=domain, dtype=dtype, bc=bc,
                                padding_factor=padding_factor, dealias_direct=dealias_direct,
                                coordinates=coordinates)
+        self._stencil = get_stencil_matrix(bc, 'laguerre')
 
     @staticmethod
     def boundary_condition():
-- 
2.43.0


From f10d73c888131115576eeab8c45c2b75fa8e445a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:57 +0000
Subject: [PATCH 07/47] fix: sign of third derivative of laguerre basis
 functions

---
 shenfun/laguerre/bases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shenfun/laguerre/bases.py b/shenfun/laguerre/bases.py
index b000e07..e4864ab 100644
--- a/shenfun/laguerre/bases.py
+++ b/shenfun/laguerre/bases.py
@@ -149,7 +149,7 @@ class Orthogonal(SpectralBase):
             D[:-2, :] -= lag.lagder(np.eye(M), 2)*3/2
             D[:-1, :] += lag.lagder(np.eye(M), 1)*3/4
             W = np.dot(V, D)
-            W += V/8
+            W -= V/8
             V = W*np.exp(-x/2)[:, np.newaxis]
 
         elif k == 4:
-- 
2.43.0


From 5c0234a95bfc9dc6abae735bb7b9ac8c3122dddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:36 +0000
Subject: [PATCH 08/47] fix: division by zero in jacobi recursion matrix for
 alpha=-beta

---
 shenfun/jacobi/recursions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shenfun/jacobi/recursions.py b/shenfun/jacobi/recursions.py
index d264e18..d92abce 100644
--- a/shenfun/jacobi/recursions.py
+++ b/shenfun/jacobi/recursions.py
@@ -191,7 +191,7 @@ def _b(alf, bet, i, j):
     f = ((sp.S(2)*(i+alf+bet) / ((sp.S(2)*i+alf+bet)*(sp.S(2)*i+alf+bet-sp.S(1)))) *delta(i, j+1)+
          -((sp.S(2)*(i+alf+sp.S(1))*(i+bet+sp.S(1))) / ((sp.S(2)*i+alf+bet+sp.S(3))*(sp.S(2)*i+alf+bet+sp.S(2))*(i+alf+bet+sp.S(1))))*delta(i, j-1))
     if alf != bet:
-        f += ((sp.S(2)*(alf**2-bet**2)) / ((alf+bet)*(sp.S(2)*i+alf+bet+sp.S(2))*(sp.S(2)*i+alf+bet)))*delta(i, j)
+        f += ((sp.S(2)*(alf-bet)) / ((sp.S(2)*i+alf+bet+sp.S(2))*(sp.S(2)*i+alf+bet)))*delta(i, j)
     return f
 
 def _c(alf, bet, i, j):
-- 
2.43.0


From 587919b622122eef9f6a8271610356e5984edac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 09/47] fix: small matrix entries dropped as round-off, and Phi
 matrices assembled exactly where quadrature is not

---
 shenfun/matrixbase.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 8b504fa..26f662a 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -1848,6 +1848,7 @@ def _get_matrix(test, trial, measure=1, assemble=None, fixed_resolution=None):
     """
     K0 = test[0].slice().stop - test[0].slice().start
     K1 = trial[0].slice().stop - trial[0].slice().start
+    abstol = 1e-10
 
     if assemble == 'quadrature':
 
@@ -1866,6 +1867,8 @@ def _get_matrix(test, trial, measure=1, assemble=None, fixed_resolution=None):
                 return {}
         v = test[0].evaluate_basis_derivative_all(x=x, k=test[1])[:, :K0]
         V = np.dot(np.conj(v.T)*ws[np.newaxis, :], u)
+        # Entries below abstol are round-off. The basis functions may be small
+        abstol = min(abstol, 1e-12*abs(v).max()*abs(u).max()*abs(ws).sum())
 
     else: # exact or adaptive
 
@@ -1959,7 +1962,7 @@ def _get_matrix(test, trial, measure=1, assemble=None, fixed_resolution=None):
             V = V.real.copy()
         elif np.linalg.norm(V.real) / ni > 1e14:
             V = V.real.copy()
-    return extract_diagonal_matrix(V)
+    return extract_diagonal_matrix(V, abstol=abstol)
 
 def assemble_stencil(test, trial, measure=1):
     if trial[0].is_boundary_basis:
@@ -2038,7 +2041,7 @@ def _assemble_stencil(test, trial, measure=1):
         keysS = np.sort(np.array(list(S.keys())))
         lb = -keysK[0]+keysS[-1]+q
         ub = keysK[-1]-keysS[0]+q
-        d = extract_diagonal_matrix(A, lowerband=lb, upperband=ub)
+        d = extract_diagonal_matrix(A, lowerband=lb, upperband=ub, abstol=0)
     else:
         # compute the sparsity pattern
         Ac = A.tocsc()
@@ -2072,7 +2075,9 @@ def assemble_phi(test, trial, measure=1):
 def _assemble_phi(test, trial, measure=1):
     from shenfun.jacobi.recursions import Lmat
     from shenfun.utilities import split
+    # The quadrature must be exact for the products of basis functions
     assert test[0].quad != 'GL'
+    assert not (test[0].family() == 'chebyshevu' and test[0].quad == 'GC')
     alpha = test[0].alpha
     beta = test[0].beta
     gn = test[0].gn
@@ -2089,13 +2094,13 @@ def _assemble_phi(test, trial, measure=1):
         Ax = Lmat(k, qi, l, test[0].dim(), trial[0].N, alpha, beta, gn)
         D = D + sc*Ax
     if trial[0].is_orthogonal:
-        d = extract_diagonal_matrix(D, lowerband=q-k+l, upperband=q+k+l)
+        d = extract_diagonal_matrix(D, lowerband=q-k+l, upperband=q+k+l, abstol=0)
     else:
         K = trial[0].stencil_matrix()
         K.shape = (trial[0].dim(), trial[0].N)
         keys = np.sort(np.array(list(K.keys())))
         lb, ub = -keys[0], keys[-1]
-        d = extract_diagonal_matrix(D*K.diags('csr').T, lowerband=q-k+l+ub, upperband=q+k+l+lb)
+        d = extract_diagonal_matrix(D*K.diags('csr').T, lowerband=q-k+l+ub, upperband=q+k+l+lb, abstol=0)
         K.shape = (trial[0].N, trial[0].N)
     d = d._storage
     return d
@@ -2126,7 +2131,7 @@ def _assemble_phi_bc(test, trial, measure=1):
         d = {0: 1}
     else:
         K = trial[0].stencil_matrix()
-        d = extract_diagonal_matrix(D*extract_diagonal_matrix(K).diags('csr').T, lowerband=N+q, upperband=N)
+        d = extract_diagonal_matrix(D*extract_diagonal_matrix(K).diags('csr').T, lowerband=N+q, upperband=N, abstol=0)
         d = d._storage
     return d
 
-- 
2.43.0


From abfea93c46f8adb3116ef194468efb8dde891a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 10/47] fix: boundary mass matrix truncated for stencils with
 lower diagonals

---
 shenfun/matrixbase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 26f662a..af99438 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -2000,7 +2000,8 @@ def _assemble_stencil_bc(test, trial, measure=1):
         A = K.diags('csr') * B.diags('csr') * S
     M = B.shape[1]
     K.shape = (test[0].N, test[0].N)
-    d = extract_diagonal_matrix(A, lowerband=M+q, upperband=M)
+    lb = -min(min(K.keys()), 0) # stencils may have lower diagonals
+    d = extract_diagonal_matrix(A, lowerband=M+q+lb, upperband=M)
     d = d._storage
     return d
 
-- 
2.43.0


From 55c1ad49496ab8cd50ad721a94dfe3bb7ede567b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 11/47] fix: LowerDirichlet of chebyshevu/ultraspherical
 defaulted to a right condition, get_homogeneous lost the conditions of
 generic spaces

---
 shenfun/chebyshevu/bases.py     | 2 +-
 shenfun/spectralbase.py         | 6 ++++++
 shenfun/ultraspherical/bases.py | 2 +-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/shenfun/chebyshevu/bases.py b/shenfun/chebyshevu/bases.py
index bc93d7b..8e4c28e 100644
--- a/shenfun/chebyshevu/bases.py
+++ b/shenfun/chebyshevu/bases.py
@@ -968,7 +968,7 @@ class LowerDirichlet(CompositeBase):
          Map for curvilinear coordinatesystem, and parameters to :class:`~shenfun.coordinates.Coordinates`
 
     """
-    def __init__(self, N, quad="GU", bc=(None, 0), domain=Domain(-1, 1), dtype=float,
+    def __init__(self, N, quad="GU", bc=(0, None), domain=Domain(-1, 1), dtype=float,
                  padding_factor=1, dealias_direct=False, coordinates=None, **kw):
         CompositeBase.__init__(self, N, quad=quad, domain=domain, dtype=dtype, bc=bc,
                                padding_factor=padding_factor, dealias_direct=dealias_direct,
diff --git a/shenfun/spectralbase.py b/shenfun/spectralbase.py
index da92540..6e092b2 100644
--- a/shenfun/spectralbase.py
+++ b/shenfun/spectralbase.py
@@ -1295,6 +1295,12 @@ class SpectralBase:
                  padding_factor=self.padding_factor,
                  dealias_direct=self.dealias_direct,
                  coordinates=self.coors.coordinates)
+        if hasattr(self, 'bcs'):
+            bcs = copy.deepcopy(self.bcs)
+            for bc in bcs.values():
+                for key, val in bc.items():
+                    bc[key] = (val[0], 0) if isinstance(val, (tuple, list)) else 0
+            d['bc'] = bcs
         if hasattr(self, '_scaled'):
             d['scaled'] = self._scaled
 
diff --git a/shenfun/ultraspherical/bases.py b/shenfun/ultraspherical/bases.py
index 863ce32..51024a8 100644
--- a/shenfun/ultraspherical/bases.py
+++ b/shenfun/ultraspherical/bases.py
@@ -852,7 +852,7 @@ class LowerDirichlet(CompositeBase):
         Map for curvilinear coordinatesystem, and parameters to :class:`~shenfun.coordinates.Coordinates`
 
     """
-    def __init__(self, N, quad="QG", bc=(None, 0), domain=Domain(-1, 1), dtype=float,
+    def __init__(self, N, quad="QG", bc=(0, None), domain=Domain(-1, 1), dtype=float,
                  padding_factor=1, dealias_direct=False, coordinates=None,
                  alpha=0, **kw):
         assert quad == "QG"
-- 
2.43.0


From 87558c868b459fd0c033a3e56b109e3bbc1c5edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 12/47] fix: unweighted jacobi quadrature weights ignored the
 requested number of points and lost precision

---
 shenfun/gegenbauer/bases.py     |  2 +-
 shenfun/jacobi/bases.py         | 31 +++++++++++++++----------------
 shenfun/ultraspherical/bases.py |  2 +-
 3 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/shenfun/gegenbauer/bases.py b/shenfun/gegenbauer/bases.py
index 2b8bab9..bf8e0b3 100644
--- a/shenfun/gegenbauer/bases.py
+++ b/shenfun/gegenbauer/bases.py
@@ -122,7 +122,7 @@ class Orthogonal(JacobiBase):
         assert self.quad == "CG"
         points, weights = roots_jacobi(N, float(self.alpha), float(self.alpha))
         if weighted is False:
-            weights = self.unweighted_quadrature_weights()
+            weights = self.unweighted_quadrature_weights(N)
 
         if map_true_domain is True:
             points = self.map_true_domain(points)
diff --git a/shenfun/jacobi/bases.py b/shenfun/jacobi/bases.py
index ab7c0e9..12c4b52 100644
--- a/shenfun/jacobi/bases.py
+++ b/shenfun/jacobi/bases.py
@@ -63,7 +63,7 @@ class JacobiBase(SpectralBase):
     def weight(self, x=xp):
         return sp.Pow(1 - x, self.alpha) * sp.Pow(1 + x, self.beta)
 
-    def unweighted_quadrature_weights(self):
+    def unweighted_quadrature_weights(self, N=None):
         r"""Return quadrature weights for unweighted integrals
 
         .. math::
@@ -72,21 +72,20 @@ class JacobiBase(SpectralBase):
 
         where `w_j` are the quadrature weights.
 
+        Parameters
+        ----------
+        N : int, optional
+            Number of quadrature points
         """
-        xj, wj = self.points_and_weights()
-        h = self.l2_norm_sq()
-        uj = np.zeros(len(xj))
-        b = self.vandermonde(xj)
-        for j in range(len(xj)):
-            for i in range(self.N):
-                if i == 0:
-                    fi = 2
-                else:
-                    fl = self.orthogonal_basis_function(i=i).as_poly().integrate()
-                    fi = fl(1)-fl(-1)
-                uj[j] += (b[j, i] / h[i]) * fi
-            uj[j] *= wj[j]
-        return uj
+        xj, wj = self.points_and_weights(N)
+        M = len(xj)
+        alpha, beta = float(self.alpha), float(self.beta)
+        i = np.arange(M)
+        b = eval_jacobi(i, alpha, beta, xj[:, None])
+        xl, wl = roots_jacobi(M//2+1, 0, 0)
+        f = wl @ eval_jacobi(i, alpha, beta, xl[:, None]) # integrals of Jacobi polynomials
+        h = wj @ b**2
+        return wj*(b @ (f/h))
 
     def lagrange_poly(self, i):
         """Return i'th Lagrange polynomial of self
@@ -186,7 +185,7 @@ class Orthogonal(JacobiBase):
         assert self.quad == "JG"
         points, weights = roots_jacobi(N, self.alpha, self.beta)
         if weighted is False:
-            weights = self.unweighted_quadrature_weights()
+            weights = self.unweighted_quadrature_weights(N)
 
         if map_true_domain is True:
             points = self.map_true_domain(points)
diff --git a/shenfun/ultraspherical/bases.py b/shenfun/ultraspherical/bases.py
index 51024a8..7d6962c 100644
--- a/shenfun/ultraspherical/bases.py
+++ b/shenfun/ultraspherical/bases.py
@@ -114,7 +114,7 @@ class Orthogonal(JacobiBase):
         assert self.quad == "QG"
         points, weights = roots_jacobi(N, float(self.alpha), float(self.alpha))
         if weighted is False:
-            weights = self.unweighted_quadrature_weights()
+            weights = self.unweighted_quadrature_weights(N)
 
         if map_true_domain is True:
             points = self.map_true_domain(points)
-- 
2.43.0


From 0007172651b391c3be3e54c36e42b76204701da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 13/47] fix: unweighted integrals over laguerre and hermite
 domains were weighted

---
 shenfun/hermite/bases.py  | 3 +--
 shenfun/laguerre/bases.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/shenfun/hermite/bases.py b/shenfun/hermite/bases.py
index 680a00e..d122650 100644
--- a/shenfun/hermite/bases.py
+++ b/shenfun/hermite/bases.py
@@ -78,8 +78,7 @@ class Orthogonal(SpectralBase):
             N = self.shape(False)
         if self.quad == "HG":
             points, weights = hermite.hermgauss(N)
-            if weighted:
-                weights *= np.exp(points**2)
+            weights *= np.exp(points**2) # same for weighted=False, since the weight is 1
         else:
             raise NotImplementedError
 
diff --git a/shenfun/laguerre/bases.py b/shenfun/laguerre/bases.py
index e4864ab..78c5365 100644
--- a/shenfun/laguerre/bases.py
+++ b/shenfun/laguerre/bases.py
@@ -71,8 +71,7 @@ class Orthogonal(SpectralBase):
             N = self.shape(False)
         if self.quad == "LG":
             points, weights = lag.laggauss(N)
-            if weighted:
-                weights *= np.exp(points)
+            weights *= np.exp(points) # same for weighted=False, since the weight is 1
         else:
             raise NotImplementedError
 
-- 
2.43.0


From 3e11004ab541d6fbd931118b09ea7ff155bf1afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:50 +0000
Subject: [PATCH 14/47] fix: multidimensional evaluation doubled the Nyquist
 coefficient of real-to-complex Fourier spaces

---
 shenfun/optimization/cython/evaluate.pyx | 34 ++++++++++++------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/shenfun/optimization/cython/evaluate.pyx b/shenfun/optimization/cython/evaluate.pyx
index 6ebadce..6a837d7 100644
--- a/shenfun/optimization/cython/evaluate.pyx
+++ b/shenfun/optimization/cython/evaluate.pyx
@@ -82,7 +82,7 @@ def _evaluate_2D_cc1(np.ndarray[real_t, ndim=1] b,
                     ii = k + start
                 else:
                     ii = l + start
-                if ii > 0 & ii < M:
+                if ii > 0 and ii < M:
                     b[i] += p
 
     return b
@@ -120,7 +120,7 @@ def _evaluate_2D_rc1(np.ndarray[real_t, ndim=1] b,
                     ii = k + start
                 else:
                     ii = l + start
-                if ii > 0 & ii < M:
+                if ii > 0 and ii < M:
                     b[i] += p
     return b
 
@@ -156,7 +156,7 @@ def _evaluate_2D_cr1(np.ndarray[real_t, ndim=1] b,
                     ii = k + start
                 else:
                     ii = l + start
-                if ii > 0 & ii < M:
+                if ii > 0 and ii < M:
                     b[i] += p
 
     return b
@@ -276,7 +276,7 @@ def _evaluate_3D_ccc1(np.ndarray[real_t, ndim=1] b,
                     b[i] += p
                     if r2c == 2:
                         ii = m + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
 
     return b
@@ -341,7 +341,7 @@ def _evaluate_3D_rcc1(np.ndarray[real_t, ndim=1] b,
                         ii = l + start
                     else:
                         ii = m + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
 
@@ -387,7 +387,7 @@ def _evaluate_3D_crc1(np.ndarray[real_t, ndim=1] b,
                         ii = k + start
                     else:
                         ii = m + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
 
@@ -431,7 +431,7 @@ def _evaluate_3D_ccr1(np.ndarray[real_t, ndim=1] b,
                         ii = k + start
                     else:
                         ii = l + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
 
@@ -456,7 +456,7 @@ def _evaluate_3D_rrc1(np.ndarray[real_t, ndim=1] b,
                     #p = P0[i, k]*P1[i, l]*(u[k, l, m].real*p0.real - u[k, l, m].imag*p0.imag)
                     b[i] += p
                     ii = m + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
 
@@ -481,7 +481,7 @@ def _evaluate_3D_rcr1(np.ndarray[real_t, ndim=1] b,
                     #p = P0[i, k]*P1[i, l]*(u[k, l, m].real*p0.real - u[k, l, m].imag*p0.imag)
                     b[i] += p
                     ii = l + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
 
@@ -506,7 +506,7 @@ def _evaluate_3D_crr1(np.ndarray[real_t, ndim=1] b,
                     #p = P0[i, k]*P1[i, l]*(u[k, l, m].real*p0.real - u[k, l, m].imag*p0.imag)
                     b[i] += p
                     ii = k + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
 
@@ -600,7 +600,7 @@ def _evaluate_lm_2D_cc1(np.ndarray[real_t, ndim=1] b,
                     ii = k + start
                 elif r2c == 1:
                     ii = l + start
-                if ii > 0 & ii < M:
+                if ii > 0 and ii < M:
                     b[i] += p
     return b
 
@@ -659,7 +659,7 @@ def _evaluate_lm_2D_rc1(np.ndarray[real_t, ndim=1] b,
                     ii = k + start
                 elif r2c == 1:
                     ii = l + start
-                if ii > 0 & ii < M:
+                if ii > 0 and ii < M:
                     b[i] += p
     return b
 
@@ -718,7 +718,7 @@ def _evaluate_lm_2D_cr1(np.ndarray[real_t, ndim=1] b,
                     ii = k + start
                 elif r2c == 1:
                     ii = l + start
-                if ii > 0 & ii < M:
+                if ii > 0 and ii < M:
                     b[i] += p
     return b
 
@@ -816,7 +816,7 @@ def _evaluate_lm_3D_ccc1(np.ndarray[real_t, ndim=1] b,
                         ii = l + start
                     elif r2c == 2:
                         ii = m + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
 
@@ -883,7 +883,7 @@ def _evaluate_lm_3D_rcc1(np.ndarray[real_t, ndim=1] b,
                         ii = l + start
                     elif r2c == 2:
                         ii = m + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
 
@@ -949,7 +949,7 @@ def _evaluate_lm_3D_crc1(np.ndarray[real_t, ndim=1] b,
                         ii = k + start
                     elif r2c == 2:
                         ii = m + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
 
@@ -1016,6 +1016,6 @@ def _evaluate_lm_3D_ccr1(np.ndarray[real_t, ndim=1] b,
                         ii = k + start
                     elif r2c == 1:
                         ii = l + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
-- 
2.43.0


From 46c4aef7f7399ecc98b35c1e78448ec1f0d7128d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:50 +0000
Subject: [PATCH 15/47] fix: Expr.eval ignored boundary values, conjugate
 Fourier modes and mapped domains with real data

---
 shenfun/forms/arguments.py | 15 ++++++++++-----
 shenfun/fourier/bases.py   |  2 +-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/shenfun/forms/arguments.py b/shenfun/forms/arguments.py
index 28cc4a5..3a0ad05 100644
--- a/shenfun/forms/arguments.py
+++ b/shenfun/forms/arguments.py
@@ -760,11 +760,11 @@ class Expr:
                 sl = -1
                 for axis, k in enumerate(b0):
                     xx = np.atleast_1d(test_sp[axis].map_reference_domain(np.squeeze(x[axis])))
-                    P = test_sp[axis].evaluate_basis_derivative_all(xx, k=k)
+                    P = test_sp[axis].evaluate_basis_derivative_all(xx, k=k, argument=1)
                     if not test_sp[axis].domain_factor() == 1:
-                        P *= test_sp[axis].domain_factor()**(k)
+                        P *= float(test_sp[axis].domain_factor()**k)
                     if len(x) > 1:
-                        M.append(P[..., V.local_slice()[axis]])
+                        M.append(P[..., test_sp.local_slice()[axis]])
 
                     if isinstance(test_sp[axis], R2C) and len(x) > 1:
                         r2c = axis
@@ -773,12 +773,17 @@ class Expr:
                             last_conj_index = m-1
                         else:
                             last_conj_index = m
-                        sl = V.local_slice()[axis].start
+                        sl = test_sp.local_slice()[axis].start
 
                 bv = basis if basis.tensor_rank == 0 else basis[ind[base_j]]
                 work.fill(0)
                 if len(x) == 1:
-                    work = np.dot(P, bv)
+                    if isinstance(test_sp[0], R2C):
+                        # Add the conjugated modes that are not stored
+                        m = slice(1, (test_sp[0].N+1)//2)
+                        work = np.dot(P, bv).real + np.dot(P[:, m], bv[m]).real
+                    else:
+                        work = np.dot(P, bv)
 
                 elif len(x) == 2:
                     work = cython.evaluate.evaluate_2D(work, bv, M, r2c, last_conj_index, sl)
diff --git a/shenfun/fourier/bases.py b/shenfun/fourier/bases.py
index d472e31..78603e9 100644
--- a/shenfun/fourier/bases.py
+++ b/shenfun/fourier/bases.py
@@ -120,7 +120,7 @@ class FourierBase(SpectralBase):
         x = np.atleast_1d(x)
         return np.exp(1j*x[:, np.newaxis]*k[np.newaxis, :])
 
-    def evaluate_basis_derivative_all(self, x=None, k=0):
+    def evaluate_basis_derivative_all(self, x=None, k=0, argument=0):
         V = self.evaluate_basis_all(x=x)
         if k > 0:
             l = self.wavenumbers(bcast=False, scaled=False, eliminate_highest_freq=False)
-- 
2.43.0


From 259c1e6b681b521ceecc485973e11cacceb16bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:50 +0000
Subject: [PATCH 16/47] fix: evaluate_basis_derivative of jacobi and
 ultraspherical gave nan for derivatives higher than the degree

---
 shenfun/jacobi/bases.py         | 4 +++-
 shenfun/ultraspherical/bases.py | 8 +++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/shenfun/jacobi/bases.py b/shenfun/jacobi/bases.py
index 12c4b52..f0bed9b 100644
--- a/shenfun/jacobi/bases.py
+++ b/shenfun/jacobi/bases.py
@@ -247,7 +247,9 @@ class Orthogonal(JacobiBase):
         if output_array is None:
             output_array = np.zeros(x.shape, dtype=self.dtype)
 
-        if mode == 'numpy':
+        if k > i:
+            output_array[:] = 0
+        elif mode == 'numpy':
             dj = np.prod(np.array([i+self.alpha+self.beta+1+j for j in range(k)]))
             output_array[:] = dj/2**k*eval_jacobi(i-k, self.alpha+k, self.beta+k, x)
         else:
diff --git a/shenfun/ultraspherical/bases.py b/shenfun/ultraspherical/bases.py
index 7d6962c..79f2868 100644
--- a/shenfun/ultraspherical/bases.py
+++ b/shenfun/ultraspherical/bases.py
@@ -181,7 +181,7 @@ class Orthogonal(JacobiBase):
             output_array = np.zeros(x.shape)
         output_array = eval_jacobi(i, float(self.alpha), float(self.alpha), x, out=output_array)
         if self.alpha != 0:
-            output_array *= cn(self.alpha, self.alpha, i).n()
+            output_array *= float(cn(self.alpha, self.alpha, i))
         return output_array
 
     def evaluate_basis_derivative(self, x=None, i=0, k=0, output_array=None):
@@ -190,11 +190,13 @@ class Orthogonal(JacobiBase):
         x = np.atleast_1d(x)
         if output_array is None:
             output_array = np.zeros(x.shape, dtype=self.dtype)
-
+        if k > i:
+            output_array[:] = 0
+            return output_array
         dj = np.prod(np.array([i+2*self.alpha+1+j for j in range(k)]))
         output_array[:] = dj/2**k*eval_jacobi(i-k, float(self.alpha+k), float(self.alpha+k), x)
         if self.alpha != 0:
-            output_array[:] = output_array*cn(self.alpha, self.alpha, i).n()
+            output_array *= float(cn(self.alpha, self.alpha, i))
         return output_array
 
     def evaluate_basis_derivative_all(self, x=None, k=0, argument=0):
-- 
2.43.0


From caebff1d3bb00b01966330ed62859dc929446c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:50 +0000
Subject: [PATCH 17/47] fix: evaluation of Fourier functions at a single point
 failed

---
 shenfun/spectralbase.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shenfun/spectralbase.py b/shenfun/spectralbase.py
index 6e092b2..69fa080 100644
--- a/shenfun/spectralbase.py
+++ b/shenfun/spectralbase.py
@@ -507,6 +507,7 @@ class SpectralBase:
             output_array
 
         """
+        x = np.atleast_1d(x)
         if output_array is None:
             output_array = np.zeros(x.shape, dtype=self.dtype)
         x = self.map_reference_domain(x)
-- 
2.43.0


From b084bf1dbbcbed1225cf2a01acdfa7d0f06e82ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:21 +0000
Subject: [PATCH 18/47] Revert "fix: unweighted integrals over laguerre and
 hermite domains were weighted"

The existing test_assign[La] relies on the weighted integral.
---
 shenfun/hermite/bases.py  | 3 ++-
 shenfun/laguerre/bases.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/shenfun/hermite/bases.py b/shenfun/hermite/bases.py
index d122650..680a00e 100644
--- a/shenfun/hermite/bases.py
+++ b/shenfun/hermite/bases.py
@@ -78,7 +78,8 @@ class Orthogonal(SpectralBase):
             N = self.shape(False)
         if self.quad == "HG":
             points, weights = hermite.hermgauss(N)
-            weights *= np.exp(points**2) # same for weighted=False, since the weight is 1
+            if weighted:
+                weights *= np.exp(points**2)
         else:
             raise NotImplementedError
 
diff --git a/shenfun/laguerre/bases.py b/shenfun/laguerre/bases.py
index 78c5365..e4864ab 100644
--- a/shenfun/laguerre/bases.py
+++ b/shenfun/laguerre/bases.py
@@ -71,7 +71,8 @@ class Orthogonal(SpectralBase):
             N = self.shape(False)
         if self.quad == "LG":
             points, weights = lag.laggauss(N)
-            weights *= np.exp(points) # same for weighted=False, since the weight is 1
+            if weighted:
+                weights *= np.exp(points)
         else:
             raise NotImplementedError
 
-- 
2.43.0


From 7c37c081e9966ee94ee493e2710bdd8ad53aed48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 19/47] fix: sign of negated legendre matrices lost with
 kind/assemble, ALLmat wrong for rectangular shapes

---
 shenfun/legendre/matrices.py | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/shenfun/legendre/matrices.py b/shenfun/legendre/matrices.py
index 1bd97ef..a60c7cd 100644
--- a/shenfun/legendre/matrices.py
+++ b/shenfun/legendre/matrices.py
@@ -400,16 +400,19 @@ class ALLmat(SpectralMatrix):
         assert isinstance(test[0], L)
         assert isinstance(trial[0], L)
         M, N = test[0].N, trial[0].N
-        k = np.arange(min(M, N), dtype=float)
         self._keyscale = 1
+        # rows and columns, where the columns are differentiated
+        m, n = (M, N) if trial[1] else (N, M)
         def _getkey(i):
             j = abs(i)
-            return self._keyscale*((k[:-j]+0.5)*(k[j:]*(k[j:]+1) - k[:-j]*(k[:-j]+1))*2./(2*k[:-j]+1))
+            k = np.arange(min(m, n-j), dtype=float)
+            l = k+j
+            return self._keyscale*((k+0.5)*(l*(l+1) - k*(k+1))*2./(2*k+1))
 
         if trial[1]:
-            d = dict.fromkeys(np.arange(2, N, 2), _getkey)
+            d = dict.fromkeys(np.arange(2, n, 2), _getkey)
         else:
-            d = dict.fromkeys(-np.arange(2, N, 2), _getkey)
+            d = dict.fromkeys(-np.arange(2, n, 2), _getkey)
         return d
 
     #def matvec(self, v, c, format='cython', axis=0):
@@ -909,6 +912,13 @@ class BSDSDrp1mat(SpectralMatrix):
         return d
 
 
+def _negative(cls):
+    """Return class for the negative of the hardcoded matrix ``cls``"""
+    def assemble(self, method):
+        d = cls.assemble(self, method)
+        return d if d is None else {k: -v for k, v in d.items()}
+    return type(cls.__name__, (cls,), {'__doc__': cls.__doc__, 'assemble': assemble})
+
 mat = SpectralMatDict({
     ((L,  0), (L,  0)): BLLmat,
     ((L,  0), (L,  1)): CLLmat,
@@ -916,24 +926,24 @@ mat = SpectralMatDict({
     ((L,  0), (SD, 1)): CLSDmat,
     ((SD, 1), (L,  0)): CSDLmat,
     ((SD, 0), (SD, 1)): CSDSDmat,
-    ((SD, 1), (SD, 0)): functools.partial(CSDSDmat, scale=-1.),
+    ((SD, 1), (SD, 0)): functools.partial(_negative(CSDSDmat)),
     ((SD, 0), (SD, 0)): BSDSDmat,
     ((SB, 0), (SB, 0)): BSBSBmat,
     ((SN, 0), (SN, 0)): BSNSNmat,
     ((SD, 0), (L,  0)): BSDLmat,
     ((L,  0), (SD, 0)): BLSDmat,
     ((SD, 1), (SD, 1)): ASDSDmat,
-    ((SD, 2), (SD, 0)): functools.partial(ASDSDmat, scale=-1.),
-    ((SD, 0), (SD, 2)): functools.partial(ASDSDmat, scale=-1.),
+    ((SD, 2), (SD, 0)): functools.partial(_negative(ASDSDmat)),
+    ((SD, 0), (SD, 2)): functools.partial(_negative(ASDSDmat)),
     ((SN, 1), (SN, 1)): ASNSNmat,
-    ((SN, 2), (SN, 0)): functools.partial(ASNSNmat, scale=-1.),
-    ((SN, 0), (SN, 2)): functools.partial(ASNSNmat, scale=-1.),
+    ((SN, 2), (SN, 0)): functools.partial(_negative(ASNSNmat)),
+    ((SN, 0), (SN, 2)): functools.partial(_negative(ASNSNmat)),
     ((L,  2), (L,  0)): ALLmat,
     ((L,  0), (L,  2)): ALLmat,
     ((SB, 2), (SB, 2)): SSBSBmat,
     ((SB, 1), (SB, 1)): ASBSBmat,
-    ((SB, 0), (SB, 2)): functools.partial(ASBSBmat, scale=-1.),
-    ((SB, 2), (SB, 0)): functools.partial(ASBSBmat, scale=-1.),
+    ((SB, 0), (SB, 2)): functools.partial(_negative(ASBSBmat)),
+    ((SB, 2), (SB, 0)): functools.partial(_negative(ASBSBmat)),
     ((SB, 0), (SB, 4)): SSBSBmat,
     ((SB, 4), (SB, 0)): SSBSBmat,
     ((SD, 0), (SD, 2), 1+x): ASDSD2rp1mat,
@@ -950,8 +960,8 @@ mat = SpectralMatDict({
     ((LD, 0), (LD, 0)): BLDLDmat,
     ((DN, 0), (DN, 0)): BDNDNmat,
     ((DN, 1), (DN, 1)): ADNDNmat,
-    ((DN, 2), (DN, 0)): functools.partial(ADNDNmat, scale=-1.),
-    ((DN, 0), (DN, 2)): functools.partial(ADNDNmat, scale=-1.),
+    ((DN, 2), (DN, 0)): functools.partial(_negative(ADNDNmat)),
+    ((DN, 0), (DN, 2)): functools.partial(_negative(ADNDNmat)),
     ((BF, 4), (BF, 0)): SBFBFmat,
     ((BF, 0), (BF, 4)): SBFBFmat,
     ((BF, 2), (BF, 2)): SBFBFmat,
-- 
2.43.0


From 29ad753efc0789dffd3b0befaf8c746ea9809ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:32 +0000
Subject: [PATCH 20/47] fix: diags of an empty matrix raised ValueError

---
 shenfun/matrixbase.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index af99438..12de3dc 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -168,9 +168,12 @@ class SparseMatrix(MutableMapping):
         """
         format = config['matrix']['sparse']['diags'] if format is None else format
         self.sort()
-        self._diags = sp_diags(list(self.values()),
-                               list(self.keys()),
-                               shape=self.shape, format=format)
+        if len(self) == 0:
+            self._diags = csr_matrix(self.shape).asformat(format)
+        else:
+            self._diags = sp_diags(list(self.values()),
+                                   list(self.keys()),
+                                   shape=self.shape, format=format)
         scale = self.scale
         if isinstance(scale, np.ndarray):
             scale = np.atleast_1d(scale).item()
-- 
2.43.0


From d9f3fb2bf77ccb0802a42b6a7a4f06861bc3e6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:32 +0000
Subject: [PATCH 21/47] fix: hardcoded matrices used for different numbers of
 modes, where they are wrong

---
 shenfun/matrixbase.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 12de3dc..bd0ff46 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -654,7 +654,10 @@ class SpectralMatrix(SparseMatrix):
                 # 2. Try to use stencil-method. This may fail because it does not
                 #    cover all options, so
                 # 3. Fall back on Vandermonde quadrature in case the above fails.
-                d = self.assemble(assemble)
+                if test[0].N == trial[0].N or (test[0].is_orthogonal and trial[0].is_orthogonal) or trial[0].is_boundary_basis:
+                    d = self.assemble(assemble)
+                else: # Most implemented matrices require N to be the same
+                    d = None
                 if d is not None:
                     _assembly_method += '_implemented'
                 if d is None:
-- 
2.43.0


From f84757571ff5386f72f53788826b18b713c72337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:32 +0000
Subject: [PATCH 22/47] fix: exact and adaptive assembly mapped the measure
 twice and mishandled the weight

---
 shenfun/matrixbase.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index bd0ff46..473c66a 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -1895,8 +1895,7 @@ def _get_matrix(test, trial, measure=1, assemble=None, fixed_resolution=None):
                     s = measure.free_symbols
                     assert len(s) == 1
                     x = s.pop()
-                    xm = test[0].map_true_domain(x)
-                    measure = measure.subs(x, sp.cos(xm))
+                    measure = measure.subs(x, sp.cos(x))
                 else:
                     assert isinstance(measure, Number)
             assert test[1] == 0
@@ -1928,13 +1927,11 @@ def _get_matrix(test, trial, measure=1, assemble=None, fixed_resolution=None):
                     s = measure.free_symbols
                     assert len(s) == 1
                     x = s.pop()
-                    xm = test[0].map_true_domain(x)
-                    measure = measure.subs(x, xm)
                 else:
                     assert isinstance(measure, Number)
 
             cheb = test[0].family() in ('chebyshev', 'chebyshevu', 'ultraspherical', 'gegenbauer')
-            if cheb: # use adaptive quadrature with weight incorporated
+            if cheb and assemble == 'adaptive': # use adaptive quadrature with weight incorporated
                 w = {'weight': 'alg',
                      'wvar': (float(test[0].alpha), float(test[0].beta)),
                      'epsabs': 0, 'epsrel': 1e-8}
@@ -1954,11 +1951,8 @@ def _get_matrix(test, trial, measure=1, assemble=None, fixed_resolution=None):
                     if assemble == 'exact':
                         V[i, j] = integrate_sympy(integrand, (x, domain[0], domain[1]))
                     elif assemble == 'adaptive':
-                        if isinstance(integrand, Number):
-                            if cheb:
-                                V[i, j] = integrand*np.pi
-                            else:
-                                V[i, j] = integrand*float(domain[1]-domain[0])
+                        if isinstance(integrand, Number) and not cheb:
+                            V[i, j] = integrand*float(domain[1]-domain[0])
                         else:
                             V[i, j] = quad(sp.lambdify(x, integrand), float(domain[0]), float(domain[1]), **w)[0]
 
-- 
2.43.0


From d5ed5e7a13e74280994b6916e8869faf528c869b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:32 +0000
Subject: [PATCH 23/47] fix: stencil assembly with variable coefficient and
 differentiated test function, and its sparsity pattern

---
 shenfun/matrixbase.py | 49 +++++++++++++++++++------------------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 473c66a..7e21683 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -10,7 +10,7 @@ from numbers import Number
 import numpy as np
 import sympy as sp
 from scipy.sparse import bmat, spmatrix, dia_matrix, csr_matrix, kron, \
-    diags as sp_diags
+    diags as sp_diags, eye as sp_eye
 from scipy.integrate import quad
 from mpi4py import MPI
 from shenfun.config import config
@@ -1969,11 +1969,21 @@ def assemble_stencil(test, trial, measure=1):
         return _assemble_stencil_bc(test, trial, measure)
     return _assemble_stencil(test, trial, measure)
 
+def _derivative_matrix(T, k):
+    """Return matrix that maps the k'th derivatives of the orthogonal basis
+    functions of ``T`` to the basis functions"""
+    D = sp_eye(T.N, format='csr')
+    if k > 0:
+        from shenfun.spectralbase import inner_product
+        D = inner_product((T, k), (T, 0)).diags('csr') * sp_diags(1/T.l2_norm_sq())
+    return D
+
 def _assemble_stencil_bc(test, trial, measure=1):
     from shenfun.spectralbase import inner_product
     Tv = test[0].get_orthogonal(domain=(-1, 1))
     Tu = trial[0].get_orthogonal(domain=(-1, 1))
-    B = inner_product((Tv, test[1]), (Tu, trial[1]))
+    # With a variable coefficient the test function is differentiated below
+    B = inner_product((Tv, test[1] if measure == 1 else 0), (Tu, trial[1]))
     if len(B) == 0:
         return {}
     K = test[0].stencil_matrix()
@@ -1995,13 +2005,11 @@ def _assemble_stencil_bc(test, trial, measure=1):
             qi = sp.degree(msi)
             Ax = pmat(a, qi, alpha, beta, test[0].N, test[0].N, gn)
             A = A + sc*Ax.diags('csr')
-        A = K.diags('csr') * A.T * B.diags('csr') * S
+        A = K.diags('csr') * _derivative_matrix(Tv, test[1]) * A.T * B.diags('csr') * S
     else:
         A = K.diags('csr') * B.diags('csr') * S
-    M = B.shape[1]
     K.shape = (test[0].N, test[0].N)
-    lb = -min(min(K.keys()), 0) # stencils may have lower diagonals
-    d = extract_diagonal_matrix(A, lowerband=M+q+lb, upperband=M)
+    d = extract_diagonal_matrix(A)
     d = d._storage
     return d
 
@@ -2012,8 +2020,9 @@ def _assemble_stencil(test, trial, measure=1):
     alpha = test[0].alpha
     beta = test[0].beta
     gn = test[0].gn
-    # This needs to be either implemented or quadrature:
-    B = inner_product((Tv, test[1]), (Tu, trial[1]))
+    # This needs to be either implemented or quadrature. With a variable
+    # coefficient the test function is differentiated below
+    B = inner_product((Tv, test[1] if measure == 1 else 0), (Tu, trial[1]))
     K = test[0].stencil_matrix()
     q = sp.degree(measure)
 
@@ -2031,7 +2040,7 @@ def _assemble_stencil(test, trial, measure=1):
             qi = sp.degree(msi)
             Ax = pmat(a, qi, alpha, beta, test[0].N, test[0].N, gn)
             A = A + sc*Ax.diags('csr')
-        A = K.diags('csr') * A.T * B.diags('csr') * S.diags('csr').T
+        A = K.diags('csr') * _derivative_matrix(Tv, test[1]) * A.T * B.diags('csr') * S.diags('csr').T
     else:
         A = K.diags('csr') * B.diags('csr') * S.diags('csr').T
 
@@ -2045,24 +2054,10 @@ def _assemble_stencil(test, trial, measure=1):
         d = extract_diagonal_matrix(A, lowerband=lb, upperband=ub, abstol=0)
     else:
         # compute the sparsity pattern
-        Ac = A.tocsc()
-        ub = Ac.getrow(0).indices
-        ub2 = Ac.getrow(1).indices
-        if len(ub) == 0 and len(ub2) == 0:
-            ub = 0
-        else:
-            ub = trial[0].dim() if len(ub) == 0 else ub.max()
-            ub2 = trial[0].dim() if len(ub2) == 0 else ub2.max()-1
-            ub = max(ub, ub2)
-
-        lb = Ac.getcol(0).indices
-        lb2 = Ac.getcol(1).indices
-        if len(lb) == 0 and len(lb2) == 0:
-            lb = 0
-        else:
-            lb = test[0].dim() if len(lb) == 0 else lb.max()
-            lb2 = test[0].dim() if len(lb2) == 0 else lb2.max()-1
-            lb = max(lb, lb2)
+        Ac = A.tocoo()
+        ij = Ac.col[Ac.data != 0] - Ac.row[Ac.data != 0]
+        lb = -min(ij.min(initial=0), 0)
+        ub = max(ij.max(initial=0), 0)
         d = extract_diagonal_matrix(A, lowerband=lb, upperband=ub)
     d = d._storage
     return d
-- 
2.43.0


From 015f9ea1594eb39e811d77dd70777391c7c5530a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:32 +0000
Subject: [PATCH 24/47] fix: assembly of Phi matrices ignored derivative of
 test function and family of trial function

---
 shenfun/matrixbase.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 7e21683..974d17a 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -2064,6 +2064,7 @@ def _assemble_stencil(test, trial, measure=1):
 
 def assemble_phi(test, trial, measure=1):
     assert test[0].short_name() in ('P1', 'P2', 'P3', 'P4', 'P6')
+    assert test[1] == 0
     if trial[0].is_boundary_basis:
         return _assemble_phi_bc(test, trial, measure)
     return _assemble_phi(test, trial, measure)
@@ -2073,6 +2074,8 @@ def _assemble_phi(test, trial, measure=1):
     from shenfun.utilities import split
     # The quadrature must be exact for the products of basis functions
     assert test[0].quad != 'GL'
+    assert test[0].family() == trial[0].family()
+    assert (test[0].alpha, test[0].beta) == (trial[0].alpha, trial[0].beta)
     assert not (test[0].family() == 'chebyshevu' and test[0].quad == 'GC')
     alpha = test[0].alpha
     beta = test[0].beta
-- 
2.43.0


From c2ea9fb602cc63a9814f9685c981f8a7d2dc56a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:31 +0000
Subject: [PATCH 25/47] fix: small entries of matrices assembled with stencils
 dropped as round-off

---
 shenfun/matrixbase.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 974d17a..b884b0a 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -2058,7 +2058,9 @@ def _assemble_stencil(test, trial, measure=1):
         ij = Ac.col[Ac.data != 0] - Ac.row[Ac.data != 0]
         lb = -min(ij.min(initial=0), 0)
         ub = max(ij.max(initial=0), 0)
-        d = extract_diagonal_matrix(A, lowerband=lb, upperband=ub)
+        # Entries may be small because the basis functions are
+        abstol = min(1e-10, 1e-12*abs(A).max())
+        d = extract_diagonal_matrix(A, lowerband=lb, upperband=ub, abstol=abstol)
     d = d._storage
     return d
 
-- 
2.43.0


From 7e6892ccec3a66b548e1945f328a9712b45d2e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:24 +0000
Subject: [PATCH 26/47] fix: recursion matrices for higher powers of x wrong
 for chebyshevu, and IndexError for small matrices

---
 shenfun/jacobi/recursions.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/shenfun/jacobi/recursions.py b/shenfun/jacobi/recursions.py
index d92abce..ad119ec 100644
--- a/shenfun/jacobi/recursions.py
+++ b/shenfun/jacobi/recursions.py
@@ -466,8 +466,8 @@ def pmat(mat, q, alf, bet, M, N, gn=1):
                     if len(d[i]) > q+1:
                         d[i][q+1:] = fz(np.arange(q+1, Z))
                 else:
-                    d[i][:q] = [f.subs(m, z).subs([(alfa, alf), (beta, bet)]) for z in np.arange(0, q)]
-                    d[i][q:] = fz(np.arange(q, Z))
+                    d[i][:q] = [f.subs(m, z).subs([(alfa, alf), (beta, bet)]) for z in np.arange(0, min(q, Z))]
+                    d[i][q:] = fz(np.arange(q, max(q, Z)))
             else:
                 Z = min(M-abs(i), N)
                 d[i] = np.zeros(Z)
@@ -480,9 +480,10 @@ def pmat(mat, q, alf, bet, M, N, gn=1):
                         d[i][(q+i):] = fz(np.arange(q, Z-i))
 
                 else:
-                    if alf == -half and bet == -half:
-                        d[i][:q] = [sp.simplify(f.subs(m, -i+z)).subs([(alfa, alf), (beta, bet)]) for z in np.arange(0, q)]
-                        d[i][q:] = fz(np.arange(-i+q, Z-i))
+                    if alf*bet != 0 and alf+bet in (-1, 0, 1):
+                        # fz is wrong for the first entries, where f is 0/0
+                        d[i][:q] = [sp.cancel(f.subs([(m, -i+z), (alfa, alf)])).subs(beta, bet) for z in np.arange(0, min(q, Z))]
+                        d[i][q:] = fz(np.arange(-i+q, max(-i+q, Z-i)))
                     else:
                         d[i][:] = fz(np.arange(-i, Z-i))
     _pmat[(mat, q, alf, bet, M, N, gn)] = d
@@ -537,8 +538,9 @@ def a_mat(mat, k, q, alf, bet, M, N, gn=1):
                 Z = min(M-abs(i), N)
                 if Z > 0:
                     d[i] = np.zeros(Z)
-                    d[i][k] = sp.simplify(f.subs(m, -i+k)).subs([(alfa, alf), (beta, bet)])
-                    d[i][k+1:] = fz(np.arange(-i+k+1, Z-i))
+                    if Z > k:
+                        d[i][k] = sp.simplify(f.subs(m, -i+k)).subs([(alfa, alf), (beta, bet)])
+                        d[i][k+1:] = fz(np.arange(-i+k+1, Z-i))
     _amat[(mat, k, q, alf, bet, M, N, gn)] = d
     return SparseMatrix(d, (M, N))
 
-- 
2.43.0


From 77cf5693a515fa154a17257c1325fbb59599262c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:02 +0000
Subject: [PATCH 27/47] fix: Pentadiagonal_matvec reads outside arrays for
 fewer than 8 rows

---
 shenfun/optimization/cython/Matvec.pyx | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/shenfun/optimization/cython/Matvec.pyx b/shenfun/optimization/cython/Matvec.pyx
index a0d8c43..1ce903b 100644
--- a/shenfun/optimization/cython/Matvec.pyx
+++ b/shenfun/optimization/cython/Matvec.pyx
@@ -484,20 +484,16 @@ cdef void Pentadiagonal_matvec_ptr(T* const v,
         double* udd = c0.udd
         int M = c0.N
 
-    b[0] = dd[0]*v[0] + ud[0]*v[2*st] + udd[0]*v[4*st]
-    b[1*st] = dd[1]*v[1*st] + ud[1]*v[3*st] + udd[1]*v[5*st]
-    b[2*st] = ld[0]*v[0] + dd[2]*v[2*st] + ud[2]*v[4*st] + udd[2]*v[6*st]
-    b[3*st] = ld[1]*v[1*st] + dd[3]*v[3*st] + ud[3]*v[5*st] + udd[3]*v[7*st]
-    for i in range(4, M-4):
-        b[i*st] = ldd[i-4]*v[(i-4)*st] + ld[i-2]*v[(i-2)*st] + dd[i]*v[i*st] + ud[i]*v[(i+2)*st] + udd[i]*v[(i+4)*st]
-    i = M-4
-    b[i*st] = ldd[i-4]*v[(i-4)*st] + ld[i-2]*v[(i-2)*st] + dd[i]*v[i*st] + ud[i]*v[(i+2)*st]
-    i = M-3
-    b[i*st] = ldd[i-4]*v[(i-4)*st] + ld[i-2]*v[(i-2)*st] + dd[i]*v[i*st] + ud[i]*v[(i+2)*st]
-    i = M-2
-    b[i*st] = ldd[i-4]*v[(i-4)*st] + ld[i-2]*v[(i-2)*st] + dd[i]*v[i*st]
-    i = M-1
-    b[i*st] = ldd[i-4]*v[(i-4)*st] + ld[i-2]*v[(i-2)*st] + dd[i]*v[i*st]
+    for i in range(M):
+        b[i*st] = dd[i]*v[i*st]
+        if i >= 4:
+            b[i*st] = b[i*st] + ldd[i-4]*v[(i-4)*st]
+        if i >= 2:
+            b[i*st] = b[i*st] + ld[i-2]*v[(i-2)*st]
+        if i < M-2:
+            b[i*st] = b[i*st] + ud[i]*v[(i+2)*st]
+        if i < M-4:
+            b[i*st] = b[i*st] + udd[i]*v[(i+4)*st]
 
 cpdef Pentadiagonal_matvec(np.ndarray v, np.ndarray b, int axis, double[::1] ldd, double[::1] ld, double[::1] dd, double[::1] ud, double[::1] udd):
     cdef:
-- 
2.43.0


From c5ccb5e0af5ba23d4f4a5b7935aa255398a24985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:02 +0000
Subject: [PATCH 28/47] fix: ThreeDMA used second diagonal in place of third

---
 shenfun/la.py                          | 2 +-
 shenfun/optimization/cython/la.pyx     | 2 +-
 shenfun/optimization/numba/threedma.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/shenfun/la.py b/shenfun/la.py
index ad462bf..ecf8804 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -690,7 +690,7 @@ class ThreeDMA(BandedMatrixSolver):
     def inner_solve(u, data):
         d = data[0, :]
         u1 = data[1, 2:]
-        u2 = data[1, 4:]
+        u2 = data[2, 4:]
         n = d.shape[0]
         u[n-1] = u[n-1]/d[n-1]
         u[n-2] = u[n-2]/d[n-2]
diff --git a/shenfun/optimization/cython/la.pyx b/shenfun/optimization/cython/la.pyx
index e41c0b0..3bb2e93 100644
--- a/shenfun/optimization/cython/la.pyx
+++ b/shenfun/optimization/cython/la.pyx
@@ -571,7 +571,7 @@ cdef void ThreeDMA_inner_solve_ptr(T* u, int st, double* data, int m0, int m1):
         int i, n = m1
         double* d = &data[0]
         double* u1 = &data[m1+2]
-        double* u2 = &data[m1+4]
+        double* u2 = &data[2*m1+4]
     u[(n-1)*st] = u[(n-1)*st]/d[n-1]
     u[(n-2)*st] = u[(n-2)*st]/d[n-2]
     u[(n-3)*st] = (u[(n-3)*st]-u1[n-3]*u[(n-1)*st])/d[n-3]
diff --git a/shenfun/optimization/numba/threedma.py b/shenfun/optimization/numba/threedma.py
index 881fe3d..2695c5f 100644
--- a/shenfun/optimization/numba/threedma.py
+++ b/shenfun/optimization/numba/threedma.py
@@ -25,7 +25,7 @@ def ThreeDMA_Solve(x, data, axis=0):
 def ThreeDMA_inner_solve(u, data):
     d = data[0, :]
     u1 = data[1, 2:]
-    u2 = data[1, 4:]
+    u2 = data[2, 4:]
     n = d.shape[0]
     u[n-1] = u[n-1]/d[n-1]
     u[n-2] = u[n-2]/d[n-2]
-- 
2.43.0


From 8a4bfd443ed9c5adb56a95ad9c3c4fa203699f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:02 +0000
Subject: [PATCH 29/47] fix: chebyshev matvecs with scaled or non-square
 matrices

---
 shenfun/chebyshev/matrices.py           | 26 +++++++++++++++----------
 shenfun/optimization/numba/helmholtz.py |  2 +-
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/shenfun/chebyshev/matrices.py b/shenfun/chebyshev/matrices.py
index 8ac96fd..b786c21 100644
--- a/shenfun/chebyshev/matrices.py
+++ b/shenfun/chebyshev/matrices.py
@@ -404,6 +404,7 @@ class BSNSNmat(SpectralMatrix):
         return generic_TDMA
 
     def matvec(self, v, c, format=None, axis=0):
+        c.fill(0)
         # Move axis to first
         if axis > 0:
             v = np.moveaxis(v, axis, 0)
@@ -790,8 +791,12 @@ class CTSDmat(SpectralMatrix):
         assert isinstance(trial[0], SD)
         N = test[0].N
         k = np.arange(N, dtype=float)
-        d = dict.fromkeys(np.arange(-1, N-2, 2), -2*np.pi)
-        d[-1] = -(k[1:N-1]+1)*np.pi
+        self._keyscale = 1
+        def _getkey(i):
+            if i == -1:
+                return -(k[1:N-1]+1)*np.pi*self._keyscale
+            return -2*np.pi*self._keyscale
+        d = dict.fromkeys(np.arange(-1, N-2, 2), _getkey)
         return d
 
     def matvec(self, v, c, format=None, axis=0):
@@ -799,7 +804,7 @@ class CTSDmat(SpectralMatrix):
         c.fill(0)
         if format == 'cython':
             cython.Matvec.CTSD_matvec(v, c, axis)
-            self.scale_array(c, self.scale)
+            self.scale_array(c, self.scale*self._keyscale)
         else:
             format = None if format in self._matvec_methods else format
             c = super(CTSDmat, self).matvec(v, c, format=format, axis=axis)
@@ -867,17 +872,17 @@ class CTTmat(SpectralMatrix):
         assert isinstance(test[0], T)
         assert isinstance(trial[0], T)
         M, N = test[0].N, trial[0].N
-        k = np.arange(min(M, N), dtype=float)
+        k = np.arange(N, dtype=float)
         self._keyscale = 1
         def _getkey(i):
-            return np.pi*self._keyscale*k[i:]
+            return np.pi*self._keyscale*k[i:M+i]
         d = dict.fromkeys(np.arange(1, N, 2), _getkey)
         return d
 
     def matvec(self, v, c, format=None, axis=0):
         format = 'cython' if format is None else format
         c.fill(0)
-        if format == 'cython':
+        if format == 'cython' and self.shape[0] == self.shape[1]:
             cython.Matvec.CTT_matvec(v, c, axis)
             self.scale_array(c, self.scale*self._keyscale)
         else:
@@ -1125,6 +1130,7 @@ class ASNSNmat(SpectralMatrix):
         return ANNSolver
 
     def matvec(self, v, c, format=None, axis=0):
+        c.fill(0)
         if format == 'numba':
             try:
                 c = numba.helmholtz.ANN_matvec(v, c, self, axis)
@@ -1158,7 +1164,6 @@ class ASNSNmat(SpectralMatrix):
             else:
                 s1 += vc[k+2]
                 c[k] += s1*d2[k]
-        c *= self.scale
         if axis > 0:
             v = np.moveaxis(v, 0, axis)
             c = np.moveaxis(c, 0, axis)
@@ -1207,17 +1212,18 @@ class ATTmat(SpectralMatrix):
         assert isinstance(test[0], T)
         assert isinstance(trial[0], T)
         M, N = test[0].N, trial[0].N
-        k = np.arange(min(M, N), dtype=float)
+        k = np.arange(N, dtype=float)
         self._keyscale = 1
         def _getkey(j):
-            return self._keyscale*k[j:]*(k[j:]**2-k[:-j]**2)*np.pi/2
+            l = k[j:M+j]
+            return self._keyscale*l*(l**2-k[:len(l)]**2)*np.pi/2
         d = dict.fromkeys(np.arange(2, N, 2), _getkey)
         return d
 
     def matvec(self, v, c, format=None, axis=0):
         format = 'cython' if format is None else format
         c.fill(0)
-        if format == 'cython':
+        if format == 'cython' and self.shape[0] == self.shape[1]:
             cython.Matvec.ATT_matvec(v, c, axis)
             self.scale_array(c, self.scale*self._keyscale)
         else:
diff --git a/shenfun/optimization/numba/helmholtz.py b/shenfun/optimization/numba/helmholtz.py
index fe007c5..e8c1134 100644
--- a/shenfun/optimization/numba/helmholtz.py
+++ b/shenfun/optimization/numba/helmholtz.py
@@ -460,7 +460,7 @@ def ANN_matvec1D(v, c, d0, d2, scale=1):
             s1 += v[k+2]*(k+2)**2
             c[k] += s1*d2[k]/(k+2)**2
     if scale != 1:
-        c /= scale
+        c *= scale
 
 @nb.jit(nopython=True, fastmath=True, cache=True)
 def ANN_matvec2D(v, b, d0, d2, scale, axis):
-- 
2.43.0


From cd056b0c57c1987d93903815cde032a51eb602b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:02 +0000
Subject: [PATCH 30/47] fix: matvec and assembly of non-square hermite,
 laguerre and legendre matrices

---
 shenfun/hermite/matrices.py  | 25 +++++++++++++++----------
 shenfun/laguerre/matrices.py |  2 ++
 shenfun/legendre/matrices.py |  4 +++-
 3 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/shenfun/hermite/matrices.py b/shenfun/hermite/matrices.py
index b11e580..266719e 100644
--- a/shenfun/hermite/matrices.py
+++ b/shenfun/hermite/matrices.py
@@ -35,10 +35,9 @@ class BHHmat(SpectralMatrix):
             return b
 
     def matvec(self, v, c, format=None, axis=0):
-        M = self.shape[1]
-        ss = [slice(None)]*len(v.shape)
-        ss[self.axis] = slice(0, M)
-        c[tuple(ss)] = v
+        if self.shape[0] != self.shape[1]:
+            return super(BHHmat, self).matvec(v, c, format=format, axis=axis)
+        c[:] = v
         self.scale_array(c, self.scale*self[0])
         return c
 
@@ -58,12 +57,15 @@ class AHHmat(SpectralMatrix):
         test, trial = self.testfunction, self.trialfunction
         assert isinstance(test[0], H)
         assert isinstance(trial[0], H)
-        N = test[0].N
-        k = np.arange(N, dtype=float)
-        d = {0: k+0.5,
-             2: -np.sqrt((k[:-2]+1)*(k[:-2]+2))/2}
-        d[0][-1] = (N-1)/2.
-        d[-2] = d[2].copy()
+        M, N = test[0].N, trial[0].N
+        k = np.arange(min(M, N), dtype=float)
+        d = {0: k+0.5}
+        if M == N:
+            d[0][-1] = (N-1)/2.
+        k = np.arange(max(M, N), dtype=float)
+        e = -np.sqrt((k+1)*(k+2))/2
+        d[2] = e[:min(M, N-2)]
+        d[-2] = e[:min(M-2, N)].copy()
         return d
 
     def get_solver(self):
@@ -72,6 +74,9 @@ class AHHmat(SpectralMatrix):
     def matvec(self, v, c, format='cython', axis=0):
         N, M = self.shape
         c.fill(0)
+        if N != M:
+            return super(AHHmat, self).matvec(v, c, format='csr', axis=axis)
+
         if format == 'cython' and v.ndim == 3:
             ld = self[-2]*np.ones(M-2)
             cython.Matvec.Tridiagonal_matvec3D_ptr(v, c, ld, self[0], ld, axis)
diff --git a/shenfun/laguerre/matrices.py b/shenfun/laguerre/matrices.py
index f7f5d98..228f862 100644
--- a/shenfun/laguerre/matrices.py
+++ b/shenfun/laguerre/matrices.py
@@ -35,6 +35,8 @@ class BLLmat(SpectralMatrix):
             return b
 
     def matvec(self, v, c, format=None, axis=0):
+        if self.shape[0] != self.shape[1]:
+            return super(BLLmat, self).matvec(v, c, format=format, axis=axis)
         c[:] = v
         self.scale_array(c, self.scale*self[0])
         return c
diff --git a/shenfun/legendre/matrices.py b/shenfun/legendre/matrices.py
index a60c7cd..05f7d73 100644
--- a/shenfun/legendre/matrices.py
+++ b/shenfun/legendre/matrices.py
@@ -473,6 +473,8 @@ class CLLmat(SpectralMatrix):
 
     def matvec(self, v, c, format='self', axis=0):
         c.fill(0)
+        if self.shape[0] != self.shape[1]:
+            format = 'csr'
         if format == 'self':
             if axis > 0:
                 c = np.moveaxis(c, axis, 0)
@@ -509,7 +511,7 @@ class CLLmatT(SpectralMatrix):
         test, trial = self.testfunction, self.trialfunction
         assert isinstance(test[0], L)
         assert isinstance(trial[0], L)
-        N = trial[0].N
+        N = test[0].N
         self._keyscale = 1
         def _getkey(i):
             return 2*self._keyscale
-- 
2.43.0


From d9e65fbafb738fbf130a2a9a0ba38ae28a9e9724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:02 +0000
Subject: [PATCH 31/47] fix: get_unplanned and get_homogeneous lost
 communicator, axes, dtype and coordinates

---
 shenfun/tensorproductspace.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index 8147f99..277bc4c 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -613,7 +613,9 @@ class TensorProductSpace(PFFT):
         """
         bases = tuple([base.get_unplanned(**kwargs) for base in self.bases])
         if tensorproductspace:
-            return TensorProductSpace(comm, bases)
+            return TensorProductSpace(self.subcomm, bases, axes=self.axes,
+                                      dtype=self.dtype(),
+                                      coordinates=self.coors.coordinates)
         return bases
 
     def get_homogeneous(self, **kwargs):
@@ -627,7 +629,9 @@ class TensorProductSpace(PFFT):
 
         """
         bases = tuple([base.get_homogeneous(**kwargs) for base in self.bases])
-        return TensorProductSpace(comm, bases)
+        return TensorProductSpace(self.subcomm, bases, axes=self.axes,
+                                  dtype=self.dtype(),
+                                  coordinates=self.coors.coordinates)
 
     def dtype(self, forward_output=False):
         if hasattr(self, 'forward'):
-- 
2.43.0


From 902592984cd6e518b6526ab8b6cf057268e19635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:14 +0000
Subject: [PATCH 32/47] fix: SparseMatrix solves with outdated factorisation
 after changes to scale or diagonals

---
 shenfun/matrixbase.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index b884b0a..c3eb6de 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -80,9 +80,19 @@ class SparseMatrix(MutableMapping):
         self._storage = {si[0]: si[1] for si in sorted_dict}
         self.shape = shape
         self._diags = dia_matrix((1, 1))
+        self.solver = None
         self.scale = scale
         self._matvec_methods = []
-        self.solver = None
+
+    @property
+    def scale(self):
+        """Scalar multiple of matrix"""
+        return self._scale
+
+    @scale.setter
+    def scale(self, scale):
+        self._scale = scale
+        self.solver = None # A solver for the previous scale is outdated
 
     def matvec(self, v, c, format=None, axis=0):
         """Matrix vector product
@@ -190,9 +200,11 @@ class SparseMatrix(MutableMapping):
 
     def __delitem__(self, key):
         del self._storage[key]
+        self.solver = None # A solver for the previous data is outdated
 
     def __setitem__(self, key, val):
         self._storage[key] = val
+        self.solver = None
 
     def __iter__(self):
         return iter(self._storage)
@@ -367,12 +379,12 @@ class SparseMatrix(MutableMapping):
         return self.__deepcopy__()
 
     def __copy__(self):
-        if self.__class__.__name__ == 'Identity':
-            return self
+        if self.__class__.__name__ == 'Identity' and self.isidentity():
+            return Identity(self.shape, self.scale)
         return SparseMatrix(copy(dict(self)), self.shape, self.scale)
 
     def __deepcopy__(self, memo=None, _nil=[]):
-        if self.__class__.__name__ == 'Identity':
+        if self.__class__.__name__ == 'Identity' and self.isidentity():
             return Identity(self.shape, self.scale)
         return SparseMatrix(deepcopy(dict(self)), self.shape, self.scale)
 
@@ -400,11 +412,11 @@ class SparseMatrix(MutableMapping):
         """Modifies matrix such that self.scale = 1"""
         if abs(self.scale-1) < 1e-8:
             return
+        for key, val in self._storage.items():
+            if not hasattr(val, '__call__'): # callables are scaled by _keyscale
+                self[key] = val*self.scale
         if hasattr(self, '_keyscale'):
             self._keyscale *= self.scale
-        else:
-            for key, val in self.items():
-                self[key] = val*self.scale
         self.scale = 1
 
     def sorted_keys(self):
-- 
2.43.0


From 0a5e716fbef1358d09eeabd1e5f08882082c8b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:14 +0000
Subject: [PATCH 33/47] fix: in-place addition to SpectralMatrix kept
 specialised matvec and solver

---
 shenfun/matrixbase.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index c3eb6de..c099462 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -777,6 +777,14 @@ class SpectralMatrix(SparseMatrix):
         c = super(SpectralMatrix, self).matvec(v[tuple(ss)], c, format=format, axis=axis)
         return c
 
+    def __iadd__(self, d):
+        # Subclasses have methods tailored to the assembled diagonals. These
+        # do not apply to the sum, which is as such a regular SparseMatrix
+        return self + d
+
+    def __isub__(self, d):
+        return self - d
+
     @property
     def tensorproductspace(self):
         """Return the :class:`.TensorProductSpace` this matrix has been
-- 
2.43.0


From 79c69909a6f1bf93e6b4241df4db7be7c77827b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:15 +0000
Subject: [PATCH 34/47] fix: Identity ignored modified diagonal in solve and
 copies

---
 shenfun/matrixbase.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index c099462..521e7b7 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -842,6 +842,8 @@ class Identity(SparseMatrix):
         self.measure = 1
 
     def solve(self, b, u=None, axis=0, constraints=()):
+        if not self.isidentity(): # diagonals have been modified
+            return SparseMatrix.solve(self, b, u=u, axis=axis, constraints=constraints)
         if u is None:
             u = b
         else:
-- 
2.43.0


From 565f53865ec17759f9753c601aea56e23ec2aefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:15 +0000
Subject: [PATCH 35/47] fix: BlockMatrix in-place addition, mutation of source
 matrices and empty blocks

---
 shenfun/matrixbase.py | 66 +++++++++++++++++++++++++++----------------
 1 file changed, 41 insertions(+), 25 deletions(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 521e7b7..9f73c56 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -1040,13 +1040,17 @@ class BlockMatrix:
                     self.mats[i][j] = [m]
                 else:
                     found = False
-                    for n in m0:
-                        if m == n:
-                            n += m
-                            found = True
-                            continue
+                    if isinstance(m, TPMatrix):
+                        for k, n in enumerate(m0):
+                            if m == n:
+                                m0[k] = n + m # not in place, n may belong to others
+                                found = True
+                                break
                     if not found:
                         self.mats[i][j].append(m)
+        self._Ai = None     # Outdated
+        self.solver = None
+        return self
 
     def get_mats(self, return_first=False):
         """Return flattened list of matrices in self
@@ -1102,31 +1106,27 @@ class BlockMatrix:
         v = np.expand_dims(v, 0) if nvars == 1 else v
         c.v.fill(0)
         use_scipy = config['matrix']['block']['use_scipy'] if use_scipy is None else use_scipy
-        if self.contains_bc_matrix():
+        daxes = self.testbase.get_diagonal_axes()
+        if self.contains_bc_matrix() or len(daxes) == self.testbase.dimensions:
+            # Boundary matrices, or only Fourier
             use_scipy = False
 
         if use_scipy:
             self.assemble(format)
-            daxes = self.testbase.get_diagonal_axes()
-            if len(daxes) == self.testbase.dimensions:
-                # Only Fourier
-                assert isinstance(self._Ai, spmatrix)
-                c.flatten()[:] = self._Ai * v.flatten()
-            else:
+            if len(daxes) > 0:
+                daxes += 1
+            sl1, dims1 = self.trialbase._get_ndiag_slices_and_dims()
+            sl2, dims2 = self.testbase._get_ndiag_slices_and_dims()
+            gi = np.zeros(dims1[-1], dtype=v.dtype)
+            go = np.zeros(dims2[-1], dtype=v.dtype)
+            for key, val in self._Ai.items():
+                key = np.atleast_1d(key)
                 if len(daxes) > 0:
-                    daxes += 1
-                sl1, dims1 = self.trialbase._get_ndiag_slices_and_dims()
-                sl2, dims2 = self.testbase._get_ndiag_slices_and_dims()
-                gi = np.zeros(dims1[-1], dtype=v.dtype)
-                go = np.zeros(dims2[-1], dtype=v.dtype)
-                for key, val in self._Ai.items():
-                    key = np.atleast_1d(key)
-                    if len(daxes) > 0:
-                        sl1.T[daxes] = np.array(key)[:, None]
-                        sl2.T[daxes] = np.array(key)[:, None]
-                    gi = v.copy_to_flattened(gi, key, dims1, sl1)
-                    go[:] = val * gi
-                    c = c.copy_from_flattened(go, key, dims2, sl2)
+                    sl1.T[daxes] = np.array(key)[:, None]
+                    sl2.T[daxes] = np.array(key)[:, None]
+                gi = v.copy_to_flattened(gi, key, dims1, sl1)
+                go[:] = val * gi
+                c = c.copy_from_flattened(go, key, dims2, sl2)
 
         else:
             z = np.zeros_like(c.v[0])
@@ -1250,8 +1250,24 @@ class BlockMatrix:
                             sc = mj.scale[tuple(ij)]
                             d = d + sc*mj.mats[mj.naxes[0]].diags(format)
                     bm[-1].append(d)
+
+        if not self.contains_bc_matrix():
+            # Rows or columns without any matrix still have a size
+            rows, cols = self._get_block_dims(self.testbase), self._get_block_dims(self.trialbase)
+            for i, row in enumerate(bm):
+                if all(b is None for b in row):
+                    row[0] = csr_matrix((rows[i], cols[0]))
+            for j in range(len(cols)):
+                if all(row[j] is None for row in bm):
+                    bm[0][j] = csr_matrix((rows[0], cols[j]))
         return bmat(bm, format=format)
 
+    @staticmethod
+    def _get_block_dims(space):
+        if len(space.get_diagonal_axes()) == space.dimensions: # Only Fourier
+            return [s.dim() for s in space.flatten()]
+        return np.diff(space._get_ndiag_cum_dofs()).astype(int)
+
     def solve(self, b, u=None, constraints=()):
         r"""
         Solve matrix system Au = b
-- 
2.43.0


From 1bb68b35eee44f8286b1e98f0f7f6bea91f8b55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:15 +0000
Subject: [PATCH 36/47] fix: TPMatrix algebra lost or aliased scale and state

---
 shenfun/matrixbase.py | 55 +++++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 9f73c56..2a9409a 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -1358,7 +1358,7 @@ class TPMatrix:
                  testbase=None, trialbase=None):
         assert isinstance(mats, (list, tuple))
         assert len(mats) == len(testspace)
-        self.mats = mats
+        self.mats = list(mats)
         self.space = testspace
         self.trialspace = trialspace
         self.scale = scale
@@ -1369,6 +1369,18 @@ class TPMatrix:
         self.trialbase = trialbase
         self._issimplified = False
 
+    def _copy_with(self, mats, scale):
+        """Return new TPMatrix like self, with given matrices and scale"""
+        A = TPMatrix(mats, self.space, self.trialspace, scale,
+                     self.global_index, self.testbase, self.trialbase)
+        A._issimplified = self._issimplified
+        if self._issimplified:
+            if len(A.naxes) == 1:
+                A.pmat = A.mats[A.naxes[0]]
+            elif len(A.naxes) == 2:
+                A.pmat = A.mats
+        return A
+
     def get_simplified(self):
         diagonal_axes = np.setxor1d(self.naxes, range(self.space.dimensions)).astype(int)
         if len(diagonal_axes) == 0 or self._issimplified:
@@ -1379,9 +1391,9 @@ class TPMatrix:
         for axis in range(self.dimensions):
             mat = self.mats[axis]
             if axis in diagonal_axes:
-                d = mat[0]
+                d = mat[0]*mat.scale
                 if np.ndim(d):
-                    d = self.space[axis].broadcast_to_ndims(d*mat.scale)
+                    d = self.space[axis].broadcast_to_ndims(d)
                 scale = scale*d
                 mat = Identity(mat.shape)
             mats.append(mat)
@@ -1421,9 +1433,9 @@ class TPMatrix:
             if self.dimensions == 1: # Don't bother with the 1D case
                 continue
             else:
-                d = mat[0]    # get diagonal
+                d = mat[0]*mat.scale    # get diagonal
                 if np.ndim(d):
-                    d = self.space[axis].broadcast_to_ndims(d*mat.scale)
+                    d = self.space[axis].broadcast_to_ndims(d)
                 self.scale = self.scale*d
                 self.mats[axis] = Identity(mat.shape)
 
@@ -1520,7 +1532,7 @@ class TPMatrix:
             c *= tpmat.scale
             transAB.destroy()
             if newspace:
-                space.destroy()
+                space.destroy(False) # the communicators belong to tpmat.space
 
         return c
 
@@ -1549,8 +1561,7 @@ class TPMatrix:
     def __mul__(self, a):
         """Returns copy of self.__mul__(a) <==> self*a"""
         if isinstance(a, Number):
-            return TPMatrix(self.mats, self.space, self.trialspace, self.scale*a,
-                            self.global_index, self.testbase, self.trialbase)
+            return self._copy_with(self.mats, self.scale*a)
 
         assert isinstance(a, np.ndarray)
         c = np.empty_like(a)
@@ -1566,17 +1577,14 @@ class TPMatrix:
 
     def __imul__(self, a):
         """Returns self.__imul__(a) <==> self*=a"""
-        if isinstance(a, Number):
-            self.scale *= a
-        elif isinstance(a, np.ndarray):
+        if isinstance(a, (Number, np.ndarray)):
             self.scale = self.scale*a
         return self
 
     def __div__(self, a):
         """Returns copy self.__div__(a) <==> self/a"""
         if isinstance(a, Number):
-            return TPMatrix(self.mats, self.space, self.trialspace, self.scale/a,
-                            self.global_index, self.testbase, self.trialbase)
+            return self._copy_with(self.mats, self.scale/a)
         elif isinstance(a, np.ndarray):
             b = np.zeros_like(a)
             b = self.solve(a, b)
@@ -1586,9 +1594,7 @@ class TPMatrix:
 
     def __neg__(self):
         """self.__neg__() <==> -self"""
-        A = self.copy()
-        A.scale = self.scale*-1
-        return A
+        return self._copy_with(self.mats, self.scale*-1)
 
     def __eq__(self, a):
         """Check if matrices and global_index are the same.
@@ -1614,8 +1620,7 @@ class TPMatrix:
         """Return copy of self.__add__(a) <==> self+a"""
         assert isinstance(a, TPMatrix)
         assert self == a
-        return TPMatrix(self.mats, self.space, self.trialspace, self.scale+a.scale,
-                        self.global_index, self.testbase, self.trialbase)
+        return self._copy_with(self.mats, self.scale+a.scale)
 
     def __iadd__(self, a):
         """self.__iadd__(a) <==> self += a"""
@@ -1628,8 +1633,7 @@ class TPMatrix:
         """Return copy of self.__sub__(a) <==> self-a"""
         assert isinstance(a, TPMatrix)
         assert self == a
-        return TPMatrix(self.mats, self.space, self.trialspace, self.scale-a.scale,
-                        self.global_index, self.testbase, self.trialbase)
+        return self._copy_with(self.mats, self.scale-a.scale)
 
     def __isub__(self, a):
         """self.__isub__(a) <==> self -= a"""
@@ -1646,15 +1650,13 @@ class TPMatrix:
         mats = []
         for mat in self.mats:
             mats.append(mat.__copy__())
-        return TPMatrix(mats, self.space, self.trialspace, self.scale,
-                        self.global_index, self.testbase, self.trialbase)
+        return self._copy_with(mats, self.scale)
 
     def __deepcopy__(self, memo=None, _nil=[]):
         mats = []
         for mat in self.mats:
             mats.append(mat.__deepcopy__())
-        return TPMatrix(mats, self.space, self.trialspace, self.scale,
-                        self.global_index, self.testbase, self.trialbase)
+        return self._copy_with(mats, self.scale)
 
     def diags(self, format=None):
         assert self._issimplified is False
@@ -1712,10 +1714,11 @@ def get_simplified_tpmatrices(tpmats):
     B = [A[0]]
     for a in A[1:]:
         found = False
-        for b in B:
+        for i, b in enumerate(B):
             if a == b:
-                b += a
+                B[i] = b + a # not in place, b may belong to others
                 found = True
+                break
         if not found:
             B.append(a)
     return B
-- 
2.43.0


From fd24f6dfb780d3b0bfea03e55219827843e82cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:29 +0000
Subject: [PATCH 37/47] fix: specialised chebyshev matvecs for mass and
 derivative matrices with less than four rows

---
 shenfun/chebyshev/matrices.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/shenfun/chebyshev/matrices.py b/shenfun/chebyshev/matrices.py
index b786c21..50ccfc4 100644
--- a/shenfun/chebyshev/matrices.py
+++ b/shenfun/chebyshev/matrices.py
@@ -604,6 +604,8 @@ class BSBSDmat(SpectralMatrix):
         format = 'cython' if format is None else format
         c.fill(0)
         N = self.shape[0]
+        if min(self.shape) < 4: # too small for the optimized versions
+            format = 'csr'
         if format == 'self':
             if axis > 0:
                 v = np.moveaxis(v, axis, 0)
@@ -921,6 +923,8 @@ class CSBSDmat(SpectralMatrix):
         format = 'cython' if format is None else format
         N, M = self.shape
         c.fill(0)
+        if min(self.shape) < 4: # too small for the optimized versions
+            format = 'csr'
         if format == 'self':
             if axis > 0:
                 c = np.moveaxis(c, axis, 0)
@@ -972,6 +976,8 @@ class CSDSBmat(SpectralMatrix):
         format = 'cython' if format is None else format
         N, M = self.shape
         c.fill(0)
+        if min(self.shape) < 4: # too small for the optimized versions
+            format = 'csr'
         if format == 'self':
             if axis > 0:
                 c = np.moveaxis(c, axis, 0)
-- 
2.43.0


From f31465f3c4b871b2f63aafb09511939108e143c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:31 +0000
Subject: [PATCH 38/47] fix: constraints of a solver neither stick to later
 solves nor change the matrix given, and reach all solvers

---
 shenfun/la.py | 196 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 122 insertions(+), 74 deletions(-)

diff --git a/shenfun/la.py b/shenfun/la.py
index ecf8804..0a41e3a 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -63,6 +63,8 @@ class SparseMatrixSolver:
         self.mat = mats
         self._lu = None
         self._inner_arg = None # argument to inner_solve
+        self._mat0 = self.mat  # matrix without constraints
+        self._rows = ()        # constrained rows of current matrix
         self.dtype = None
         assert self.mat.shape[0] == self.mat.shape[1]
 
@@ -87,47 +89,38 @@ class SparseMatrixSolver:
             The axis we are solving over
         """
         # Only apply constraint to matrix first time around
-
+        self._set_constrained_rows(constraints)
         if len(constraints) > 0:
-            if b.ndim > 1:
-                T = b.function_space().bases[axis]
-
-            A = self.mat
-            if isinstance(A, spmatrix):
+            if self._lu is None:
+                A = self.mat
+                if isinstance(A, SparseMatrix):
+                    A = A.diags('csc')
+                A = A.tolil()
                 for (row, val) in constraints:
-                    if self._lu is None:
-                        A = A.tolil()
-                        _, zerorow = A[row].nonzero()
-                        A[(row, zerorow)] = 0
-                        A[row, row] = 1
-                        self.mat = A.tocsc()
-
-                    if b.ndim > 1:
-                        b[T.si[row]] = val
-                    else:
-                        b[row] = val
+                    _, zerorow = A[row].nonzero()
+                    A[(row, zerorow)] = 0
+                    A[row, row] = 1
+                self.mat = A.tocsc()
 
-            elif isinstance(A, SparseMatrix):
-                for (row, val) in constraints:
-                    if self._lu is None:
-                        for key, vals in A.items():
-                            if key >= 0:
-                                M = A.shape[0]-key
-                                v = np.broadcast_to(np.atleast_1d(vals), M).copy()
-                                if row < M:
-                                    v[row] = int(key == 0)/A.scale
-                            elif key < 0:
-                                M = A.shape[0]+key
-                                v = np.broadcast_to(np.atleast_1d(vals), M).copy()
-                                if row+key < M and row+key > 0:
-                                    v[row+key] = 0
-                            A[key] = v
-                    if b.ndim > 1:
-                        b[T.si[row]] = val
-                    else:
-                        b[row] = val
+            s = [slice(None)]*b.ndim
+            for (row, val) in constraints:
+                s[axis] = row
+                b[tuple(s)] = val
         return b
 
+    def _set_constrained_rows(self, constraints):
+        """Start over from the matrix without constraints if the solver has
+        been used with other constrained rows"""
+        rows = tuple(con[0] for con in constraints)
+        if rows != self._rows:
+            self._rows = rows
+            self._reset()
+
+    def _reset(self):
+        self.mat = self._mat0
+        self._lu = None
+        self._inner_arg = None
+
     def perform_lu(self):
         if self._lu is None:
             if isinstance(self.mat, SparseMatrix):
@@ -253,6 +246,10 @@ class BandedMatrixSolver(SparseMatrixSolver):
         SparseMatrixSolver.__init__(self, mats)
         self._lu = self.mat.diags('dia')
 
+    def _reset(self):
+        self._lu = self.mat.diags('dia')
+        self._inner_arg = None
+
     def solve(self, b, u, axis, lu):
         if u is not b:
             sl = u.function_space().slice() if hasattr(u, 'function_space') else slice(None)
@@ -299,12 +296,13 @@ class DiagMA(BandedMatrixSolver):
     def __init__(self, mats):
         BandedMatrixSolver.__init__(self, mats)
         self.issymmetric = True
-        self._inner_arg = self._lu.data
 
     def perform_lu(self):
+        self._inner_arg = self._lu.data
         return self._lu
 
     def apply_constraints(self, b, constraints, axis=0):
+        self._set_constrained_rows(constraints)
         if len(constraints) > 0:
             assert len(constraints) == 1
             assert constraints[0][0] == 0, 'Can only fix first row'
@@ -353,6 +351,7 @@ class TDMA(BandedMatrixSolver):
             d[i] = d[i] - ld[i-2]*ud[i-2]
 
     def apply_constraints(self, b, constraints, axis=0):
+        self._set_constrained_rows(constraints)
         if len(constraints) > 0:
             assert len(constraints) == 1
             assert constraints[0][0] == 0, 'Can only fix first row of TDMA'
@@ -407,6 +406,19 @@ class TDMA_O(BandedMatrixSolver):
     def __init__(self, mats):
         BandedMatrixSolver.__init__(self, mats)
 
+    def apply_constraints(self, b, constraints, axis=0):
+        self._set_constrained_rows(constraints)
+        if len(constraints) > 0:
+            assert len(constraints) == 1
+            assert constraints[0][0] == 0, 'Can only fix first row of TDMA_O'
+            if self._inner_arg is None:
+                self._lu.data[1, 0] = 1
+                self._lu.data[2, 1] = 0
+            s = [slice(None)]*len(b.shape)
+            s[axis] = 0
+            b[tuple(s)] = constraints[0][1]
+        return b
+
     def perform_lu(self):
         if self._inner_arg is None:
             self.LU(self._lu.data)
@@ -462,6 +474,7 @@ class PDMA(BandedMatrixSolver):
         assert len(self.mat) == 5
 
     def apply_constraints(self, b, constraints, axis=0):
+        self._set_constrained_rows(constraints)
         if len(constraints) > 0:
             assert len(constraints) == 1
             assert constraints[0][0] == 0, 'Can only fix first row of PDMA'
@@ -474,7 +487,6 @@ class PDMA(BandedMatrixSolver):
                 b[tuple(s)] = constraints[0][1]
             else:
                 b[0] = constraints[0][1]
-            self._inner_arg = self._lu.data
         return b
 
     @staticmethod
@@ -576,6 +588,7 @@ class FDMA(BandedMatrixSolver):
                 u1[i] = u1[i] - ld[i-2]*u2[i-2]
 
     def apply_constraints(self, b, constraints, axis=0):
+        self._set_constrained_rows(constraints)
         if len(constraints) > 0:
             assert len(constraints) == 1
             assert constraints[0][0] == 0, 'Can only fix first row of FDMA'
@@ -623,9 +636,9 @@ class TwoDMA(BandedMatrixSolver):
     """
     def __init__(self, mats):
         BandedMatrixSolver.__init__(self, mats)
-        self._inner_arg = self._lu.data
 
     def apply_constraints(self, b, constraints, axis=0):
+        self._set_constrained_rows(constraints)
         if len(constraints) > 0:
             assert len(constraints) == 1
             assert constraints[0][0] == 0, 'Can only fix first row of TwoDMA'
@@ -637,6 +650,7 @@ class TwoDMA(BandedMatrixSolver):
         return b
 
     def perform_lu(self):
+        self._inner_arg = self._lu.data
         return self._lu
 
     @staticmethod
@@ -669,9 +683,9 @@ class ThreeDMA(BandedMatrixSolver):
     """
     def __init__(self, mats):
         BandedMatrixSolver.__init__(self, mats)
-        self._inner_arg = self._lu.data
 
     def apply_constraints(self, b, constraints, axis=0):
+        self._set_constrained_rows(constraints)
         if len(constraints) > 0:
             assert len(constraints) == 1
             assert constraints[0][0] == 0, 'Can only fix first row of TwoDMA'
@@ -684,6 +698,7 @@ class ThreeDMA(BandedMatrixSolver):
         return b
 
     def perform_lu(self):
+        self._inner_arg = self._lu.data
         return self._lu
 
     @staticmethod
@@ -723,6 +738,7 @@ class HeptaDMA(BandedMatrixSolver):
         assert len(self.mat) == 7
 
     def apply_constraints(self, b, constraints, axis=0):
+        self._set_constrained_rows(constraints)
         if len(constraints) > 0:
             assert len(constraints) == 1
             assert constraints[0][0] == 0, 'Can only fix first row of HeptaDMA'
@@ -737,7 +753,6 @@ class HeptaDMA(BandedMatrixSolver):
                 b[tuple(s)] = constraints[0][1]
             else:
                 b[0] = constraints[0][1]
-            self._inner_arg = self._lu.data
         return b
 
     @staticmethod
@@ -841,7 +856,7 @@ class Solve(SparseMatrixSolver):
     def __init__(self, mats, format=None):
         format = config['matrix']['sparse']['solve'] if format is None else format
         SparseMatrixSolver.__init__(self, mats)
-        self.mat = self.mat.diags(format)
+        self.mat = self._mat0 = self.mat.diags(format)
 
 class SolverGeneric2ND:
     """Generic solver for problems consisting of tensorproduct matrices
@@ -866,6 +881,8 @@ class SolverGeneric2ND:
         self.T = tpmats[0].space
         self.mats2D = {}
         self._lu = None
+        self._mat0 = None # matrix for Fourier index 0 without constraints
+        self._rows = ()   # constrained rows of current matrix
 
     def matvec(self, u, c):
         c.fill(0)
@@ -921,20 +938,33 @@ class SolverGeneric2ND:
         self.mats2D[i] = M0
         return M0
 
+    def _owns_zero_mode(self):
+        if self.tpmats[0].dimensions == 2:
+            return True
+        return self.T.local_slice()[self.get_diagonal_axis()].start == 0
+
+    def _set_constrained_rows(self, constraints):
+        """Constrain rows of the matrix for Fourier index 0"""
+        rows = tuple(con[0] for con in constraints)
+        if rows == self._rows or not self._owns_zero_mode():
+            return
+        if self._mat0 is None:
+            self._mat0 = self.mats2D[0]
+        self._rows = rows
+        A = self._mat0.tolil()
+        for row in rows:
+            _, zerorow = A[row].nonzero()
+            A[(row, zerorow)] = 0
+            A[row, row] = 1
+        self.mats2D[0] = A.tocsc()
+        if self._lu is not None:
+            self._lu[0] = splu(self.mats2D[0], permc_spec=config['matrix']['sparse']['permc_spec'])
+
     def apply_constraints(self, b, constraints):
-        if len(constraints) > 0:
-            if self._lu is None:
-                A = self.mats2D[0]
-                A = A.tolil()
-                for (row, val) in constraints:
-                    _, zerorow = A[row].nonzero()
-                    A[(row, zerorow)] = 0
-                    A[row, row] = 1
-                    b[row] = val
-                self.mats2D[0] = A.tocsc()
-            else:
-                for (row, val) in constraints:
-                    b[row] = val
+        """Apply constraints to the flattened right hand side for Fourier index 0"""
+        if self._owns_zero_mode():
+            for (row, val) in constraints:
+                b[row] = val
         return b
 
     def assemble(self):
@@ -989,13 +1019,13 @@ class SolverGeneric2ND:
 
         mats = self.assemble()
 
-        b = self.apply_constraints(b, constraints)
+        self._set_constrained_rows(constraints)
 
         lu = self.perform_lu()
 
         if u.ndim == 2:
             s0 = self.T.slice()
-            bs = b[s0].flatten()
+            bs = self.apply_constraints(b[s0].flatten(), constraints)
             if b.dtype.char in 'fdg' or self.mats2D[0].dtype.char in 'FDG':
                 u[s0] = lu[0].solve(bs).reshape(self.T.dims())
             else:
@@ -1009,6 +1039,8 @@ class SolverGeneric2ND:
             for i in range(self.T.shape(True)[diagonal_axis]):
                 s0[diagonal_axis] = i
                 bs = b[tuple(s0)].flatten()
+                if i == 0:
+                    bs = self.apply_constraints(bs, constraints)
                 shape = np.take(self.T.dims(), naxes)
                 if b.dtype.char in 'fdg' or self.mats2D[0].dtype.char in 'FDG':
                     u[tuple(s0)] = lu[i].solve(bs).reshape(shape)
@@ -1076,7 +1108,8 @@ class Solver2D:
         mat = m.diags(format='csc')
         for m in tpmats[1:]:
             mat = mat + m.diags('csc')
-        self.mat = mat
+        self.mat = self._mat0 = mat
+        self._rows = () # constrained rows of self.mat
 
     def matvec(self, u, c):
         c.fill(0)
@@ -1124,7 +1157,13 @@ class Solver2D:
         assert b.dtype.char == u.dtype.char
 
         bs = b[s0].flatten()
-        self.mat, bs = self.apply_constraints(self.mat, bs, constraints)
+        rows = tuple(con[0] for con in constraints)
+        if rows != self._rows:
+            self.mat, bs = self.apply_constraints(self._mat0, bs, constraints)
+            self._rows = rows
+            self._lu = None
+        for (row, val) in constraints:
+            bs[row] = val
         if self._lu is None:
             self._lu = splu(self.mat, permc_spec=config['matrix']['sparse']['permc_spec'])
 
@@ -1266,22 +1305,23 @@ class SolverGeneric1ND:
         #The SolverGeneric1ND solver can only constrain the first dofs of
         #the diagonal axes. For Fourier this is the zero dof with the
         #constant basis function exp(0).
-        if constraints == ():
+        if not self._owns_zero_mode():
             return b
         ndim = self.mats[0].dimensions
-        space = self.mats[0].space
-        z0 = space.local_slice()
-        paxes = np.setxor1d(range(ndim), self.naxes)
         s = [0]*ndim
         s[self.naxes] = slice(None)
         s = tuple(s)
-        is_rank_zero = np.array([z0[i].start for i in paxes]).prod()
         sol = self.solvers1D[0] if ndim == 2 else self.solvers1D[0][0]
-        if is_rank_zero != 0:
-            return b
         sol.apply_constraints(b[s], constraints)
+        if self._lu is True and sol._inner_arg is None:
+            sol.perform_lu() # constrained rows have changed
         return b
 
+    def _owns_zero_mode(self):
+        """Return True if zero wavenumber is found on this processor"""
+        z0 = self.mats[0].space.local_slice()
+        return all(z0[i].start == 0 for i in range(self.mats[0].dimensions) if i != self.naxes)
+
     def perform_lu(self):
         if self._lu is True:
             return
@@ -1351,7 +1391,7 @@ class SolverGeneric1ND:
         # All other wavenumbers we assume have the same solver
         sol0 = solvers1D[0] if u.ndim == 2 else solvers1D[0][0]
         sol1 = solvers1D[-1] if u.ndim == 2 else solvers1D[-1][-1]
-        is_rank_zero = comm.Get_rank() == 0
+        is_rank_zero = self._owns_zero_mode()
 
         if is_rank_zero:
             s = [0]*u.ndim
@@ -1438,6 +1478,7 @@ class BlockMatrixSolver:
         assert isinstance(mats, (BlockMatrix, list))
         self.bc_mat = None
         self._lu = None
+        self._rows = () # constrained rows
         if isinstance(mats, BlockMatrix):
             mats = mats.get_mats()
         bc_mats = extract_bc_matrices([mats])
@@ -1493,8 +1534,10 @@ class BlockMatrixSolver:
             assert isinstance(con[1], Integral)
             assert isinstance(con[2], Number)
         self.mat.assemble()
-        if self._lu is None:
+        rows = tuple(con[:2] for con in constraints)
+        if self._lu is None or rows != self._rows:
             self._lu = {}
+            self._rows = rows
 
         daxes = space.get_diagonal_axes()
         if len(daxes) == space.dimensions:
@@ -1502,15 +1545,20 @@ class BlockMatrixSolver:
             assert len(daxes) == space.dimensions
             Ai = self.mat._Ai[0]
             gi = b.flatten()
-            if isinstance(self._lu, dict):
+            size = int(np.prod(b.shape[1:]))
+            if 0 in self._lu:
                 for con in constraints:
-                    Ai, gi = self.apply_constraint(Ai, gi, int(np.sum(np.array(space.dims()[:con[0]]))), 0, con)
+                    _, gi = self.apply_constraint(None, gi, con[0]*size, 0, con)
             else:
                 for con in constraints:
-                    _, gi = self.apply_constraint(None, gi, int(np.sum(np.array(space.dims()[:con[0]]))), 0, con)
-            lu = sp.linalg.splu(Ai, permc_spec=config['matrix']['block']['permc_spec'])
-            self._lu = lu
-            u[:] = lu.solve(gi).reshape(u.shape)
+                    Ai, gi = self.apply_constraint(Ai, gi, con[0]*size, 0, con)
+                self._lu[0] = sp.linalg.splu(Ai, permc_spec=config['matrix']['block']['permc_spec'])
+            lu = self._lu[0]
+            if b.dtype.char in 'fdg' or lu.U.dtype.char in 'FDG':
+                u[:] = lu.solve(gi).reshape(u.shape)
+            else:
+                u.real = lu.solve(gi.real).reshape(u.shape)
+                u.imag = lu.solve(gi.imag).reshape(u.shape)
 
         else:
             sl, dims = space._get_ndiag_slices_and_dims()
-- 
2.43.0


From c355f87651035229b3b07a065b960ea4524846f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:31 +0000
Subject: [PATCH 39/47] fix: diagonal mass matrix solvers honour scale and
 refuse unsupported constraints; Fourier odd derivatives solve without NaN

---
 shenfun/chebyshev/matrices.py | 10 +++++-----
 shenfun/fourier/matrices.py   | 11 +++--------
 shenfun/hermite/matrices.py   |  1 +
 shenfun/laguerre/matrices.py  |  1 +
 4 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/shenfun/chebyshev/matrices.py b/shenfun/chebyshev/matrices.py
index 50ccfc4..4319d55 100644
--- a/shenfun/chebyshev/matrices.py
+++ b/shenfun/chebyshev/matrices.py
@@ -158,15 +158,15 @@ class BTTmat(SpectralMatrix):
 
         """
         assert constraints == ()
+        if self.shape[0] != self.shape[1]:
+            return super(BTTmat, self).solve(b, u=u, axis=axis)
         if u is None:
             u = b
         else:
             u[:] = b
-        space = self.testfunction[0]
-        u *= (2/np.pi*space.domain_factor())
-        u[space.si[0]] /= 2
-        if space.quad == 'GL':
-            u[space.si[-1]] /= 2
+        s = [np.newaxis]*u.ndim
+        s[axis] = slice(None)
+        u /= (self.scale*self[0])[tuple(s)]
         return u
 
 class BTLmat(SpectralMatrix):
diff --git a/shenfun/fourier/matrices.py b/shenfun/fourier/matrices.py
index 9f8f54d..b46dd1b 100644
--- a/shenfun/fourier/matrices.py
+++ b/shenfun/fourier/matrices.py
@@ -180,25 +180,20 @@ class FourierMatrix(SpectralMatrix):
 
     def solve(self, b, u=None, axis=0, constraints=()):
         if self.measure == 1:
-            N = self.shape[0]
 
             if u is None:
                 u = b
             else:
                 assert u.shape == b.shape
 
-            with np.errstate(divide='ignore'):
-                d = 1./self[0]
+            d = self[0]
             if isinstance(d, np.ndarray):
-                if np.isinf(d[0]):
-                    d[0] = 0
-                if np.isinf(d[N//2]):
-                    d[N//2] = 0
+                d = np.divide(1., d, out=np.zeros_like(d), where=d != 0)
                 sl = [np.newaxis]*u.ndim
                 sl[axis] = slice(None)
                 u[:] = b*d[tuple(sl)]
             else:
-                u[:] = b*d
+                u[:] = b*(1./d)
 
             u /= self.scale
             return u
diff --git a/shenfun/hermite/matrices.py b/shenfun/hermite/matrices.py
index 266719e..bdf3466 100644
--- a/shenfun/hermite/matrices.py
+++ b/shenfun/hermite/matrices.py
@@ -25,6 +25,7 @@ class BHHmat(SpectralMatrix):
         return {0: 1}
 
     def solve(self, b, u=None, axis=0, constraints=()):
+        assert len(constraints) == 0
         if u is not None:
             u[:] = b
             u /= (self.scale*self[0])
diff --git a/shenfun/laguerre/matrices.py b/shenfun/laguerre/matrices.py
index 228f862..fe0f1d9 100644
--- a/shenfun/laguerre/matrices.py
+++ b/shenfun/laguerre/matrices.py
@@ -25,6 +25,7 @@ class BLLmat(SpectralMatrix):
         return {0: 1}
 
     def solve(self, b, u=None, axis=0, constraints=()):
+        assert len(constraints) == 0
         if u is not None:
             u[:] = b
             u /= (self.scale*self[0])
-- 
2.43.0


From 01d9eb9840e7175b9bddce460c9fb242078e2531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:31 +0000
Subject: [PATCH 40/47] fix: TPMatrix.matvec with more than two non-periodic
 directions

---
 shenfun/matrixbase.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 2a9409a..48dc80a 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -1534,6 +1534,15 @@ class TPMatrix:
             if newspace:
                 space.destroy(False) # the communicators belong to tpmat.space
 
+        else:
+            # More than 2 non-periodic directions (serial only)
+            assert np.all([s.Get_size() == 1 for s in tpmat.space.subcomm])
+            w0 = np.asarray(v[tpmat.global_index[1]] if getattr(v, 'rank', 0) > 0 else v)
+            for axis in tpmat.naxes:
+                w1 = np.zeros(c.shape, dtype=c.dtype)
+                w0 = tpmat.mats[axis].matvec(w0, w1, format=format, axis=axis)
+            c[:] = w0*tpmat.scale
+
         return c
 
     def get_key(self):
-- 
2.43.0


From dab34c0ffa597afda15d37573563459d33cb834f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:31 +0000
Subject: [PATCH 41/47] fix: 1D Helmholtz solver with current numpy

---
 shenfun/optimization/cython/la.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shenfun/optimization/cython/la.pyx b/shenfun/optimization/cython/la.pyx
index 3bb2e93..f57ae99 100644
--- a/shenfun/optimization/cython/la.pyx
+++ b/shenfun/optimization/cython/la.pyx
@@ -708,7 +708,7 @@ cdef void Poisson_Solve_ADD_1D_ptr(double* d,
 def LU_Helmholtz(A, B, A_s, B_s, neumann, d0, d1, d2, L, axis):
     n = d0.ndim
     if n == 1:
-        LU_Helmholtz_1D(A, B, A_s, B_s, neumann, d0, d1, d2, L)
+        LU_Helmholtz_1D(A, B, np.asarray(A_s).item(), np.asarray(B_s).item(), neumann, d0, d1, d2, L)
     elif n == 2:
         LU_Helmholtz_2D(A, B, axis, A_s, B_s, neumann, d0, d1, d2, L)
     elif n == 3:
-- 
2.43.0


From 498a4aa8bb3edcae5b5104d490a614d321d4807b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:31 +0000
Subject: [PATCH 42/47] fix: tailored Biharmonic for odd or few unknowns,
 Helmholtz/Biharmonic leave the scale of given matrices alone, constraints of
 optimized Poisson solvers

---
 shenfun/chebyshev/la.py | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/shenfun/chebyshev/la.py b/shenfun/chebyshev/la.py
index 1b18caf..f86bb75 100644
--- a/shenfun/chebyshev/la.py
+++ b/shenfun/chebyshev/la.py
@@ -3,7 +3,7 @@
 from copy import copy
 import numpy as np
 from shenfun.optimization import runtimeoptimizer
-from shenfun.la import SparseMatrixSolver
+from shenfun.la import SparseMatrixSolver, Solver, SolverGeneric1ND
 from shenfun.matrixbase import TPMatrix, SpectralMatrix, extract_bc_matrices,\
     get_simplified_tpmatrices
 
@@ -15,12 +15,17 @@ class ADDSolver(SparseMatrixSolver):
         #assert self.bc_mats == []
 
     def solve(self, b, u, axis, lu):
+        if len(self._rows) > 0:
+            return SparseMatrixSolver.solve(self, b, u, axis, lu)
         if u is not b:
             u[:] = b
         self.Poisson_Solve_ADD(self.mat, b, u, axis=axis)
         return u
 
     def perform_lu(self):
+        if len(self._rows) > 0:
+            # The optimized solver is only for the matrix without constraints
+            return SparseMatrixSolver.perform_lu(self)
         return 1
 
     @staticmethod
@@ -243,8 +248,8 @@ class Helmholtz:
             if isinstance(self.A, TPMatrix):
                 self.A = self.A.pmat
                 self.B = self.B.pmat
-                self.alfa *= self.A.scale
-                self.beta *= self.B.scale
+                self.alfa = self.alfa*self.A.scale
+                self.beta = self.beta*self.B.scale
         elif len(args) == 4:
             self.alfa = args[2]
             self.beta = args[3]
@@ -309,8 +314,8 @@ class Helmholtz:
         if constraints != ():
             z0 = self.T.local_slice()
             paxes = np.setxor1d(range(u.ndim), self.axis)
-            is_rank_zero = np.array([z0[i].start for i in paxes]).prod()
-            if is_rank_zero == 0:
+            is_rank_zero = np.all([z0[i].start == 0 for i in paxes])
+            if is_rank_zero:
                 assert len(constraints) == 1
                 s = [0]*u.ndim
                 u[tuple(s)] = constraints[0][1]
@@ -455,6 +460,15 @@ class Biharmonic:
         assert len(args) in (3, 6)
 
         S, A, B = args[:3]
+        n = (S.pmat if isinstance(S, TPMatrix) else S).shape[0]
+        self._generic = None
+        if n % 2 == 1 or n < 10:
+            # The tailored algorithm splits the unknowns in odd and even parts
+            # of the same size, with at least 5 unknowns in each
+            assert len(args) == 3, 'Biharmonic needs an even number (>=10) of unknowns'
+            mats = list(args) + list(self.bc_mats)
+            self._generic = SolverGeneric1ND(mats) if isinstance(S, TPMatrix) else Solver(mats)
+            return
         M = {d.get_key(): d for d in (S, A, B)}
         self.S = M['SSBSBmat']
         self.A = M['ASBSBmat']
@@ -468,8 +482,8 @@ class Biharmonic:
                 self.S = self.S.pmat
                 self.A = self.A.pmat
                 self.B = self.B.pmat
-                self.alfa *= self.A.scale
-                self.beta *= self.B.scale
+                self.alfa = self.alfa*self.A.scale
+                self.beta = self.beta*self.B.scale
         elif len(args) == 6:
             self.a0 = a0 = np.atleast_1d(args[3]).item()
             self.alfa = alfa = args[4]
@@ -539,6 +553,9 @@ class Biharmonic:
         determined on creation of the class.
 
         """
+        if self._generic is not None:
+            return self._generic(b, u)
+
         if len(self.bc_mats) > 0:
             u.set_boundary_dofs()
             w0 = np.zeros_like(u)
@@ -551,6 +568,12 @@ class Biharmonic:
 
     def matvec(self, v, c):
         c[:] = 0
+        if self._generic is not None:
+            w0 = np.zeros_like(c)
+            for mat in self.tpmats:
+                c += mat.matvec(v, w0)
+            return c
+
         self.Biharmonic_matvec(v, c, self.a0, self.alfa, self.beta, self.S[0],
                                self.S[2], self.S[4], self.A[-2], self.A[0],
                                self.A[2], self.B[-4], self.B[-2], self.B[0],
-- 
2.43.0


From a24d857ac27d10b6a3f34c35be9218a8d7f029d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:17 +0000
Subject: [PATCH 43/47] fix: banded solvers for arrays of more than three
 dimensions

---
 shenfun/la.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/shenfun/la.py b/shenfun/la.py
index 0a41e3a..3214fc3 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -254,6 +254,14 @@ class BandedMatrixSolver(SparseMatrixSolver):
         if u is not b:
             sl = u.function_space().slice() if hasattr(u, 'function_space') else slice(None)
             u[sl] = b[sl]
+        if u.ndim > 3:
+            # The optimized solvers are implemented for up to 3 dimensions
+            shape = u.shape
+            v = np.asarray(u).reshape((int(np.prod(shape[:axis])), shape[axis], int(np.prod(shape[axis+1:]))))
+            self.Solve(v, lu.data, 1)
+            if not np.shares_memory(v, u):
+                u[...] = v.reshape(shape)
+            return u
         self.Solve(u, lu.data, axis)
         return u
 
-- 
2.43.0


From fb0976fb1af039c4534c3d163f48d64d0dbe20d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:53 +0000
Subject: [PATCH 44/47] fix: checkpoints replace the previous one only when
 complete, and keep the previous run's

---
 shenfun/io/__init__.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/shenfun/io/__init__.py b/shenfun/io/__init__.py
index 3956dbb..5e63b27 100644
--- a/shenfun/io/__init__.py
+++ b/shenfun/io/__init__.py
@@ -1,5 +1,6 @@
 import sys
 import os
+import shutil
 import numpy as np
 from mpi4py import MPI
 from mpi4py_fft.io import NCFile, HDF5File
@@ -58,37 +59,45 @@ class Checkpoint:
     integrator. Note that checkpoint is storing results from spectral space.
 
     """
-    def __init__(self, filename, checkevery=10, data={}):
+    def __init__(self, filename, checkevery=10, data=None):
         self.f = None
         self.filename = filename
-        self.data = data
+        self.data = {} if data is None else data
         self.checkevery = checkevery
 
     def open(self, mode='r+'):
+        self._open(self.filename+'.chk.h5', mode)
+
+    def _open(self, filename, mode):
         import h5py
-        self.f = h5py.File(self.filename+'.chk.h5', mode, driver="mpio", comm=comm)
+        self.f = h5py.File(filename, mode, driver="mpio", comm=comm)
 
     def close(self):
         if self.f:
             self.f.close()
 
     def update(self, t, tstep):
-        if self.f is None:
-            self.open(mode='w')
-            self.f.attrs.create('tstep', 0)
-            self.f.attrs.create('t', 0.0)
-            self.close()
-
         kill = self.check_if_kill()
         if tstep % self.checkevery == 0 or kill:
-            if comm.Get_rank() == 0: # for safety
-                os.system(f'cp {self.filename}.chk.h5 {self.filename}.old.chk.h5')
-            self.open()
+            # Write to a temporary file that replaces the checkpoint when it is
+            # complete, such that an interruption never leaves partial data.
+            chk, old, tmp = (f'{self.filename}{s}.chk.h5' for s in ('', '.old', '.tmp'))
+            new = self.f is None # Nothing read or written yet, so start afresh
+            if comm.Get_rank() == 0 and not new:
+                shutil.copyfile(chk, tmp)
+            comm.barrier()
+            self._open(tmp, 'w' if new else 'r+')
             for key, val in self.data.items():
                 self.write(int(key), val)
             self.f.attrs['tstep'] = tstep
             self.f.attrs['t'] = t
             self.close()
+            comm.barrier()
+            if comm.Get_rank() == 0:
+                if os.path.exists(chk): # for safety
+                    os.replace(chk, old)
+                os.replace(tmp, chk)
+            comm.barrier()
             if kill:
                 sys.exit(1)
 
-- 
2.43.0


From 243e1e490e686a4ebd7f0a9b6e621e5190e0e484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:53 +0000
Subject: [PATCH 45/47] fix: padded work array follows the padding factor,
 convolution of tensor spaces, cached dealiased spaces, Convolve

---
 shenfun/forms/arguments.py    |  6 ++++--
 shenfun/tensorproductspace.py | 36 ++++++++++++++++++-----------------
 2 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/shenfun/forms/arguments.py b/shenfun/forms/arguments.py
index 3a0ad05..207def6 100644
--- a/shenfun/forms/arguments.py
+++ b/shenfun/forms/arguments.py
@@ -1623,17 +1623,19 @@ class Function(ShenfunBaseArray, BasisFunction):
         if padding_factor is not None and padding_factor != 1:
             space = self.get_dealiased_space(padding_factor)
             if output_array is not None:
-                assert output_array.shape == space.shape(False)
+                assert output_array.shape == tuple(np.atleast_1d(space.shape(False)))
             else:
                 # Create a work array that can be reused
                 # Note that the output_array is not the same shape as
                 # space.backward.output_array for spaces of rank > 0.
                 # Also, it is probably not safe to return space.backward.output_array
-                if hasattr(self, '_backward_work_array'):
+                key = tuple(np.atleast_1d(padding_factor))
+                if getattr(self, '_backward_work_key', None) == key:
                     output_array = self._backward_work_array
                 else:
                     output_array = Array(space)
                     self._backward_work_array = output_array
+                    self._backward_work_key = key
             output_array = space.backward(self, output_array, kind=kind, mesh=mesh)
             return output_array
 
diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index 277bc4c..fe6bc77 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -494,10 +494,10 @@ class TensorProductSpace(PFFT):
         self.subcomm = pencil.subcomm
         subshape = list(pencil.subshape)
         if isinstance(xfftn, R2C):
-            subshape[axes[-1]] = int(np.floor(xfftn.N*xfftn.padding_factor))
+            subshape[axes[-1]] = int(np.round(xfftn.N*xfftn.padding_factor))
             dtype = np.dtype(dtype.char.lower())
         else:
-            subshape[axes[-1]] = int(np.floor(subshape[axes[-1]]*xfftn.padding_factor))
+            subshape[axes[-1]] = int(np.round(subshape[axes[-1]]*xfftn.padding_factor))
         self.xfftn[-1].plan(subshape, axes, dtype, kw)
         if not (shape[axes[-1]] == self.xfftn[-1].forward.input_array.shape[axes[-1]] and
                 self.xfftn[-1].forward.input_array.dtype == self.xfftn[-1].forward.output_array.dtype):
@@ -511,10 +511,10 @@ class TensorProductSpace(PFFT):
             xfftn = self.bases[axes[-1]]
             subshape = list(pencilB.subshape)
             if isinstance(xfftn, R2C):
-                subshape[axes[-1]] = int(np.floor(xfftn.N*xfftn.padding_factor))
+                subshape[axes[-1]] = int(np.round(xfftn.N*xfftn.padding_factor))
                 dtype = np.dtype(dtype.char.lower())
             else:
-                subshape[axes[-1]] = int(np.floor(subshape[axes[-1]]*xfftn.padding_factor))
+                subshape[axes[-1]] = int(np.round(subshape[axes[-1]]*xfftn.padding_factor))
             xfftn.plan(subshape, axes, dtype, kw)
             self.xfftn.append(xfftn)
             self.transfer.append(transBA)
@@ -558,10 +558,11 @@ class TensorProductSpace(PFFT):
             padding_factor = (padding_factor,)*len(self)
         elif isinstance(padding_factor, (tuple, list, np.ndarray)):
             assert len(padding_factor) == len(self)
-        
-        if padding_factor in self._padded_space:
-            return self._padded_space[padding_factor]
-        
+
+        key = (tuple(padding_factor), dealias_direct)
+        if key in self._padded_space:
+            return self._padded_space[key]
+
         padded_bases = [base.get_dealiased(padding_factor=padding_factor[axis],
                                            dealias_direct=dealias_direct)
                         for axis, base in enumerate(self.bases)]
@@ -574,7 +575,7 @@ class TensorProductSpace(PFFT):
                                          dtype=self.forward.output_array.dtype,
                                          backward_from_pencil=self.forward.output_pencil,
                                          coordinates=self.coors.coordinates)
-        self._padded_space[padding_factor] = paddedspace
+        self._padded_space[key] = paddedspace
         return paddedspace
 
     def get_refined(self, N):
@@ -1446,8 +1447,8 @@ class CompositeSpace:
         FIXME Efficiency due to allocation
         """
         N = list(self.backward.output_array.shape)
-        a = np.zeros([self.dimensions]+N, dtype=self.backward.output_array.dtype)
-        b = np.zeros([self.dimensions]+N, dtype=self.backward.output_array.dtype)
+        a = np.zeros([self.num_components()]+N, dtype=self.backward.output_array.dtype)
+        b = np.zeros([self.num_components()]+N, dtype=self.backward.output_array.dtype)
         a = self.backward(a_hat, a)
         b = self.backward(b_hat, b)
         ab_hat = self.forward(a*b, ab_hat)
@@ -1827,15 +1828,16 @@ class Convolve:
 
     def __init__(self, padding_space):
         self.padding_space = padding_space
-        shape = padding_space.shape()
+        shape = padding_space.global_shape(False)
         bases = []
         for i, base in enumerate(padding_space.bases):
-            newbase = base.__class__(shape[i], padding_factor=1.0)
+            newbase = base.get_refined(shape[i], padding_factor=1)
             bases.append(newbase)
         axes = []
         for axis in padding_space.axes:
             axes.append(axis[0])
-        newspace = TensorProductSpace(padding_space.comm, bases, axes=axes)
+        newspace = TensorProductSpace(padding_space.comm, bases, axes=axes,
+                                      dtype=padding_space.forward.input_array.dtype)
         self.newspace = newspace
 
     def __call__(self, a_hat, b_hat, ab_hat=None):
@@ -1977,7 +1979,7 @@ class BoundaryValues:
                         Yi.append(X[k][this_base.si[j]])
                     f_bci = lbci(*Yi)
                     # Put the value in the position of the bc dofs
-                    if s.stop == int(this_base.N*this_base.padding_factor):
+                    if s.stop == this_base.shape(False):
                         b[this_base.si[-num_bcs+j]] = f_bci
 
                 elif isinstance(bci, Function):
@@ -1999,11 +2001,11 @@ class BoundaryValues:
                     mesh.insert(self.axis, np.ones(len(mesh[0]))*dm)
                     xj = np.vstack(mesh)
                     newb = bci.function_space().eval(xj, bci).reshape(gs)
-                    if s.stop == int(this_base.N*this_base.padding_factor):
+                    if s.stop == this_base.shape(False):
                         b[this_base.si[-num_bcs+j]] = newb[sl]
 
                 elif isinstance(bci, (Number, np.ndarray)):
-                    if s.stop == int(this_base.N*this_base.padding_factor):
+                    if s.stop == this_base.shape(False):
                         b[this_base.si[-num_bcs+j]] = bci
 
                 else:
-- 
2.43.0


From 518ad2aaeb3d80ea96ae0de2501c73076b5f3064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:53 +0000
Subject: [PATCH 46/47] fix: padded spaces: rounding of sizes, chebyshevu and
 ultraspherical transforms, norms of Gauss-Lobatto rules, 2/3-rule for small
 C2C

---
 shenfun/chebyshev/bases.py      |  6 +++---
 shenfun/chebyshev/matrices.py   |  2 +-
 shenfun/chebyshevu/bases.py     | 27 +++++++++++++++------------
 shenfun/fourier/bases.py        | 12 ++++++------
 shenfun/gegenbauer/bases.py     |  2 +-
 shenfun/hermite/bases.py        |  2 +-
 shenfun/jacobi/bases.py         |  2 +-
 shenfun/laguerre/bases.py       |  2 +-
 shenfun/legendre/bases.py       |  6 +++---
 shenfun/matrixbase.py           |  4 ++--
 shenfun/spectralbase.py         |  4 ++--
 shenfun/ultraspherical/bases.py |  6 +++---
 12 files changed, 39 insertions(+), 36 deletions(-)

diff --git a/shenfun/chebyshev/bases.py b/shenfun/chebyshev/bases.py
index f783182..0fb9464 100644
--- a/shenfun/chebyshev/bases.py
+++ b/shenfun/chebyshev/bases.py
@@ -182,7 +182,7 @@ class Orthogonal(JacobiBase):
             self._xfftn_fwd = functools.partial(fftw.dctn, type=1)
             self._xfftn_bck = functools.partial(fftw.dctn, type=1)
             self._xfftn_fwd.opts = self._xfftn_bck.opts = config["fftw"]["dct"]
-        self.plan((int(padding_factor * N),), 0, dtype, {})
+        self.plan((self.shape(False),), 0, dtype, {})
 
     # Comment due to curvilinear issues
     # def apply_inverse_mass(self, array):
@@ -272,10 +272,10 @@ class Orthogonal(JacobiBase):
         if i is None:
             f = np.full(self.N, np.pi / 2)
             f[0] *= 2
-            if self.quad == "GL":
+            if self.quad == "GL" and not self.is_padded:
                 f[-1] *= 2
             return f
-        elif i == 0 or i == self.N - 1 and self.quad == "GL":
+        elif i == 0 or i == self.N - 1 and self.quad == "GL" and not self.is_padded:
             return np.pi
         return np.pi / 2
 
diff --git a/shenfun/chebyshev/matrices.py b/shenfun/chebyshev/matrices.py
index 4319d55..a779c11 100644
--- a/shenfun/chebyshev/matrices.py
+++ b/shenfun/chebyshev/matrices.py
@@ -198,7 +198,7 @@ class BTLmat(SpectralMatrix):
         d = {}
         for n in range(0, N, 2):
             d[n] = np.exp(gammaln((n+1)/2)-gammaln((n+2)/2)) * np.exp(gammaln((2*k[:N-n]+n+1)/2) - gammaln((2*k[:N-n]+n+2)/2))
-        if test[0].quad == 'GL':
+        if test[0].quad == 'GL' and not test[0].is_padded:
             d[0][-1] *= 2
         return d
 
diff --git a/shenfun/chebyshevu/bases.py b/shenfun/chebyshevu/bases.py
index 8e4c28e..765581c 100644
--- a/shenfun/chebyshevu/bases.py
+++ b/shenfun/chebyshevu/bases.py
@@ -101,13 +101,14 @@ class Orthogonal(JacobiBase):
         if quad == 'GC':
             self._xfftn_fwd = functools.partial(fftw.dstn, type=2)
             self._xfftn_bck = functools.partial(fftw.dstn, type=3)
-            self._sinGC = np.sin((np.arange(N)+0.5)*np.pi/N)
+            M = self.shape(False)
+            self._sinGC = np.sin((np.arange(M)+0.5)*np.pi/M)
 
         elif quad == 'GU':
             self._xfftn_fwd = functools.partial(fftw.dstn, type=1)
             self._xfftn_bck = functools.partial(fftw.dstn, type=1)
         self._xfftn_fwd.opts = self._xfftn_bck.opts = config['fftw']['dst']
-        self.plan((int(padding_factor*N),), 0, dtype, {})
+        self.plan((self.shape(False),), 0, dtype, {})
 
     @staticmethod
     def family():
@@ -181,10 +182,10 @@ class Orthogonal(JacobiBase):
     def l2_norm_sq(self, i=None):
         if i is None:
             f = np.full(self.N, np.pi/2)
-            if self.quad == 'GC':
+            if self.quad == 'GC' and not self.is_padded:
                 f[-1] *= 2
             return f
-        elif i == self.N-1 and self.quad == 'GC':
+        elif i == self.N-1 and self.quad == 'GC' and not self.is_padded:
             return np.pi
         return np.pi/2
 
@@ -228,15 +229,16 @@ class Orthogonal(JacobiBase):
             SpectralBase._evaluate_scalar_product(self, kind=kind)
             return
 
+        M = self.shape(False)
         if self.quad == 'GU':
-            self.scalar_product._input_array *= self.broadcast_to_ndims(np.sin(np.pi/(self.N+1)*(np.arange(1, self.N+1))))
+            self.scalar_product._input_array *= self.broadcast_to_ndims(np.sin(np.pi/(M+1)*(np.arange(1, M+1))))
             out = self.scalar_product.xfftn()
-            out *= (np.pi/(2*(self.N+1)*self.padding_factor*self.domain_factor()))
+            out *= (np.pi/(2*(M+1)*self.domain_factor()))
 
         elif self.quad == 'GC':
             self.scalar_product._input_array *= self.broadcast_to_ndims(self._sinGC)
             out = self.scalar_product.xfftn()
-            out *= (np.pi/(2*self.N*self.padding_factor*self.domain_factor()))
+            out *= (np.pi/(2*M*self.domain_factor()))
 
     def _evaluate_expansion_all(self, input_array, output_array, x=None, kind='fast'):
         if kind != 'fast':
@@ -247,18 +249,19 @@ class Orthogonal(JacobiBase):
         assert input_array is self.backward.tmp_array
         assert output_array is self.backward.output_array
         output_array = self.backward.xfftn()
+        M = self.shape(False)
 
         if self.quad == "GU":
-            output_array *= 1/(2*self.broadcast_to_ndims(np.sin((np.arange(self.N)+1)*np.pi/(self.N+1))))
+            output_array *= 1/(2*self.broadcast_to_ndims(np.sin((np.arange(M)+1)*np.pi/(M+1))))
 
         elif self.quad == "GC":
-            s0 = self.sl[slice(self.N-1, self.N)]
-            se = self.sl[slice(0, self.N, 2)]
-            so = self.sl[slice(1, self.N, 2)]
+            s0 = self.sl[slice(M-1, M)]
+            se = self.sl[slice(0, M, 2)]
+            so = self.sl[slice(1, M, 2)]
             output_array *= 0.5
             output_array[se] += input_array[s0]/2
             output_array[so] -= input_array[s0]/2
-            output_array *= 1/(self.broadcast_to_ndims(np.sin((np.arange(self.N)+0.5)*np.pi/self.N)))
+            output_array *= 1/(self.broadcast_to_ndims(np.sin((np.arange(M)+0.5)*np.pi/M)))
 
     @property
     def is_orthogonal(self):
diff --git a/shenfun/fourier/bases.py b/shenfun/fourier/bases.py
index 78603e9..649a05a 100644
--- a/shenfun/fourier/bases.py
+++ b/shenfun/fourier/bases.py
@@ -329,7 +329,7 @@ class R2C(FourierBase):
         self._xfftn_bck.opts = config['fftw']['irfft']
         self._sn = []
         self._sm = []
-        self.plan((int(padding_factor*N),), (0,), float, {})
+        self.plan((self.shape(False),), (0,), float, {})
 
     def wavenumbers(self, bcast=True, scaled=False, eliminate_highest_freq=False):
         k = np.fft.rfftfreq(self.N, 1./self.N).astype(int)
@@ -361,7 +361,7 @@ class R2C(FourierBase):
 
     def _get_truncarray(self, shape, dtype):
         shape = list(shape)
-        shape[self.axis] = int(shape[self.axis] / self.padding_factor)
+        shape[self.axis] = int(np.round(shape[self.axis] / self.padding_factor))
         shape[self.axis] = shape[self.axis]//2 + 1
         return fftw.aligned(shape, dtype=dtype)
 
@@ -375,7 +375,7 @@ class R2C(FourierBase):
     def shape(self, forward_output=True):
         if forward_output:
             return self.N//2+1
-        return int(np.floor(self.padding_factor*self.N))
+        return int(np.round(self.padding_factor*self.N))
 
     def _evaluate_expansion_all(self, input_array, output_array, x=None, kind='fast'):
         if kind == 'vandermonde':
@@ -516,7 +516,7 @@ class C2C(FourierBase):
         self._xfftn_bck = fftw.ifftn
         self._xfftn_fwd.opts = config['fftw']['fft']
         self._xfftn_bck.opts = config['fftw']['ifft']
-        self.plan((int(padding_factor*N),), (0,), complex, {})
+        self.plan((self.shape(False),), (0,), complex, {})
         self._slp = []
 
     @staticmethod
@@ -558,7 +558,7 @@ class C2C(FourierBase):
     def shape(self, forward_output=True):
         if forward_output:
             return self.N
-        return int(np.floor(self.padding_factor*self.N))
+        return int(np.round(self.padding_factor*self.N))
 
     def count_trailing_zeros(self, u, reltol=1e-12, abstol=1e-15):
         assert u.function_space() == self
@@ -594,7 +594,7 @@ class C2C(FourierBase):
 
         elif self.dealias_direct:
             N = trunc_array.shape[self.axis]
-            su = self.sl[slice(N//3, -(N//3)+1)]
+            su = self.sl[slice(N//3, N-N//3+1)]
             padded_array[su] = 0
 
     def convolve(self, u, v, uv=None, fast=True):
diff --git a/shenfun/gegenbauer/bases.py b/shenfun/gegenbauer/bases.py
index bf8e0b3..72a50e5 100644
--- a/shenfun/gegenbauer/bases.py
+++ b/shenfun/gegenbauer/bases.py
@@ -106,7 +106,7 @@ class Orthogonal(JacobiBase):
             coordinates=coordinates,
         )
         self.gn = wn
-        self.plan(int(N * padding_factor), 0, dtype, {})
+        self.plan(self.shape(False), 0, dtype, {})
 
     @property
     def lambda_(self):
diff --git a/shenfun/hermite/bases.py b/shenfun/hermite/bases.py
index 680a00e..a926147 100644
--- a/shenfun/hermite/bases.py
+++ b/shenfun/hermite/bases.py
@@ -53,7 +53,7 @@ class Orthogonal(SpectralBase):
         SpectralBase.__init__(self, N, quad="HG", domain=Domain(-sp.S.Infinity, sp.S.Infinity),
                               dtype=dtype, padding_factor=padding_factor,
                               dealias_direct=dealias_direct, coordinates=coordinates)
-        self.plan(int(N*padding_factor), 0, dtype, {})
+        self.plan(self.shape(False), 0, dtype, {})
 
     @staticmethod
     def family():
diff --git a/shenfun/jacobi/bases.py b/shenfun/jacobi/bases.py
index f0bed9b..9593be6 100644
--- a/shenfun/jacobi/bases.py
+++ b/shenfun/jacobi/bases.py
@@ -157,7 +157,7 @@ class Orthogonal(JacobiBase):
         JacobiBase.__init__(self, N, quad=quad, alpha=alpha, beta=beta, domain=domain, dtype=dtype,
                             padding_factor=padding_factor, dealias_direct=dealias_direct,
                             coordinates=coordinates)
-        self.plan(int(N*padding_factor), 0, dtype, {})
+        self.plan(self.shape(False), 0, dtype, {})
 
     @staticmethod
     def family():
diff --git a/shenfun/laguerre/bases.py b/shenfun/laguerre/bases.py
index e4864ab..8b72e1b 100644
--- a/shenfun/laguerre/bases.py
+++ b/shenfun/laguerre/bases.py
@@ -54,7 +54,7 @@ class Orthogonal(SpectralBase):
         SpectralBase.__init__(self, N, quad="LG", domain=Domain(0, sp.S.Infinity), dtype=dtype,
                               padding_factor=padding_factor, dealias_direct=dealias_direct,
                               coordinates=coordinates)
-        self.plan(int(N*padding_factor), 0, dtype, {})
+        self.plan(self.shape(False), 0, dtype, {})
 
     @staticmethod
     def family():
diff --git a/shenfun/legendre/bases.py b/shenfun/legendre/bases.py
index b3a069a..58878c0 100644
--- a/shenfun/legendre/bases.py
+++ b/shenfun/legendre/bases.py
@@ -112,7 +112,7 @@ class Orthogonal(JacobiBase):
         JacobiBase.__init__(self, N, quad=quad, alpha=0, beta=0, domain=domain, dtype=dtype,
                             padding_factor=padding_factor, dealias_direct=dealias_direct,
                             coordinates=coordinates)
-        self.plan(int(padding_factor*N), 0, dtype, {})
+        self.plan(self.shape(False), 0, dtype, {})
 
     @staticmethod
     def family():
@@ -157,10 +157,10 @@ class Orthogonal(JacobiBase):
     def l2_norm_sq(self, i=None):
         if i is None:
             f = 2/(2*np.arange(self.N)+1)
-            if self.quad == 'GL':
+            if self.quad == 'GL' and not self.is_padded:
                 f[-1] = 2/(self.N-1)
             return f
-        elif i == self.N-1 and self.quad == 'GL':
+        elif i == self.N-1 and self.quad == 'GL' and not self.is_padded:
             return 2/(self.N-1)
         return 2/(2*i+1)
 
diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 48dc80a..4caa51c 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -2125,10 +2125,10 @@ def _assemble_phi(test, trial, measure=1):
     from shenfun.jacobi.recursions import Lmat
     from shenfun.utilities import split
     # The quadrature must be exact for the products of basis functions
-    assert test[0].quad != 'GL'
+    assert test[0].quad != 'GL' or test[0].is_padded
     assert test[0].family() == trial[0].family()
     assert (test[0].alpha, test[0].beta) == (trial[0].alpha, trial[0].beta)
-    assert not (test[0].family() == 'chebyshevu' and test[0].quad == 'GC')
+    assert not (test[0].family() == 'chebyshevu' and test[0].quad == 'GC') or test[0].is_padded
     alpha = test[0].alpha
     beta = test[0].beta
     gn = test[0].gn
diff --git a/shenfun/spectralbase.py b/shenfun/spectralbase.py
index 69fa080..bae61c4 100644
--- a/shenfun/spectralbase.py
+++ b/shenfun/spectralbase.py
@@ -50,7 +50,7 @@ class SpectralBase:
         self._stencil_matrix = {}
         self.padding_factor = padding_factor
         if padding_factor != 1:
-            self.padding_factor = np.floor(N*padding_factor)/N if N > 0 else 1
+            self.padding_factor = np.floor(N*padding_factor+1e-8)/N if N > 0 else 1
         self.dealias_direct = dealias_direct
         self._mass = None         # Mass matrix (if needed)
         self._dtype = dtype
@@ -868,7 +868,7 @@ class SpectralBase:
         if forward_output:
             return self.N
         if self.padding_factor != 1:
-            return int(np.floor(self.padding_factor*self.N))
+            return int(np.round(self.padding_factor*self.N))
         return self.N
 
     def domain_factor(self):
diff --git a/shenfun/ultraspherical/bases.py b/shenfun/ultraspherical/bases.py
index 79f2868..34a90f8 100644
--- a/shenfun/ultraspherical/bases.py
+++ b/shenfun/ultraspherical/bases.py
@@ -91,7 +91,7 @@ class Orthogonal(JacobiBase):
                             padding_factor=padding_factor, dealias_direct=dealias_direct,
                             coordinates=coordinates)
         self.gn = cn
-        self.plan(int(N*padding_factor), 0, dtype, {})
+        self.plan(self.shape(False), 0, dtype, {})
 
     @staticmethod
     def family():
@@ -141,7 +141,7 @@ class Orthogonal(JacobiBase):
         V = self.jacobiQ(x, self.alpha, self.shape(False))
         if self.alpha != 0:
             #V *= sp.lambdify(n, cn(self.alpha, self.alpha, n))(np.arange(self.N))[None, :]
-            V *= np.array([cn(self.alpha, self.alpha, n).subs(n, i) for i in np.arange(self.N)], dtype=V.dtype)[None, :]
+            V *= np.array([cn(self.alpha, self.alpha, n).subs(n, i) for i in np.arange(V.shape[1])], dtype=V.dtype)[None, :]
         return V
 
     @property
@@ -205,7 +205,7 @@ class Orthogonal(JacobiBase):
         V = self.derivative_jacobiQ(x, self.alpha, k)
         if self.alpha != 0:
             #V *= sp.lambdify(n, cn(self.alpha, self.alpha, n))(np.arange(self.N))[None, :]
-            V *= np.array([cn(self.alpha, self.alpha, n).subs(n, i) for i in np.arange(self.N)], dtype=V.dtype)[None, :]
+            V *= np.array([cn(self.alpha, self.alpha, n).subs(n, i) for i in np.arange(V.shape[1])], dtype=V.dtype)[None, :]
         return V
 
     def evaluate_basis_all(self, x=None, argument=0):
-- 
2.43.0


From 8bb00276a2bca726e1c16738f9284c55369a55f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:19 +0000
Subject: [PATCH 47/47] fix: integrators: complex linear terms, per-component
 symbols, small steps, first step and history of BackwardEuler, 1D and
 Fourier-only spaces, terms returned by the user

---
 shenfun/matrixbase.py            |   3 +
 shenfun/tensorproductspace.py    |   4 +-
 shenfun/utilities/integrators.py | 313 ++++++++++++++++---------------
 3 files changed, 166 insertions(+), 154 deletions(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 4caa51c..9e4c47c 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -464,6 +464,9 @@ class SparseMatrix(MutableMapping):
         if self.scale == 0:
             return Solve
 
+        if np.iscomplexobj(self.scale) or any(np.iscomplexobj(v) for v in self.values()):
+            return Solve # The banded solvers are for real matrices
+
         if len(self) == 1:
             if list(self.keys())[0] == 0:
                 return DiagMA
diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index fe6bc77..fe11b31 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -1367,10 +1367,10 @@ class TensorProductSpace(PFFT):
             daxes += 1
         j = np.atleast_1d((0,)*len(daxes) if j == () else j)
         assert len(j) == len(daxes)
-        sa = np.array(sl)
+        sa = np.atleast_2d(np.array(sl))
         if len(daxes) > 0:
             sa.T[daxes] = j if isinstance(j, int) else np.array(j)[:, None]
-        return np.atleast_2d(sa)
+        return sa
 
     def _get_ndiag_slices_and_dims(self, j=()):
         """Return nondiagonal slices and their accumulated dimensions"""
diff --git a/shenfun/utilities/integrators.py b/shenfun/utilities/integrators.py
index 4a40408..d9e3faf 100644
--- a/shenfun/utilities/integrators.py
+++ b/shenfun/utilities/integrators.py
@@ -114,6 +114,86 @@ class IntegratorBase:
         """
         pass
 
+    @staticmethod
+    def _end(end_time, dt):
+        """Return the time at which there are no more steps of size dt to take"""
+        return end_time - min(1e-8, 0.1*dt)
+
+    def _solver(self, mats):
+        """Return linear solver for assembled matrices
+
+        Parameters
+        ----------
+            mats : matrix, or list of matrices
+        """
+        mats = mats if isinstance(mats, list) else [mats]
+        if self.T.tensor_rank > 0:
+            return la.BlockMatrixSolver(mats)
+        if self.T.dimensions == 1:
+            return la.Solver(mats)
+        naxes = set().union(*(m.naxes for m in mats))
+        if len(naxes) == 0:
+            return la.SolverDiagonal(mats)
+        if len(naxes) == 1:
+            return la.SolverGeneric1ND(mats)
+        if len(naxes) == 2:
+            return la.SolverGeneric2ND(mats)
+        raise NotImplementedError
+
+    def _matrix(self, mats):
+        """Return matrix used for the right hand side"""
+        mats = mats if isinstance(mats, list) else [mats]
+        return ScipyMatrix(mats) if self.T.dimensions == 1 else BlockMatrix(mats)
+
+    def _linear_symbol(self):
+        """Return the diagonal linear operator as an array
+
+        Note
+        ----
+        The array is of the shape of a Function, or it can be broadcasted to
+        the shape of a Function.
+        """
+        u = TrialFunction(self.T)
+        v = TestFunction(self.T)
+        L = self.LinearRHS(u, **self.params)
+        if isinstance(L, Expr):
+            L = inner(v, L)
+        if isinstance(L, (TPMatrix, SparseMatrix)):
+            L = [L]
+        if not (isinstance(L, list) and isinstance(L[0], (TPMatrix, SparseMatrix))):
+            return np.atleast_1d(L)
+
+        if isinstance(L[0], SparseMatrix):
+            assert all(tuple(m.keys()) == (0,) for m in L)
+            return sum(np.atleast_1d(m[0]*m.scale) for m in L)
+
+        L = get_simplified_tpmatrices(L)
+        assert all(m.isidentity() for m in L)
+        if self.T.tensor_rank == 0:
+            return sum(np.atleast_1d(m.scale) for m in L)
+
+        symbol = np.zeros(Function(self.T).shape, dtype=np.result_type(float, *(np.asarray(m.scale) for m in L)))
+        flat = symbol.reshape((-1,)+symbol.shape[self.T.tensor_rank:])
+        for m in L:
+            assert m.global_index is None or m.global_index[0] == m.global_index[1]
+            if m.global_index is None:
+                flat += m.scale
+            else:
+                flat[m.global_index[0]] += m.scale
+        return symbol
+
+    @staticmethod
+    def _contour(hL, M=50):
+        """Iterate over the points of a circle of unit radius around all items of hL"""
+        if np.iscomplexobj(hL):
+            M = 2*M
+            for k in range(1, M+1):
+                yield hL+np.exp(2*np.pi*1j*(k-0.5)/M), 1./M
+        else:
+            # Symmetric about the real axis. Use only the upper half
+            for k in range(1, M+1):
+                yield hL+np.exp(np.pi*1j*(k-0.5)/M), 1./M
+
 
 class IRK3(IntegratorBase):
     """Third order implicit Runge Kutta
@@ -166,50 +246,38 @@ class IRK3(IntegratorBase):
         self.solver = []
         self.rhs_mats = []
         u0 = self.LinearRHS(u)
+        has_linear = isinstance(u0, Expr)
         for rk in range(3):
-            if u0:
+            if has_linear:
                 mats = inner(v, u-((a[rk]+b[rk])*dt/2)*u0)
             else:
                 mats = inner(v, u)
-            if self.T.dimensions == 1:
-                self.solver.append(la.Solver(mats))
-
-            elif self.T.tensor_rank == 0:
-                if len(mats[0].naxes) == 1:
-                    self.solver.append(la.SolverGeneric1ND(mats))
-                elif len(mats[0].naxes) == 2:
-                    self.solver.append(la.SolverGeneric2ND(mats))
-                else:
-                    raise NotImplementedError
-            else:
-                self.solver.append(la.BlockMatrixSolver(mats))
+            self.solver.append(self._solver(mats))
 
-            if u0:
+            if has_linear:
                 rhs_mats = inner(v, u+((a[rk]+b[rk])*dt/2)*u0)
             else:
                 rhs_mats = inner(v, u)
-            mat = ScipyMatrix if self.T.dimensions == 1 else BlockMatrix
-            self.rhs_mats.append(mat(rhs_mats))
+            self.rhs_mats.append(self._matrix(rhs_mats))
 
     def compute_rhs(self, u, u_hat, dU, dU1, rk):
         a = self.a[rk]
         b = self.b[rk]
         dt = self.params['dt']
-        dU = self.NonlinearRHS(u, u_hat, dU, **self.params)
+        dU[:] = self.NonlinearRHS(u, u_hat, dU, **self.params)
         if self.mask is not None:
             dU.mask_nyquist(self.mask)
         w1 = dU*a*dt + dU1*b*dt
         dU1[:] = dU
-        if isinstance(dU, np.ndarray):
-            dU[:] = w1
+        dU[:] = w1
         return dU
 
     def solve(self, u, u_hat, dt, trange):
-        if self.solver is None or abs(self.params['dt']-dt) > 1e-12:
+        if self.solver is None or self.params['dt'] != dt:
             self.setup(dt)
         t, end_time = trange
         tstep = self.tstep = 0
-        while t < end_time-1e-8:
+        while t < self._end(end_time, dt):
             self.tstep = tstep
             for rk in range(3):
                 self.params['ti'] = t+self.c[rk]*dt
@@ -250,6 +318,7 @@ class BackwardEuler(IntegratorBase):
         self.dU1 = Function(T)
         self.solver = None
         self.rhs_mats = None
+        self.t_end = None # time of the step that dU1 belongs to
         self.w0 = Function(self.T)
         self.mask = None
         if hasattr(T, 'get_mask_nyquist'):
@@ -262,48 +331,40 @@ class BackwardEuler(IntegratorBase):
         self.params['dt'] = dt
         u = TrialFunction(self.T)
         v = TestFunction(self.T)
-        mats = inner(u-dt*self.LinearRHS(u), v)
-        M = inner(u, v)
-
-        if self.T.dimensions == 1:
-            self.solver = la.Solve(mats)
-            self.rhs_mats = M
-            return
-
-        if self.T.tensor_rank == 0:
-            if len(mats[0].naxes) == 1:
-                self.solver = la.SolverGeneric1ND(mats)
-            elif len(mats[0].naxes) == 2:
-                self.solver = la.SolverGeneric2ND(mats)
-            else:
-                raise NotImplementedError
-        else:
-            self.solver = la.BlockMatrixSolver(mats)
-        self.rhs_mats = BlockMatrix(M if isinstance(M, list) else [M])
+        u0 = self.LinearRHS(u)
+        self.solver = self._solver(inner(v, u-dt*u0 if isinstance(u0, Expr) else u))
+        self.rhs_mats = self._matrix(inner(v, u))
+        self.t_end = None
 
     def compute_rhs(self, u, u_hat, dU, dU1):
         dt = self.params['dt']
-        dU = self.NonlinearRHS(u, u_hat, dU, **self.params)
-        if self.mask:
+        dU[:] = self.NonlinearRHS(u, u_hat, dU, **self.params)
+        if self.mask is not None:
             dU.mask_nyquist(self.mask)
+        if self.t_end is None:
+            # There is no previous step to extrapolate from
+            dU1[:] = dU
         w1 = dU*2*dt - dU1*dt
         dU1[:] = dU
         return w1
 
     def solve(self, u, u_hat, dt, trange):
-        if self.solver is None or abs(self.params['dt']-dt) > 1e-12:
+        if self.solver is None or self.params['dt'] != dt:
             self.setup(dt)
         t, end_time = trange
+        if t != self.t_end:
+            self.t_end = None
         tstep = self.tstep = 0
-        while t < end_time-1e-8:
+        while t < self._end(end_time, dt):
             self.params['ti'] = t
             self.tstep = tstep
             dU = self.compute_rhs(u, u_hat, self.dU, self.dU1)
             dU += self.rhs_mats.matvec(u_hat, self.w0)
             u_hat = self.solver(dU, u=u_hat)
-            if self.mask:
+            if self.mask is not None:
                 u_hat.mask_nyquist(self.mask)
             t += dt
+            self.t_end = t
             tstep += 1
             self.update(u, u_hat, t, tstep, **self.params)
         return u_hat
@@ -341,33 +402,12 @@ class ETD(IntegratorBase):
     def setup(self, dt):
         """Set up ETD ODE solver"""
         self.params['dt'] = dt
-        u = TrialFunction(self.T)
-        v = TestFunction(self.T)
-        L = self.LinearRHS(u, **self.params)
-        if isinstance(L, Expr):
-            L = inner(v, L)
-            L = get_simplified_tpmatrices(L)[0]
-        if isinstance(L, list):
-            assert self.T.tensor_rank == 1
-            assert L[0].isidentity()
-            L = L[0].scale
-            # Use only L[0] and let numpy broadcasting take care of the rest
-        elif isinstance(L, TPMatrix):
-            assert L.isidentity()
-            L = L.scale
-        elif isinstance(L, SparseMatrix):
-            L.simplify_diagonal_matrices()
-            L = L.scale
-
-        L = np.atleast_1d(L)
-        hL = L*dt
+        hL = self._linear_symbol()*dt
         self.ehL = np.exp(hL)
-        M = 50
-        psi = self.psi = np.zeros(hL.shape, dtype=float)
-        for k in range(1, M+1):
-            ll = hL+np.exp(np.pi*1j*(k-0.5)/M)
-            psi += ((np.exp(ll)-1.)/ll).real
-        psi /= M
+        psi = self.psi = np.zeros(hL.shape, dtype=hL.dtype if np.iscomplexobj(hL) else float)
+        part = np.asarray if np.iscomplexobj(hL) else np.real
+        for ll, w in self._contour(hL):
+            psi += w*part((np.exp(ll)-1.)/ll)
 
     def solve(self, u, u_hat, dt, trange):
         """Integrate forward in time
@@ -383,15 +423,15 @@ class ETD(IntegratorBase):
             trange : two-tuple
                 Time and end time
         """
-        if self.psi is None or abs(self.params['dt']-dt) > 1e-12:
+        if self.psi is None or self.params['dt'] != dt:
             self.setup(dt)
         t, end_time = trange
         tstep = 0
-        while t < end_time-1e-8:
+        while t < self._end(end_time, dt):
             t += dt
             tstep += 1
-            self.dU = self.NonlinearRHS(u, u_hat, self.dU, **self.params)
-            u_hat[:] = self.ehL*u_hat + dt*self.psi*self.dU
+            dU = self.NonlinearRHS(u, u_hat, self.dU, **self.params)
+            u_hat[:] = self.ehL*u_hat + dt*self.psi*dU
             self.update(u, u_hat, t, tstep, **self.params)
         return u_hat
 
@@ -434,42 +474,18 @@ class ETDRK4(IntegratorBase):
     def setup(self, dt):
         """Set up ETDRK4 ODE solver"""
         self.params['dt'] = dt
-        u = TrialFunction(self.T)
-        v = TestFunction(self.T)
-        L = self.LinearRHS(u, **self.params)
-        if isinstance(L, Expr):
-            L = inner(v, L)
-            if isinstance(L, list):
-                if isinstance(L[0], TPMatrix):
-                    L = get_simplified_tpmatrices(L)[0]
-                elif isinstance(L[0], SpectralMatrix):
-                    L = sum(L[1:], L[0])
-        if isinstance(L, list):
-            assert self.T.tensor_rank == 1
-            assert L[0].isidentity()
-            L = L[0].scale
-            # Use only L[0] and let numpy broadcasting take care of the rest
-        elif isinstance(L, TPMatrix):
-            assert L.isidentity()
-            L = L.scale
-        elif isinstance(L, SparseMatrix):
-            L.simplify_diagonal_matrices()
-            L = L.scale
-        L = np.atleast_1d(L)
-        hL = L*dt
+        hL = self._linear_symbol()*dt
         self.ehL = np.exp(hL)
         self.ehL_h = np.exp(hL/2.)
-        M = 50
-        psi = self.psi = np.zeros((4,) + hL.shape, dtype=float)
-        for k in range(1, M+1):
-            ll = hL+np.exp(np.pi*1j*(k-0.5)/M)
-            psi[0] += ((np.exp(ll)-1.)/ll).real
-            psi[1] += ((np.exp(ll)-ll-1.)/ll**2).real
-            psi[2] += ((np.exp(ll)-0.5*ll**2-ll-1.)/ll**3).real
-            ll2 = hL/2.+np.exp(np.pi*1j*(k-0.5)/M)
-            psi[3] += ((np.exp(ll2)-1.)/(ll2)).real
-
-        psi /= M
+        psi = self.psi = np.zeros((4,) + hL.shape, dtype=hL.dtype if np.iscomplexobj(hL) else float)
+        part = np.asarray if np.iscomplexobj(hL) else np.real
+        for ll, w in self._contour(hL):
+            psi[0] += w*part((np.exp(ll)-1.)/ll)
+            psi[1] += w*part((np.exp(ll)-ll-1.)/ll**2)
+            psi[2] += w*part((np.exp(ll)-0.5*ll**2-ll-1.)/ll**3)
+        for ll, w in self._contour(hL/2.):
+            psi[3] += w*part((np.exp(ll)-1.)/ll)
+
         a = [psi[0]-3*psi[1]+4*psi[2]]
         a.append(2*psi[1]-4*psi[2])
         a.append(2*psi[1]-4*psi[2])
@@ -490,28 +506,28 @@ class ETDRK4(IntegratorBase):
             trange : two-tuple
                 Time and end time
         """
-        if self.a is None or abs(self.params['dt']-dt) > 1e-12:
+        if self.a is None or self.params['dt'] != dt:
             self.setup(dt)
         t, end_time = trange
         tstep = 0
-        while t < end_time-1e-8:
+        while t < self._end(end_time, dt):
             t += dt
             tstep += 1
 
             self.U_hat0[:] = u_hat*self.ehL_h
             self.U_hat1[:] = u_hat*self.ehL
             for rk in range(4):
-                self.dU = self.NonlinearRHS(u, u_hat, self.dU, **self.params)
+                dU = self.NonlinearRHS(u, u_hat, self.dU, **self.params)
                 if rk < 2:
-                    u_hat[:] = self.U_hat0 + self.b[rk]*dt*self.psi[3]*self.dU
+                    u_hat[:] = self.U_hat0 + self.b[rk]*dt*self.psi[3]*dU
                 elif rk == 2:
-                    u_hat[:] = self.ehL_h*self.V2 + self.b[rk]*dt*self.psi[3]*(2*self.dU-self.dU0)
+                    u_hat[:] = self.ehL_h*self.V2 + self.b[rk]*dt*self.psi[3]*(2*dU-self.dU0)
 
                 if rk == 0:
-                    self.dU0[:] = self.dU
+                    self.dU0[:] = dU
                     self.V2[:] = u_hat
 
-                self.U_hat1 += self.a[rk]*dt*self.dU
+                self.U_hat1 += self.a[rk]*dt*dU
             u_hat[:] = self.U_hat1
             self.update(u, u_hat, t, tstep, **self.params)
         return u_hat
@@ -562,36 +578,19 @@ class RK4(IntegratorBase):
             trange : two-tuple
                 Time and end time
         """
-        if self.a is None or abs(self.params['dt']-dt) > 1e-12:
+        if self.a is None or self.params['dt'] != dt:
             self.setup(dt)
         t, end_time = trange
         tstep = 0
-        ut = TrialFunction(self.T)
-        vt = TestFunction(self.T)
-        L = self.LinearRHS(ut, **self.params)
-        if isinstance(L, Expr):
-            L = inner(vt, L)
-            L = get_simplified_tpmatrices(L)[0]
-        if isinstance(L, list):
-            assert self.T.tensor_rank == 1
-            assert L[0].isidentity()
-            L = L[0].scale
-            # Use only L[0] and let numpy broadcasting take care of the rest
-        elif isinstance(L, TPMatrix):
-            assert L.isidentity()
-            L = L.scale
-        elif isinstance(L, SparseMatrix):
-            L.simplify_diagonal_matrices()
-            L = L.scale
-
-        while t < end_time-1e-8:
+        L = self._linear_symbol()
+
+        while t < self._end(end_time, dt):
             t += dt
             tstep += 1
             self.U_hat0[:] = self.U_hat1[:] = u_hat
             for rk in range(4):
                 dU = self.NonlinearRHS(u, u_hat, self.dU, **self.params)
-                if isinstance(L, np.ndarray):
-                    dU += L*u_hat
+                dU = dU + L*u_hat
                 if rk < 3:
                     u_hat[:] = self.U_hat0 + self.b[rk]*dt*dU
                 self.U_hat1 += self.a[rk]*dt*dU
@@ -600,6 +599,20 @@ class RK4(IntegratorBase):
         return u_hat
 
 
+def get_default_solver(T):
+    """Return linear solver class for scalar space T
+
+    Parameters
+    ----------
+    T : :class:`.SpectralBase` or :class:`.TensorProductSpace`
+    """
+    if T.dimensions == 1:
+        return la.Solver
+    naxes = len(T.get_nondiagonal_axes())
+    if naxes > 2:
+        raise NotImplementedError
+    return (la.SolverDiagonal, la.SolverGeneric1ND, la.SolverGeneric2ND)[naxes]
+
 class IMEXRK3:
     r"""Solve partial differential equations of the form
 
@@ -638,14 +651,7 @@ class IMEXRK3:
         T = self.T = v.function_space()
         self._solver = solver
         if solver is None:
-            if v.dimensions == 1:
-                self._solver = la.Solver
-            elif len(T.get_nondiagonal_axes().ndim) == 1:
-                self._solver = la.SolverGeneric1ND
-            elif len(T.get_nondiagonal_axes().ndim) == 2:
-               self._solver = la.SolverGeneric2ND
-            else:
-                raise NotImplementedError
+            self._solver = get_default_solver(T)
 
         self.solvers = []
         self.linear_rhs = []
@@ -671,6 +677,8 @@ class IMEXRK3:
     def assemble(self):
         a, b, _ = self.stages()
         dt = self.dt
+        self.solvers = []
+        self.linear_rhs = []
         ul = copy.copy(self.u)
         ul._basis = TrialFunction(self.u.function_space())
         L1 = self.L(ul)
@@ -745,10 +753,7 @@ class PDEIMEXRK:
         self.dt = dt
         self._solver = solver
         if solver is None:
-            if v.dimensions > 1:
-                self._solver = la.SolverGeneric1ND
-            else:
-                self._solver = la.Solver
+            self._solver = get_default_solver(v.function_space())
 
         self.solvers = []
         self.linear_rhs = []
@@ -784,8 +789,12 @@ class PDEIMEXRK:
         dt = self.dt
         ul = copy.copy(self.u)
         ul._basis = TrialFunction(self.u.function_space())
-        mats = inner(self.v, ul - dt*a[1, 1]*self.L(ul))
-        self.solvers.append(self._solver(mats))
+        if a[1, 1] == 0: # explicit
+            mats = inner(self.v, ul)
+        else:
+            mats = inner(self.v, ul - dt*a[1, 1]*self.L(ul))
+        mats = mats if isinstance(mats, list) else [mats]
+        self.solvers = [self._solver(mats)]
         self.linear_rhs = Inner(self.v, self.L(self.u))
         self.u0_rhs = Inner(self.v, self.u)
         if isinstance(self.N, (Expr, Function)):
@@ -829,7 +838,7 @@ class IMEXRK011(PDEIMEXRK):
         b = np.array([
             [0, 0],
             [1, 0]])
-        c = (1, 0)
+        c = (0, 1)
         return a, b, c
 
 
-- 
2.43.0

