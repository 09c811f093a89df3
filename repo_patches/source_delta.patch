From d41f8570e9f06d86991545cdc177a9283c014417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 01/21] fix: let quadrature_for_space handle tensor product
 spaces with different orders

---
 modepy/quadrature/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modepy/quadrature/__init__.py b/modepy/quadrature/__init__.py
index 8786cde..ec9fd6a 100644
--- a/modepy/quadrature/__init__.py
+++ b/modepy/quadrature/__init__.py
@@ -347,12 +347,14 @@ def _quadrature_for_tp(
     if space.spatial_dim == 0:
         quad: Quadrature = ZeroDimensionalQuadrature()
     else:
+        # NOTE: each factor (recursively) asserts that it is sufficiently exact for
+        # its own base space. 'exact_to' of the product is the minimum over the
+        # factors, so it may be lower than the order of the highest-order base.
         quad = TensorProductQuadrature([
             quadrature_for_space(sp, shp)
             for sp, shp in zip(space.bases, shape.bases, strict=True)
             ])
 
-    assert all(quad.exact_to >= getattr(s, "order", 0) for s in space.bases)
     return quad
 
 # }}}
-- 
2.43.0


From 63c77bc7232896d95ab41bed998224522b0f7c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 02/21] fix: report exactness of ZeroDimensionalQuadrature with
 the inf sentinel

---
 modepy/quadrature/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/modepy/quadrature/__init__.py b/modepy/quadrature/__init__.py
index ec9fd6a..267a5b3 100644
--- a/modepy/quadrature/__init__.py
+++ b/modepy/quadrature/__init__.py
@@ -205,8 +205,7 @@ class ZeroDimensionalQuadrature(Quadrature):
     def __init__(self) -> None:
         super().__init__(np.empty((0, 1), dtype=np.float64),
                          np.ones((1,), dtype=np.float64),
-                         # NOTE: exact_to is expected to be an int
-                         exact_to=np.inf)
+                         exact_to=inf)
 
 
 class Transformed1DQuadrature(Quadrature):
-- 
2.43.0


From 30948056aa78d94057a529a1624778a026746072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 03/21] fix: pick the semi-infinite transform in quadgk by the
 sign of the infinite endpoint

---
 modepy/quadrature/kronrod.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/modepy/quadrature/kronrod.py b/modepy/quadrature/kronrod.py
index 35e98de..3cb271d 100644
--- a/modepy/quadrature/kronrod.py
+++ b/modepy/quadrature/kronrod.py
@@ -486,10 +486,12 @@ def _do_quadgk(
         if inf1 or inf2:
             if inf1 and inf2:
                 g, sm = _transform_both_inf(f, s)
-            elif inf1:
-                g, sm = _transform_semi_inf_neg(f, s2, s)
             else:
-                g, sm = _transform_semi_inf_pos(f, s1, s)
+                s_fin, s_inf = (s2, s1) if inf1 else (s1, s2)
+                if s_inf < 0:
+                    g, sm = _transform_semi_inf_neg(f, s_fin, s)
+                else:
+                    g, sm = _transform_semi_inf_pos(f, s_fin, s)
             return _do_quadgk(g, sm, n, abstol, reltol, maxevals)
 
     x, w, gw = kronrod(n)
-- 
2.43.0


From e4a9b0e895e388aed7bb58c5665f83d254fea3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 04/21] fix: make the zero-dimensional basis function one, i.e.
 orthonormal

---
 modepy/modes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/modepy/modes.py b/modepy/modes.py
index 9374a63..6258d5a 100644
--- a/modepy/modes.py
+++ b/modepy/modes.py
@@ -859,8 +859,7 @@ def monomial_basis_for_space(space: FunctionSpace, shape: Shape) -> Basis:
 
 def zerod_basis(x: ArrayF) -> ArrayF:
     assert len(x) == 0
-    x_sub = np.ones(x.shape[1:], x.dtype)
-    return 1 + x_sub
+    return np.ones(x.shape[1:], x.dtype)
 
 
 # {{{ PN bases
-- 
2.43.0


From d439888e5461f51caf34bd27198ed4c9a8137912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 05/21] fix: take the factor into account in
 Monomial.hypercube_integral

---
 modepy/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/tools.py b/modepy/tools.py
index 0f5c0c5..92a8b41 100644
--- a/modepy/tools.py
+++ b/modepy/tools.py
@@ -121,7 +121,7 @@ class Monomial:
 
         return reduce(
                 lambda integral, n: integral * 1 / (n + 1),
-                self.exponents, 1.0)
+                self.exponents, 1.0 * self.factor)
 
     def diff(self, coordinate: int) -> Monomial:
         diff_exp = list(self.exponents)
-- 
2.43.0


From 0dcc60541d74111bd88b983d54d78fe9229c45d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 06/21] fix: let the zero-dimensional Hypercube report its
 number of faces

---
 modepy/shapes.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/modepy/shapes.py b/modepy/shapes.py
index 24f9363..20e3f48 100644
--- a/modepy/shapes.py
+++ b/modepy/shapes.py
@@ -382,9 +382,8 @@ class TensorProductShape(Shape):
     @property
     @override
     def nfaces(self) -> int:
-        # FIXME: this obviously only works for `shape x segment x segment x ...`
-        *segments, shape = sorted(self.bases, key=lambda s: s.dim)
-        return shape.nfaces + len(segments) * segments[0].nfaces
+        # a face of the product is a face of one of the factors times all the others
+        return sum(shape.nfaces for shape in self.bases)
 
 
 @unit_vertices_for_shape.register(TensorProductShape)
-- 
2.43.0


From fb00d22dce01d9e70d2f322879b60ae3aea5b502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 07/21] fix: respect force_dim_axis in
 jacobi_gauss_lobatto_nodes for N=0

---
 modepy/quadrature/jacobi_gauss.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/modepy/quadrature/jacobi_gauss.py b/modepy/quadrature/jacobi_gauss.py
index 5f4ba4f..0376c4a 100644
--- a/modepy/quadrature/jacobi_gauss.py
+++ b/modepy/quadrature/jacobi_gauss.py
@@ -279,12 +279,9 @@ def jacobi_gauss_lobatto_nodes(
     """
 
     x: np.ndarray[tuple[int, ...], np.dtype[np.floating]] = np.zeros((N + 1,))
-    if N == 0:
-        x[0] = 0
-        return x
-
-    x[0] = -1
-    x[-1] = 1
+    if N > 0:
+        x[0] = -1
+        x[-1] = 1
 
     if N > 1:
         quad = JacobiGaussQuadrature(alpha + 1, beta + 1, N - 2,
-- 
2.43.0


From ef3c44622566b31c6b5c86257fdebd0582eab454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:21 +0000
Subject: [PATCH 08/21] fix: correct the weights of
 JacobiGaussLobattoQuadrature for nonzero alpha, beta

---
 modepy/quadrature/jacobi_gauss.py | 54 +++++++++++++------------------
 1 file changed, 22 insertions(+), 32 deletions(-)

diff --git a/modepy/quadrature/jacobi_gauss.py b/modepy/quadrature/jacobi_gauss.py
index 0376c4a..bca6e62 100644
--- a/modepy/quadrature/jacobi_gauss.py
+++ b/modepy/quadrature/jacobi_gauss.py
@@ -327,7 +327,7 @@ class JacobiGaussLobattoQuadrature(Quadrature):
             force_dim_axis: bool = False) -> None:
         nodes = jacobi_gauss_lobatto_nodes(alpha, beta, N, backend)
 
-        from math import gamma
+        from math import factorial, gamma
 
         from modepy.modes import binom, scaled_jacobi
 
@@ -343,43 +343,33 @@ class JacobiGaussLobattoQuadrature(Quadrature):
 
         # FIXME: Recurrences might be better than just typing up the formulas.
 
-        # (3.10)
-        common_factor = (
-            2**(alpha + beta + 1)
-            * binom(n + alpha + 1, n)
-            / binom(n + beta + 1, n)
-            / binom(n + alpha + beta + 2, n)
-            * gamma(alpha + 2)
-            / gamma(alpha + beta + 3)
-        )
-        edge_weight = (
-            common_factor
-            * gamma(beta + 1)
-        )
-
-        # (4.7)
+        # (3.10), the right edge follows by swapping alpha and beta
+        def edge_weight(alpha: float, beta: float) -> float:
+            return (
+                2**(alpha + beta + 1)
+                * binom(n + alpha + 1, n)
+                / binom(n + beta + 1, n)
+                / binom(n + alpha + beta + 2, n)
+                * gamma(alpha + 2)
+                / gamma(alpha + beta + 3)
+                * gamma(beta + 1)
+            )
+
+        # These are the Gauss weights for (alpha + 1, beta + 1) divided by
+        # (1 - int_nodes**2), with the derivative at the nodes rewritten in terms of
+        # the polynomial itself, using the differential equation.
         int_nodes = nodes[1:-1]
-        frac = (
-            4*(n+alpha+1) * (n+beta+1) + (alpha-beta)**2
-        ) / (
-            2*n + alpha + beta + 2
-        )**2
-
         int_weights = (
-            common_factor
-            * gamma(beta + 2)
-
-            # FIXME: This is part of the paper, but tests only pass without it:
-            # / (n + 1)**2
-
-            / (frac - int_nodes**2)
-            * (1 - int_nodes**2)
+            2**(alpha + beta + 1)
+            * gamma(n + alpha + 2) * gamma(n + beta + 2)
+            / gamma(n + alpha + beta + 3) / factorial(n)
+            / (n + 1)**2
             / scaled_jacobi(alpha, beta, n + 1, int_nodes)**2
         )
 
         weights = np.empty_like(nodes)
-        weights[0] = edge_weight
-        weights[-1] = edge_weight
+        weights[0] = edge_weight(alpha, beta)
+        weights[-1] = edge_weight(beta, alpha)
         weights[1:-1] = int_weights
 
         if force_dim_axis:
-- 
2.43.0


From 1147089f9a4f1f3d37e730f89eb8d612008b390e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:03 +0000
Subject: [PATCH 09/21] fix: do not hand out the tables of
 WitherdenVincentQuadrature themselves

---
 modepy/quadrature/witherden_vincent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/quadrature/witherden_vincent.py b/modepy/quadrature/witherden_vincent.py
index add2d29..c275237 100644
--- a/modepy/quadrature/witherden_vincent.py
+++ b/modepy/quadrature/witherden_vincent.py
@@ -64,5 +64,5 @@ class WitherdenVincentQuadrature(Quadrature):
         except KeyError:
             raise QuadratureRuleUnavailable(f"Unsupported order: {order}") from None
 
-        super().__init__(rule["points"], rule["weights"],
+        super().__init__(rule["points"].copy(), rule["weights"].copy(),
                          exact_to=rule["quad_degree"])
-- 
2.43.0


From d2f47addd6703c8c3dd63ee8e18499f391017f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:41 +0000
Subject: [PATCH 10/21] fix: raise NotImplementedError for tensor product
 spaces on other shapes in quadrature_for_space

---
 modepy/quadrature/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/quadrature/__init__.py b/modepy/quadrature/__init__.py
index 267a5b3..5eaeff0 100644
--- a/modepy/quadrature/__init__.py
+++ b/modepy/quadrature/__init__.py
@@ -338,7 +338,7 @@ def _quadrature_for_tp(
             shape: TensorProductShape
         ) -> Quadrature:
     if not isinstance(shape, TensorProductShape):
-        raise NotImplementedError((type(space).__name__, type(shape).__name))
+        raise NotImplementedError((type(space).__name__, type(shape).__name__))
 
     if space.spatial_dim != shape.dim:
         raise ValueError("spatial dimensions of shape and space must match")
-- 
2.43.0


From 91b354481e1b260a271f8865651bacbf27d8b10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:59 +0000
Subject: [PATCH 11/21] fix: linearly_combine for a number of combinations
 other than the basis size

---
 modepy/quadrature/construction.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modepy/quadrature/construction.py b/modepy/quadrature/construction.py
index 6a906a3..7fb70ff 100644
--- a/modepy/quadrature/construction.py
+++ b/modepy/quadrature/construction.py
@@ -128,9 +128,7 @@ def linearly_combine(
         return LinearCombinationIntegrand(coefficients, functions)
 
     basis: list[NodalFunction] = []
-    n = len(lcfunctions)
-    matrix = np.zeros((n, n), dtype=np.complex128)
-    for i, f in enumerate(lcfunctions):
+    for f in lcfunctions:
         ncommon = min(len(basis), len(f.functions))
         if basis[:ncommon]  != f.functions[:ncommon]:
             warn("Not all functions passed to linearly_combine used the "
@@ -141,6 +139,9 @@ def linearly_combine(
 
         basis.extend(f.functions[ncommon:])
 
+    # NOTE: the common basis may be longer or shorter than the list of combinations
+    matrix = np.zeros((len(lcfunctions), len(basis)), dtype=np.complex128)
+    for i, f in enumerate(lcfunctions):
         ncoeff = len(f.coefficients)
         matrix[i, :ncoeff] = f.coefficients
 
-- 
2.43.0


From 5fc94a3c628b3c6f34e5cee5f1e532b5c23c663e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:59 +0000
Subject: [PATCH 12/21] fix: flatten linear combinations whose functions are
 not held in a list

---
 modepy/quadrature/construction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/quadrature/construction.py b/modepy/quadrature/construction.py
index 7fb70ff..65cd451 100644
--- a/modepy/quadrature/construction.py
+++ b/modepy/quadrature/construction.py
@@ -130,7 +130,7 @@ def linearly_combine(
     basis: list[NodalFunction] = []
     for f in lcfunctions:
         ncommon = min(len(basis), len(f.functions))
-        if basis[:ncommon]  != f.functions[:ncommon]:
+        if basis[:ncommon] != list(f.functions[:ncommon]):
             warn("Not all functions passed to linearly_combine used the "
                  "same basis. Returning an un-flattened linear combination instead.",
                  stacklevel=2)
-- 
2.43.0


From 3cefee7a1ae8a1a10be3aacee62f496ca3276e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:59 +0000
Subject: [PATCH 13/21] fix: warn about underdetermined quadrature systems by
 the number of nodes, not of axes

---
 modepy/quadrature/construction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/quadrature/construction.py b/modepy/quadrature/construction.py
index 65cd451..987f55a 100644
--- a/modepy/quadrature/construction.py
+++ b/modepy/quadrature/construction.py
@@ -322,7 +322,7 @@ def find_weights_undetermined_coefficients(
     if len(reference_integrals) != len(integrands):
         raise ValueError(
                 "number of integrands must match number of reference integrals")
-    if len(reference_integrals) < len(nodes):
+    if len(reference_integrals) < nodes.shape[-1]:
         from warnings import warn
         warn("Underdetermined quadrature system", stacklevel=2)
 
-- 
2.43.0


From fe0bde5176882a3a891e4be972098ff51d53080c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:59 +0000
Subject: [PATCH 14/21] fix: quad_residual_and_jacobian for nodes of shape
 (nnodes,), as documented

---
 modepy/quadrature/construction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/quadrature/construction.py b/modepy/quadrature/construction.py
index 987f55a..c86375f 100644
--- a/modepy/quadrature/construction.py
+++ b/modepy/quadrature/construction.py
@@ -400,7 +400,7 @@ def quad_residual_and_jacobian(
     :arg reference_integrals: Integrals of *integrands*, shaped ``(len(integrands),)``.
     """
     nintegrands = len(integrands)
-    ndim, _nnodes = nodes.shape
+    ndim = 1 if nodes.ndim == 1 else nodes.shape[0]
 
     if __debug__:
         if len(integrand_derivatives) != ndim:
-- 
2.43.0


From b4a8bcaa82a9bef79aebde1b234d3de68107f027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:36 +0000
Subject: [PATCH 15/21] fix: make QN and TensorProductShape picklable and
 copyable like their siblings

---
 modepy/shapes.py | 4 ++++
 modepy/spaces.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/modepy/shapes.py b/modepy/shapes.py
index 20e3f48..22a3abb 100644
--- a/modepy/shapes.py
+++ b/modepy/shapes.py
@@ -374,6 +374,10 @@ class TensorProductShape(Shape):
         super().__init__(dim)
         object.__setattr__(self, "bases", bases)
 
+    def __getnewargs__(self) -> tuple[Any, ...]:
+        # NOTE: ensures TensorProductShape is picklable
+        return (self.bases,)
+
     @property
     @override
     def nvertices(self) -> int:
diff --git a/modepy/spaces.py b/modepy/spaces.py
index e328c54..564c29d 100644
--- a/modepy/spaces.py
+++ b/modepy/spaces.py
@@ -272,6 +272,10 @@ class QN(TensorProductSpace):
     def __init__(self, spatial_dim: int, order: int) -> None:
         super().__init__((PN(1, order),) * spatial_dim)
 
+    def __getnewargs__(self):
+        # Ensures QN is picklable
+        return (self.spatial_dim, self.bases[0].order if self.bases else 0)
+
     @property
     @override
     def order(self):
-- 
2.43.0


From 724da609a76024f835c88d2120c9d779922597b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:34 +0000
Subject: [PATCH 16/21] fix: integrate tensor-valued functions with several
 leading axes in Quadrature.__call__

---
 modepy/quadrature/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/quadrature/__init__.py b/modepy/quadrature/__init__.py
index 5eaeff0..06d8312 100644
--- a/modepy/quadrature/__init__.py
+++ b/modepy/quadrature/__init__.py
@@ -196,7 +196,7 @@ class Quadrature:
         *f* is assumed to accept arrays of shape *(dims, npts)*,
         or of shape *(npts,)* for 1D quadrature.
         """
-        return np.dot(self.weights, f(self.nodes).T).T
+        return f(self.nodes) @ self.weights
 
 
 class ZeroDimensionalQuadrature(Quadrature):
-- 
2.43.0


From 0202ded8e4f6e466dc5088dbe0f9b0a256f8c509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:23 +0000
Subject: [PATCH 17/21] fix: do not round Vandermonde matrix entries to the
 number type of the first function's values

---
 modepy/matrices.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/modepy/matrices.py b/modepy/matrices.py
index 1e0547a..78c2dde 100644
--- a/modepy/matrices.py
+++ b/modepy/matrices.py
@@ -118,7 +118,10 @@ def vandermonde(
     result[:, 0] = f_first_values
 
     for j, f in enumerate(f_iter):
-        result[:, j + 1] = f(nodes)
+        f_values = f(nodes)
+        # do not round to the type of the values of the first function
+        result = result.astype(np.result_type(result, f_values), copy=False)
+        result[:, j + 1] = f_values
 
     return result
 
@@ -155,17 +158,17 @@ def multi_vandermonde(
         f_values = f(nodes)
 
         if result is None:
-            from pytools import single_valued
-            dtype = single_valued(fi.dtype for fi in f_values)
-            result = tuple(np.empty((nnodes, nfunctions), dtype)
-                    for i in range(len(f_values)))
+            result = [np.empty((nnodes, nfunctions), fi.dtype) for fi in f_values]
 
         for i, f_values_i in enumerate(f_values):
+            # do not round to the type of the values of the first function
+            result[i] = result[i].astype(
+                    np.result_type(result[i], f_values_i), copy=False)
             result[i][:, j] = f_values_i
 
     assert result is not None
 
-    return result
+    return tuple(result)
 
 
 def resampling_matrix(
-- 
2.43.0


From c32725c6bb21dea028fd128a5bd3df9b4a9b844e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:21 +0000
Subject: [PATCH 18/21] fix: allow integer points in gradients of tensor
 product bases

---
 modepy/modes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modepy/modes.py b/modepy/modes.py
index 6258d5a..0388e8a 100644
--- a/modepy/modes.py
+++ b/modepy/modes.py
@@ -719,7 +719,8 @@ class _TensorProductGradientBasisFunction:
                     components = (components,) * self.dims_per_function[ider]
 
                 for j, comp in enumerate(components):
-                    result[n + j] *= comp
+                    # not in place: the number types of the factors may differ
+                    result[n + j] = result[n + j] * comp
 
                 f += iaxis
             n += self.dims_per_function[ider]
-- 
2.43.0


From 57e553ab64311681893aa8be6957eed56bb5fdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:21 +0000
Subject: [PATCH 19/21] fix: give one value per point for the zero-dimensional
 monomial basis

---
 modepy/modes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modepy/modes.py b/modepy/modes.py
index 0388e8a..c871251 100644
--- a/modepy/modes.py
+++ b/modepy/modes.py
@@ -930,6 +930,9 @@ class _SimplexMonomialBasis(SimplexBasis):
 
     @property
     def functions(self) -> tuple[BasisFunction, ...]:
+        if self._dim == 0:
+            # one value per point, also if there are no coordinates
+            return (zerod_basis,)
         return tuple(partial(monomial, mid) for mid in self.mode_ids)
 
     @property
-- 
2.43.0


From fdc75843926a79ff6ed805ca2d1bd31e60050c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:37 +0000
Subject: [PATCH 20/21] fix: estimate the Lebesgue constant of order zero

---
 modepy/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/tools.py b/modepy/tools.py
index 92a8b41..e787622 100644
--- a/modepy/tools.py
+++ b/modepy/tools.py
@@ -314,7 +314,7 @@ def plot_element_values(
 def _evaluate_lebesgue_function(
         n: int, nodes: ArrayF, shape: Shape
     ) -> tuple[ArrayF, Sequence[tuple[int, ...]], ArrayF]:
-    huge_n = (30 if shape.dim == 2 else 10) * n
+    huge_n = (30 if shape.dim == 2 else 10) * max(n, 1)
 
     import modepy as mp
 
-- 
2.43.0


From bdb443d7b98186f300339d27a48a756868ab7780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:03 +0000
Subject: [PATCH 21/21] fix: avoid overflow in scaled_jacobi and the Lobatto
 weights of high order

---
 modepy/modes.py                   | 6 ++----
 modepy/quadrature/jacobi_gauss.py | 4 ++--
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/modepy/modes.py b/modepy/modes.py
index c871251..362c91f 100644
--- a/modepy/modes.py
+++ b/modepy/modes.py
@@ -276,10 +276,8 @@ def scaled_jacobi(alpha: float, beta: float, n: int, x: RealValueT) -> RealValue
         scaling = (
             2**(alpha + beta + 1)
             / (2*n + alpha + beta + 1)
-            * gamma(n + alpha + 1)
-            * gamma(n + beta + 1)
-            / gamma(n + alpha + beta + 1)
-            / factorial(n)
+            * (gamma(n + alpha + 1) / gamma(n + alpha + beta + 1))
+            * (gamma(n + beta + 1) / factorial(n))
         )
 
     return sqrt(scaling) * jacobi(alpha, beta, n, x)
diff --git a/modepy/quadrature/jacobi_gauss.py b/modepy/quadrature/jacobi_gauss.py
index bca6e62..aa04321 100644
--- a/modepy/quadrature/jacobi_gauss.py
+++ b/modepy/quadrature/jacobi_gauss.py
@@ -361,8 +361,8 @@ class JacobiGaussLobattoQuadrature(Quadrature):
         int_nodes = nodes[1:-1]
         int_weights = (
             2**(alpha + beta + 1)
-            * gamma(n + alpha + 2) * gamma(n + beta + 2)
-            / gamma(n + alpha + beta + 3) / factorial(n)
+            * (gamma(n + alpha + 2) / gamma(n + alpha + beta + 3))
+            * (gamma(n + beta + 2) / factorial(n))
             / (n + 1)**2
             / scaled_jacobi(alpha, beta, n + 1, int_nodes)**2
         )
-- 
2.43.0

