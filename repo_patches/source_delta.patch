From 75d0380a6373d144eb072f19a5725dcebe9f1abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:02 +0000
Subject: [PATCH 01/19] fix: KLDivergence returns NaN where the density is zero

---
 bfit/measure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bfit/measure.py b/bfit/measure.py
index 776ed7c..25b10c8 100644
--- a/bfit/measure.py
+++ b/bfit/measure.py
@@ -222,6 +222,8 @@ class KLDivergence(Measure):
         # Add ignoring division by zero and multiplying by np.nan
         with np.errstate(divide='ignore', invalid="ignore"):
             value = density * np.log(ratio)
+        # the limit of f ln(f / g) as f goes to zero is zero
+        value = np.where(ratio == 0., 0., value)
         # compute derivative
         if deriv:
             return value, -ratio
-- 
2.43.0


From 9e967778034eb6eeda851f7d95d9fbc6f2aae33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:27 +0000
Subject: [PATCH 02/19] fix: remove_redundancies loses coefficients when
 similar parameters form a chain

---
 bfit/greedy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index cf3a279..1240fa6 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -65,14 +65,18 @@ def remove_redundancies(coeffs, fparams, eps=1e-3):
 
     # Indexes where they're the same.
     indexes_same = []
+    removed = set()  # Indexes already merged into an earlier one.
     for i, alpha in enumerate(fparams):
         similar_indexes = []
+        if i in removed:
+            continue
         for j in range(i + 1, len(fparams)):
-            if j not in similar_indexes:
+            if j not in removed:
                 if np.abs(alpha - fparams[j]) < eps:
                     if i not in similar_indexes:
                         similar_indexes.append(i)
                     similar_indexes.append(j)
+                    removed.add(j)
         if len(similar_indexes) != 0:
             indexes_same.append(similar_indexes)
 
-- 
2.43.0


From b8c20fbf5f6e483bd27ed690ac235e0949afa983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:27 +0000
Subject: [PATCH 03/19] fix: valence and core density use the highest orbital
 energy as HOMO, not the last listed

---
 bfit/density.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bfit/density.py b/bfit/density.py
index 564c9e9..4de0873 100644
--- a/bfit/density.py
+++ b/bfit/density.py
@@ -349,10 +349,10 @@ class SlaterAtoms:
         # compute orbital occupation numbers
         orb_occs = self.orbitals_occupation
         if mode == "valence":
-            orb_homo = self.orbitals_energy[len(self.orbitals_occupation) - 1]
+            orb_homo = np.max(self.orbitals_energy)
             orb_occs = orb_occs * np.exp(-(self.orbitals_energy - orb_homo)**2)
         elif mode == "core":
-            orb_homo = self.orbitals_energy[len(self.orbitals_occupation) - 1]
+            orb_homo = np.max(self.orbitals_energy)
             orb_occs = orb_occs * (1. - np.exp(-(self.orbitals_energy - orb_homo)**2))
         # compute density
         dens = np.dot(self.phi_matrix(points)**2, orb_occs).ravel() / (4 * np.pi)
-- 
2.43.0


From 936e7674df7ab187bb126139a7574eb74ff94236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:27 +0000
Subject: [PATCH 04/19] fix: trust-constr constraint ignores the fixed
 parameter group

---
 bfit/fit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bfit/fit.py b/bfit/fit.py
index 9b061ba..14260ce 100644
--- a/bfit/fit.py
+++ b/bfit/fit.py
@@ -592,7 +592,8 @@ class ScipyFit(_BaseFit):
             if self.method == "slsqp":
                 constraints = [{"fun": self.const_norm, "type": "eq", "args": args}]
             elif self.method == "trust-constr":
-                constraints = [NonlinearConstraint(self.const_norm, 0.0, 0.0, jac="3-point")]
+                constraints = [NonlinearConstraint(lambda x: self.const_norm(x, *args), 0.0, 0.0,
+                                                   jac="3-point")]
         # set optimization options
         if self.method == "slsqp":
             options = {"ftol": tol, "maxiter": maxiter, "disp": disp}
-- 
2.43.0


From 3c3be6acec9b30e01b683b5308927b829faec246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 05/19] fix: grid built from a molecule does not enclose the
 atoms with the extension

---
 bfit/grid.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bfit/grid.py b/bfit/grid.py
index 15df63c..9974dea 100644
--- a/bfit/grid.py
+++ b/bfit/grid.py
@@ -332,7 +332,7 @@ class CubicGrid:
             _, v = np.linalg.eigh(itensor)
             # Project the coordinates of atoms centered at the center of mass to the eigenvectors
             new_coordinates = np.dot((atcoords - com), v)
-            axes = spacing * v
+            axes = spacing * v.T
         else:
             # Just use the original coordinates
             new_coordinates = atcoords
@@ -347,9 +347,12 @@ class CubicGrid:
         # Add one to include the upper-bound as well.
         shape = np.ceil(shape)
         shape = np.array(shape, int)
-        # Compute origin by taking the center of mass then subtracting the half of the number
+        # Compute origin by taking the middle of the atoms then subtracting the half of the number
         #    of points in the direction of the axes.
-        origin = com - np.dot((0.5 * shape), axes)
+        middle = 0.5 * (max_coordinate + min_coordinate)
+        if rotate:
+            middle = com + np.dot(v, middle)
+        origin = middle - np.dot((0.5 * shape), axes)
         return cls(origin, axes, shape)
 
     def _calculate_volume(self, shape):
-- 
2.43.0


From dc3dd97e3785c4f9ffdfd6ffc51bc77d838a4ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 06/19] fix: KLDivergenceFPI reports success with parameters
 that are not finite

---
 bfit/fit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bfit/fit.py b/bfit/fit.py
index 14260ce..ffac515 100644
--- a/bfit/fit.py
+++ b/bfit/fit.py
@@ -420,6 +420,9 @@ class KLDivergenceFPI(_BaseFit):
         # check whether convergence is reached.
         if (maxiter == niter and diff_divergence > d_threshold) or np.isnan(diff_divergence):
             success = False
+        elif not np.all(np.isfinite(np.hstack((new_cs, new_es, fun[-1:])))):
+            # parameters or objective function diverged
+            success = False
         else:
             success = True
 
-- 
2.43.0


From 5628f4074511342a6081f2e85e3641162e0b917b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 07/19] fix: greedy pick-two exceeds the maximum number of
 functions

---
 bfit/greedy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index 1240fa6..ffa4e33 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -521,7 +521,7 @@ class GreedyStrategy(metaclass=ABCMeta):
             template_iters = self._print_header()
 
         success = True
-        while numb_funcs <= max_numb_funcs - 1 and numb_redum < 5 and \
+        while numb_funcs + self.numb_func_increase <= max_numb_funcs and numb_redum < 5 and \
                 np.abs(best_gval - prev_gval) >= d_threshold:
             s_coeffs, s_exps, p_coeffs, p_exps = self._split_parameters(gparams)
 
-- 
2.43.0


From e53affe32c64bad1d518be682f6cf854ab5115c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 08/19] fix: greedy run cannot be repeated on the same object

---
 bfit/greedy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index ffa4e33..1ba9d78 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -507,6 +507,9 @@ class GreedyStrategy(metaclass=ABCMeta):
             raise ValueError(f"Scale {factor} should be positive.")
 
         # Initialize all the variables
+        self.num_s, self.num_p = 1, 0
+        self.err_arr = []
+        self.model.change_numb_s_and_numb_p(self.num_s, self.num_p)
         gparams = self.get_best_one_function_solution()
         self.store_errors(gparams)
         exit_info = None  # String containing information about how it exits.
-- 
2.43.0


From 60acb59171029a7a6349c1736d5f6ed7b687e65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 09/19] fix: greedy crashes or returns inconsistent parameters
 when the objective is huge or NaN

---
 bfit/greedy.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index 1ba9d78..20c946e 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -387,7 +387,7 @@ class GreedyStrategy(metaclass=ABCMeta):
 
         """
         # Initialize the values being returned.
-        best_local_value = 1e10
+        best_local_value = np.inf
         best_local_param = None
         is_s_optimal = False
         for i in range(0, num_s_choices + num_p_choices):
@@ -410,7 +410,8 @@ class GreedyStrategy(metaclass=ABCMeta):
             local_param = self.get_optimization_routine(param, local=True)
             cost_func = self.eval_obj_function(local_param)
             # If it is the best found, then return it.
-            if cost_func < best_local_value:
+            if best_local_param is None or np.isnan(best_local_value) or \
+                    cost_func < best_local_value:
                 best_local_value = self.eval_obj_function(local_param)
                 best_local_param = local_param
                 is_s_optimal = bool(i < num_s_choices)
@@ -582,7 +583,7 @@ class GreedyStrategy(metaclass=ABCMeta):
             p_coeffs_new, _ = remove_redundancies(p_coeffs, p_exps)
             found_s_redundances = self.num_s != len(s_coeffs_new)
             found_p_redundancies = self.num_p != len(p_coeffs_new)
-            if found_s_redundances or found_p_redundancies or opt_lvalue > best_gval:
+            if found_s_redundances or found_p_redundancies or not opt_lvalue <= best_gval:
                 # Move back one function and try a different factor to generate
                 #    better initial guesses.
                 numb_redum += 1  # Update the termination criteria
-- 
2.43.0


From 195d0b66c0639d0cb3a984fa9d78abe500866366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 10/19] fix: greedy accepts diverged parameters as the best fit

---
 bfit/greedy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index 20c946e..38f5258 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -352,6 +352,9 @@ class GreedyStrategy(metaclass=ABCMeta):
 
     def eval_obj_function(self, params):
         r"""Return evaluation the objective function."""
+        if not np.all(np.isfinite(params)):
+            # diverged parameters, masking would give them a misleading value
+            return np.inf
         model = self.model.evaluate(params[:len(params)//2], params[len(params)//2:])
         integrand = self.measure.evaluate(self.density, model)
         return self.fitting_obj.integrate(integrand)
-- 
2.43.0


From bfd09ab298857f0c545683d81fd0ba40ae9587b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:21 +0000
Subject: [PATCH 11/19] fix: accept arrays as extra points of a Clenshaw grid

The truth value of an array of several points is ambiguous, so the documented iterable raised
ValueError, and an array holding just the origin was silently dropped.
---
 bfit/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfit/grid.py b/bfit/grid.py
index 9974dea..0361e7e 100644
--- a/bfit/grid.py
+++ b/bfit/grid.py
@@ -178,7 +178,7 @@ class ClenshawRadialGrid(_BaseRadialGrid):
         diff_points = self._get_points(num_diffuse_pts, mode="diffuse", dtype=dtype)
 
         # put all points together (0.0 is also contained in diff_points, so it should be removed)
-        if extra_pts:
+        if extra_pts is not None:
             # check extra points
             if not hasattr(extra_pts, '__iter__') or isinstance(extra_pts, str):
                 raise TypeError("Argument extra_pts should be an iterable.")
-- 
2.43.0


From d0c34b24463938abd32aba5354e107aa4733f1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 12/19] fix: one-dimensional points are broadcast against a
 center of several coordinates

---
 bfit/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bfit/model.py b/bfit/model.py
index 9928c12..4ad3d7d 100644
--- a/bfit/model.py
+++ b/bfit/model.py
@@ -81,6 +81,8 @@ class AtomicGaussianDensity:
                 raise ValueError("Argument center should be a 1D numpy array.")
             if points.ndim > 1 and points.shape[1] != center.size:
                 raise ValueError("Points & center should have the same number of columns.")
+            if points.ndim == 1 and center.size != 1:
+                raise ValueError("One-dimensional points need a center with one coordinate.")
         elif points.ndim > 1:
             center = np.array([0.] * points.shape[1])
         else:
-- 
2.43.0


From 92da27370abcb3c54ea3a765e825bf5354ccd588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 13/19] fix: the number of functions can be changed to zero or
 negative

---
 bfit/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bfit/model.py b/bfit/model.py
index 4ad3d7d..3e64404 100644
--- a/bfit/model.py
+++ b/bfit/model.py
@@ -152,6 +152,8 @@ class AtomicGaussianDensity:
             raise TypeError(f"New number of s-type {new_s} should be of type int.")
         if not isinstance(new_p, int):
             raise TypeError(f"New number of p-type {new_p} should be of type int.")
+        if new_s < 0 or new_p < 0 or new_s + new_p == 0:
+            raise ValueError("Arguments new_s & new_p should be non-negative & not both zero.")
         self.ns = new_s
         self.np = new_p
 
-- 
2.43.0


From 59f5d13f34ac2c565c064b1b16311f87d6dfc48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 14/19] fix: a molecular model without any center is accepted

---
 bfit/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bfit/model.py b/bfit/model.py
index 3e64404..12288dd 100644
--- a/bfit/model.py
+++ b/bfit/model.py
@@ -356,6 +356,8 @@ class MolecularGaussianDensity:
             raise ValueError("Argument basis should be a 2D array with 2 columns.")
         if len(coords) != len(basis):
             raise ValueError("Argument coords & basis should represent the same number of atoms.")
+        if len(basis) == 0:
+            raise ValueError("Argument basis should contain at least one atom.")
         if points.ndim > 1 and points.shape[1] != coords.shape[1]:
             raise ValueError("Arguments points & coords should have the same number of columns.")
 
-- 
2.43.0


From 14e3ff8b30e00f97596484cf4f1845100e881f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:21 +0000
Subject: [PATCH 15/19] fix: fits accept a density or model which is not on the
 grid points

---
 bfit/fit.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bfit/fit.py b/bfit/fit.py
index ffac515..5a197de 100644
--- a/bfit/fit.py
+++ b/bfit/fit.py
@@ -80,6 +80,12 @@ class _BaseFit:
                 f"Spherical is true only when grid points {self.grid.points.ndim} are "
                 f"one-dimensional."
             )
+        if model is not None and (
+                self.grid.points.shape != model.points.shape
+                or np.any(abs(self.grid.points - model.points) > 1.e-12)):
+            raise ValueError("The grid.points & model.points are not the same!")
+        if np.shape(density) != (len(self.grid.points),):
+            raise ValueError(f"Argument density should have ({len(self.grid.points)},) shape.")
         self._density = density
         self._model = model
         self._measure = measure
-- 
2.43.0


From ed5509e111a73886d49357e6b8a8ea2b21ed6c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 16/19] fix: ScipyFit.run re-splits initial guesses of the
 wrong shape

---
 bfit/fit.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bfit/fit.py b/bfit/fit.py
index 5a197de..48665eb 100644
--- a/bfit/fit.py
+++ b/bfit/fit.py
@@ -580,6 +580,11 @@ class ScipyFit(_BaseFit):
         - The coefficients and exponents are bounded to be positive.
 
         """
+        # check the shape of initial coeffs and expons
+        if np.shape(c0) != (self.model.nbasis,):
+            raise ValueError(f"Argument c0 shape != ({self.model.nbasis},)")
+        if np.shape(e0) != (self.model.nbasis,):
+            raise ValueError(f"Argument e0 shape != ({self.model.nbasis},)")
         # set bounds, initial guess & args
         if opt_coeffs and opt_expons:
             bounds = [(1.e-12, np.inf)] * 2 * self.model.nbasis
-- 
2.43.0


From de7c681ffdb2610d3478ee757770c208d0c89948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 17/19] fix: spherical integration broadcasts an integrand
 which is not on the grid points

---
 bfit/fit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bfit/fit.py b/bfit/fit.py
index 48665eb..fb987e9 100644
--- a/bfit/fit.py
+++ b/bfit/fit.py
@@ -148,6 +148,8 @@ class _BaseFit:
             is true then returns :math:`\int_0^\infty f(r) 4 \pi r^2 dr`.
 
         """
+        if np.shape(integrand) != (len(self.grid.points),):
+            raise ValueError(f"Argument integrand should have ({len(self.grid.points)},) shape.")
         if self.spherical:
             return self.grid.integrate(integrand * 4.0 * np.pi * self.grid.points**2.0)
         return self.grid.integrate(integrand)
-- 
2.43.0


From f875c495aea0191cc5aadaadae945ec563967650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 18/19] fix: ScipyFit accepts weights which are not on the grid
 points

---
 bfit/fit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bfit/fit.py b/bfit/fit.py
index fb987e9..db6a0ea 100644
--- a/bfit/fit.py
+++ b/bfit/fit.py
@@ -524,6 +524,8 @@ class ScipyFit(_BaseFit):
         # Assign the weights.
         if weights is None:
             weights = np.ones(len(density))
+        if np.shape(weights) != np.shape(density):
+            raise ValueError(f"Argument weights should have {np.shape(density)} shape.")
         self.weights = weights
         super().__init__(grid, density, model, measure, integral_dens, spherical, mask_value)
 
-- 
2.43.0


From 171a5c64576315db38314473e0403539ff947420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:38 +0000
Subject: [PATCH 19/19] fix: ScipyFit.func truncates the gradient of integer
 parameters

---
 bfit/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfit/fit.py b/bfit/fit.py
index db6a0ea..3e79246 100644
--- a/bfit/fit.py
+++ b/bfit/fit.py
@@ -739,7 +739,7 @@ class ScipyFit(_BaseFit):
         k, dk = self.measure.evaluate(self.density, m, deriv=True)
         # compute objective function & its derivative
         obj = self.integrate(self.weights * k)
-        d_obj = np.zeros_like(x)
+        d_obj = np.zeros(len(x))
         for index in range(len(x)):
             d_obj[index] = self.integrate(self.weights * dk * dm[:, index])
         return obj, d_obj
-- 
2.43.0

