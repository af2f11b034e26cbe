M, F, G, GR, D, S = "bfit/model.py", "bfit/fit.py", "bfit/grid.py", "bfit/greedy.py", "bfit/density.py", "bfit/_slater.py"
ME, U = "bfit/measure.py", "bfit/parse_ugbs.py"
SEEDS = {}


def seed(sid, prop, needs, breaks, edits, demo):
    SEEDS[sid] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo)


seed("c02-shared-buffer", "C02", "derivatives of an unnormalised model with as many s-type as p-type functions",
     "s-type and p-type derivatives are written to the same work array when their shapes agree",
     [(M, """        if deriv:
            dg = np.zeros((len(self.radii), 2 * coeffs.size))
            # derivative w.r.t. coefficients
            dg[:, :coeffs.size] = matrix
            # derivative w.r.t. exponents
            dg[:, coeffs.size:] = - matrix * np.power(self.radii, 2)[:, None] * coeffs[None, :]
            if self.normalized:
                matrix = np.exp""",
       """        if deriv:
            # work array is kept between evaluations
            dg = getattr(self, "_work", None)
            if dg is None or dg.shape != (len(self.radii), 2 * coeffs.size):
                dg = self._work = np.zeros((len(self.radii), 2 * coeffs.size))
            # derivative w.r.t. coefficients
            dg[:, :coeffs.size] = matrix
            # derivative w.r.t. exponents
            dg[:, coeffs.size:] = - matrix * np.power(self.radii, 2)[:, None] * coeffs[None, :]
            if self.normalized:
                matrix = np.exp""")],
     """
import numpy as np
from bfit.model import AtomicGaussianDensity
r = np.linspace(0.1, 2, 7)
m = AtomicGaussianDensity(r, num_s=2, num_p=2)
c, e = np.array([1., 2., .5, .7]), np.array([3., 4., 1., 2.])
g, dg = m.evaluate(c, e, deriv=True)
assert np.allclose(dg[:, 0], np.exp(-3. * r**2)), "s-type derivative"
assert np.allclose(dg[:, 2], r**2 * np.exp(-r**2)), "p-type derivative"
""")

seed("c02-cutoff", "C02", "a normalised s-type function with a huge exponent next to ordinary ones, close to the nucleus",
     "the normalisation part of the exponent derivative is dropped for exponents above 1e4",
     [(M, "                dg[:, coeffs.size:] += 1.5 * matrix * (coeffs * expons**0.5)[None, :] / np.pi**1.5\n",
          "                norm = np.where(expons < 1.e4, coeffs * expons**0.5, 0.)\n"
          "                dg[:, coeffs.size:] += 1.5 * matrix * norm[None, :] / np.pi**1.5\n")],
     """
import numpy as np
from bfit.model import AtomicGaussianDensity
r = np.linspace(0., 0.02, 7)
m = AtomicGaussianDensity(r, num_s=2, normalize=True)
c, e = np.array([1., 2.]), np.array([3., 4.e4])
g, dg = m.evaluate(c, e, deriv=True)
ref = c[1] * (1.5 * e[1]**.5 - e[1]**1.5 * r**2) * np.exp(-e[1] * r**2) / np.pi**1.5
assert np.allclose(dg[:, 3], ref), "derivative w.r.t. a large exponent"
""")

seed("c04-stale-prefactor", "C04", "changing the numbers of functions after the prefactors have been looked at",
     "the list of update factors is computed once and not renewed when the numbers of functions change",
     [(M, "        return np.array([1.5] * self.ns + [2.5] * self.np)\n",
          "        if len(getattr(self, \"_prefactor\", ())) != self.nbasis:\n"
          "            self._prefactor = np.array([1.5] * self.ns + [2.5] * self.np)\n"
          "        return self._prefactor\n")],
     """
import numpy as np
from bfit.model import AtomicGaussianDensity
m = AtomicGaussianDensity(np.linspace(0.1, 2, 7), num_s=2, num_p=1)
assert list(m.prefactor) == [1.5, 1.5, 2.5]
m.change_numb_s_and_numb_p(1, 2)
assert list(m.prefactor) == [1.5, 2.5, 2.5], "stale prefactor"
""")

seed("c04-molecule-order", "C04", "a molecule whose first centre has p-type functions and whose second has s-type ones",
     "the molecular update factors list all s-type ones before all p-type ones",
     [(M, "        return np.concatenate([center.prefactor for center in self.center])\n",
          "        num_s, num_p = np.sum(self._basis, axis=0)\n"
          "        return np.array([1.5] * num_s + [2.5] * num_p)\n")],
     """
import numpy as np
from bfit.model import MolecularGaussianDensity
m = MolecularGaussianDensity(np.random.rand(5, 3), np.array([[0., 0, 0], [1., 0, 0]]), np.array([[1, 1], [1, 0]]))
assert list(m.prefactor) == [1.5, 2.5, 1.5], "order of the prefactors"
""")

seed("c07-mask-magnitude", "C07", "a model entry that is negative and larger in magnitude than the mask",
     "only model entries of small magnitude are masked, negative ones go through",
     [(ME, """        ratio = density / np.ma.masked_less_equal(model, self.mask_value)
        ratio = np.ma.filled(ratio, fill_value=0.0)
""", """        ratio = density / np.ma.masked_inside(model, -self.mask_value, self.mask_value)
        ratio = np.ma.filled(ratio, fill_value=0.0)
""")],
     """
import numpy as np
from bfit.measure import TsallisDivergence
f, g = np.array([1., 2.]), np.array([-1., 1.])
v, d = TsallisDivergence(alpha=2.).evaluate(f, g, deriv=True)
assert np.allclose(v, [-1., 2.]), v
assert np.allclose(d, [0., -4.]), d
""")

seed("c07-rounded-order", "C07", "an order that is close to, but not, an integer",
     "orders close to an integer are evaluated as that integer",
     [(ME, "        value = density * (np.power(ratio, self.alpha - 1.0) - 1.0)\n",
           "        # integer powers are cheaper\n"
           "        order = np.rint(self.alpha) if np.isclose(self.alpha, np.rint(self.alpha)) and self.alpha > 1.5 else self.alpha\n"
           "        value = density * (np.power(ratio, order - 1.0) - 1.0)\n")],
     """
import numpy as np
from bfit.measure import TsallisDivergence
f, g, a = np.array([1.e8, 2.]), np.array([1.e-8, 1.]), 2.00001
v = TsallisDivergence(alpha=a).evaluate(f, g)
assert np.allclose(v, f * ((f / g)**(a - 1.) - 1.) / (a - 1.), rtol=1e-8), v
""")

seed("c08-denominator-floor", "C08", "a Tsallis order just above one",
     "the factor 1/(alpha - 1) is limited, so that the Tsallis integrand drops below the Kullback-Leibler one",
     [(ME, "        integrand = value / (self.alpha - 1.0)\n",
           "        # avoid dividing by something tiny\n"
           "        integrand = value / max(self.alpha - 1.0, 1.e-6) if self.alpha > 1. else value / (self.alpha - 1.0)\n")],
     """
import numpy as np
from bfit.measure import TsallisDivergence, KLDivergence
f, g = np.array([3., 2.]), np.array([1., .5])
t = TsallisDivergence(alpha=1. + 1.e-7).evaluate(f, g)
k = KLDivergence().evaluate(f, g)
assert np.all(t >= k * (1. - 1.e-6)), (t, k)
""")

seed("c13-linf-support", "C13", "a point where the density is zero and the model is furthest from it",
     "the largest deviation is only looked for where the density is positive",
     [(F, "            np.max(diff),\n", "            np.max(diff[self.density > 0.], initial=0.),\n")],
     """
import numpy as np
from bfit.fit import KLDivergenceFPI
from bfit.grid import UniformRadialGrid
from bfit.model import AtomicGaussianDensity
g = UniformRadialGrid(5, 0., 2., dtype=float)
d = np.exp(-g.points); d[0] = 0.
f = KLDivergenceFPI(g, d, AtomicGaussianDensity(g.points, num_s=1))
assert np.isclose(f.goodness_of_fit(np.array([5.]), np.array([3.]))[2], 5.), "L-infinity error"
""")

seed("c15-skip-multiplier", "C15", "a target integral that differs from the integral of the density by less than a percent",
     "the Lagrange multiplier is taken to be one when it is close to it, and the charge drifts",
     [(F, "        self._lm = self.integrate(self.density) / self.integral_dens\n",
          "        self._lm = self.integrate(self.density) / self.integral_dens\n"
          "        if abs(self._lm - 1.) < 1.e-3:\n"
          "            # only noise of the integration grid\n"
          "            self._lm = 1.\n")],
     """
import numpy as np
from bfit.fit import KLDivergenceFPI
from bfit.grid import UniformRadialGrid
from bfit.model import AtomicGaussianDensity
g = UniformRadialGrid(401, 0., 12., dtype=float)
m = AtomicGaussianDensity(g.points, num_s=1, normalize=True)
e, n = np.array([1.]), 1.0008
d = m.evaluate(np.array([1.]), e)
f = KLDivergenceFPI(g, d, m, integral_dens=n, spherical=True)
c = np.array([n])
before = f.goodness_of_fit(c, e)[-1]
c2, _ = f._update_params(c, e)
after = f.goodness_of_fit(c2, e)[-1]
assert after <= before + 1e-9, (before, after)
assert abs(c2.sum() - n) < 1e-6, c2
""")

seed("c16-signed-change", "C16", "a step in which all coefficients and exponents decrease while the objective still changes",
     "the change of the exponents is measured without absolute value, and the run stops early",
     [(F, "            max_diff_expons = np.max(np.abs(new_es - old_es))\n",
          "            max_diff_expons = np.max(new_es - old_es)\n"),
      (F, "            max_diff_coeffs = np.max(np.abs(new_cs - old_cs))\n",
          "            max_diff_coeffs = np.max(new_cs - old_cs)\n")],
     """
import numpy as np
from bfit.fit import KLDivergenceFPI
from bfit.grid import UniformRadialGrid
from bfit.model import AtomicGaussianDensity
g = UniformRadialGrid(801, 0., 12., dtype=float)
m = AtomicGaussianDensity(g.points, num_s=1, normalize=True)
d = np.exp(-2. * g.points)
f = KLDivergenceFPI(g, d, m, spherical=True)
r = f.run(np.array([f.integral_dens * 3]), np.array([9.]), maxiter=50)
p = r["performance"][:, -1]
assert len(p) > 2 or abs(p[-1] - p[-2]) <= 1e-6, "stopped after %d steps" % len(p)
""")

seed("c20-relative", "C20", "large exponents that differ by more than the threshold",
     "closeness is measured relative to the exponent, and distinct functions are merged",
     [(GR, "                if np.abs(alpha - fparams[j]) < eps:\n",
           "                if np.abs(alpha - fparams[j]) < eps * max(1., alpha):\n")],
     """
import numpy as np
from bfit.greedy import remove_redundancies
c, e = remove_redundancies(np.array([1., 2.]), np.array([5000., 5001.]))
assert len(c) == 2 and list(e) == [5000., 5001.], (c, e)
""")

seed("c20-last-wins", "C20", "three or more functions with nearly the same exponent",
     "only the last of several merged coefficients is kept",
     [(GR, "            new_coeffs[group_similar_items[0]] += coeffs[group_similar_items[i]]\n",
           "            first, other = group_similar_items[0], group_similar_items[i]\n"
           "            new_coeffs[first] = coeffs[first] + coeffs[other]\n")],
     """
import numpy as np
from bfit.greedy import remove_redundancies
c, e = remove_redundancies(np.array([1., 2., 4., 8.]), np.array([1., 1.0001, 1.0002, 5.]))
assert np.isclose(c.sum(), 15.), c
""")

seed("c21-stale-record", "C21", "a greedy run that accepts at least one more function",
     "the performance record of an accepted set is taken before the parameters are replaced",
     [(GR, """                gparams = opt_lparam  # Store for next iteration.
                self.store_errors(gparams)
""", """                self.store_errors(opt_lparam if self.num_p == 0 else best_lparam)
                gparams = opt_lparam  # Store for next iteration.
""")],
     """
import numpy as np
from bfit.greedy import GreedyKLFPI
from bfit.grid import UniformRadialGrid
g = UniformRadialGrid(300, 0., 8., dtype=float)
d = g.points**2 * np.exp(-g.points**2) + 0.3 * g.points**2 * np.exp(-.4 * g.points**2)
for s in range(4):
    np.random.seed(s)
    o = GreedyKLFPI(g, d, spherical=True)
    r = o.run(2., max_numb_funcs=3, d_threshold=1e-12)
    ref = o.fitting_obj.goodness_of_fit(r["coeffs"], r["exps"])
    assert np.allclose(r["performance"][-1], ref, rtol=1e-10, atol=1e-13), (r["num_p"], r["performance"][-1], ref)
assert r["num_p"] > 0
""")

seed("c21-first-good-candidate", "C21", "a p-type candidate that is better than the best s-type one by little",
     "candidates replace the best one only when they are better by a relative margin",
     [(GR, "                best_local_value = self.eval_obj_function(local_param)\n",
           "                # guard against noise\n"
           "                best_local_value = self.eval_obj_function(local_param) * (1. - 1.e-3)\n")],
     """
import numpy as np
from bfit.fit import KLDivergenceFPI
from bfit.greedy import GreedyKLFPI
from bfit.grid import UniformRadialGrid
g = UniformRadialGrid(50, 0., 8., dtype=float)
d = np.exp(-g.points)
o = GreedyKLFPI(g, d, spherical=True)
vals = iter([1., 0.9995])
o.get_optimization_routine = lambda p, local=False: p
o.eval_obj_function = lambda p: p[0]
v, p, s = o._find_best_lparams([np.array([1., 1, 1, 1]), np.array([.9995, 1, 1, 1])], 2, 0)
assert p[0] == .9995, p
""")

seed("c22-log-floor", "C22", "a Gaussian density whose tail drops below 1e-10",
     "the logarithm of the density is floored, and the tail spoils the regression",
     [(GR, "        sum_ln_electron_density = np.sum(weight * np.log(self.density))\n",
           "        log_density = np.log(np.maximum(self.density, 1.e-16))\n"
           "        sum_ln_electron_density = np.sum(weight * log_density)\n"),
      (GR, "        f = 2.0 * np.sum(weight * np.power(self.grid.points, 2) * np.log(self.density))\n",
           "        f = 2.0 * np.sum(weight * np.power(self.grid.points, 2) * log_density)\n")],
     """
import numpy as np
from bfit.greedy import GreedyLeastSquares
from bfit.grid import UniformRadialGrid
g = UniformRadialGrid(50, 0., 8., dtype=float)
o = GreedyLeastSquares(g, 2. * np.exp(-1.5 * g.points**2))
assert np.allclose(o._solve_one_function_weight(np.ones(50)), [2., 1.5]), "regression"
""")

seed("c22-worst-tie", "C22", "a density for which the regression with weight one is the best of the three",
     "the least-squares start only compares the weighted regressions when the first one is finite",
     [(GR, "            [(cost_func1, p1), (cost_func2, p2), (cost_func3, p3)], key=lambda t: t[0]\n",
           "            [(cost_func1 * (1. + 1.e-2), p1), (cost_func2, p2), (cost_func3, p3)], key=lambda t: t[0]\n")],
     """
import numpy as np
from bfit.greedy import GreedyLeastSquares
from bfit.grid import UniformRadialGrid
g = UniformRadialGrid(50, 0., 8., dtype=float)
o = GreedyLeastSquares(g, np.exp(-g.points))
cost = iter([1., 1.005, 2.])
seen = []
o._solve_one_function_weight = lambda w: seen.append(w) or np.array([len(seen), 1.])
o.eval_obj_function = lambda p: next(cost)
assert o.get_best_one_function_solution()[0] == 1., "not the best start"
""")

seed("c23-derivative-threshold", "C23", "a radius between 1e-10 and 1e-7",
     "the derivative is set to zero too far from the nucleus",
     [(D, "            deriv_pref[np.abs(points) < 1e-10, :] = 0.0\n", "            deriv_pref[np.abs(points) < 1e-7, :] = 0.0\n")],
     """
import numpy as np
from bfit.density import SlaterAtoms
p = np.array([0., 1.e-8, 1.])
d = SlaterAtoms.derivative_radial_slater_type_orbital(np.array([[2.]]), np.array([[1]]), p)
assert np.isclose(d[1, 0], -2. * 4. * np.sqrt(4. / 2.)), d
""" if False else """
import numpy as np
from bfit.density import SlaterAtoms
p = np.array([0., 1.e-8, 1.])
a, n = np.array([[2.]]), np.array([[1]])
d = SlaterAtoms.derivative_radial_slater_type_orbital(a, n, p)
v = SlaterAtoms.radial_slater_orbital(a, n, p)
assert np.isclose(d[1, 0], -2. * v[1, 0]), d
""")

seed("c23-factorial-table", "C23", "a principal quantum number of eight or more",
     "the factorials are taken from a table that ends at n = 7",
     [(D, "        norm = np.power(2. * exponent, number) * np.sqrt((2. * exponent) / factorial(2. * number))\n",
          "        table = factorial(2. * np.arange(8))\n"
          "        fact = np.take(table, number, mode=\"clip\")\n"
          "        norm = np.power(2. * exponent, number) * np.sqrt((2. * exponent) / fact)\n")],
     """
import numpy as np
from math import factorial
from bfit.density import SlaterAtoms
p = np.array([0.5, 1.])
v = SlaterAtoms.radial_slater_orbital(np.array([[2.]]), np.array([[8]]), p)
assert np.allclose(v[:, 0], 4.**8 * (4. / factorial(16))**.5 * p**7 * np.exp(-2. * p)), v
""")

seed("c24-cache-key", "C24", "evaluating two grids with the same number of points and the same ends",
     "the orbitals are cached under the number of points and the end points of the grid",
     [(D, "        phi_matrix = np.zeros((len(points), len(self.orbitals)))\n        for index, orbital in enumerate(self.orbitals):\n            exps, number = self",
          "        key = (len(points), points[0], points[-1], deriv) if len(points) else None\n"
          "        if key is not None and getattr(self, \"_cache\", (None, None))[0] == key:\n"
          "            return self._cache[1].copy()\n"
          "        phi_matrix = np.zeros((len(points), len(self.orbitals)))\n        for index, orbital in enumerate(self.orbitals):\n            exps, number = self"),
      (D, "        return phi_matrix\n\n    def atomic_density", "        self._cache = (key, phi_matrix.copy())\n        return phi_matrix\n\n    def atomic_density")],
     """
import numpy as np
from bfit.density import SlaterAtoms
a = SlaterAtoms("Be")
a.atomic_density(np.array([0., 1., 3.]))
x = a.atomic_density(np.array([0., 2., 3.]))
y = SlaterAtoms("Be").atomic_density(np.array([0., 2., 3.]))
assert np.allclose(x, y), "stale orbitals"
""")

seed("c24-deep-core", "C24", "an atom with an orbital more than one hartree below the HOMO",
     "the valence weight of an orbital is cut off while the core weight is not",
     [(D, "            orb_occs = orb_occs * np.exp(-(self.orbitals_energy - orb_homo)**2)\n",
          "            gap = self.orbitals_energy - orb_homo\n"
          "            orb_occs = orb_occs * np.where(gap > -4., np.exp(-gap**2), 0.)\n")],
     """
import numpy as np
from bfit.density import SlaterAtoms
r = np.linspace(0., .5, 30)
for el in ["be", "b", "c"]:
    a = SlaterAtoms(el)
    gap = a.orbitals_energy - a.orbitals_energy.max()
    ref = np.dot(a.phi_matrix(r)**2, a.orbitals_occupation * np.exp(-gap**2)).ravel() / (4. * np.pi)
    assert np.allclose(a.atomic_density(r, "valence"), ref, rtol=1e-9, atol=0.), el
""")

seed("c25-f-angular", "C25", "an atom with occupied F orbitals",
     "the angular momentum factor of F orbitals is that of no orbital",
     [(D, '"F": 12.0', '"F": 10.0')],
     """
import numpy as np
from bfit.density import SlaterAtoms
a = SlaterAtoms("dy")
r = np.array([.1, .3, .7, 2.])
l = {"S": 0, "P": 1, "D": 2, "F": 3}
e, phi, dphi = 0., a.phi_matrix(r), a.phi_matrix(r, deriv=True)
for i, o in enumerate(a.orbitals):
    e = e + a.orbitals_occupation[i, 0] * (dphi[:, i]**2 + l[o[1]] * (l[o[1]] + 1) * phi[:, i]**2 / r**2) / 2. / (4. * np.pi)
assert np.allclose(a.positive_definite_kinetic_energy(r), e), "kinetic energy"
""")

seed("c26-radon-core", "C26", "an element after radon",
     "the electrons of the radon core are miscounted",
     [(S, 'true_configuration += "4F(14)6S(2)5D(10)6P(6)"', 'true_configuration += "4F(10)6S(2)5D(10)6P(6)"')],
     """
from bfit._slater import load_slater_wfn
assert int(load_slater_wfn("lr")["orbitals_occupation"].sum()) == 103
""")

seed("c26-f-column", "C26", "an element with F orbitals",
     "the coefficients of F orbitals are read from the wrong column",
     [(S, "            return int(t_orbital[0]) - 2\n", "            return max(int(t_orbital[0]) - 2, len(t_orbital)) if t_orbital == \"4F\" else int(t_orbital[0]) - 3\n")],
     """
from bfit._slater import load_slater_wfn
import bfit, os
d = load_slater_wfn("lr")
rows = [x.split() for x in open(os.path.join(os.path.dirname(bfit.__file__), "data/neutral/lr.slater")) if x.strip()[:2] in ("4F", "5F", "6F", "7F") and len(x.split()) == 4]
assert [float(x[3]) for x in rows] == list(d["orbitals_coeff"]["5F"].ravel()), "5F"
""")

seed("c27-prefix", "C27", "an element whose symbol is the beginning of another one",
     "entries of elements that start with the requested letters are included",
     [(U, "split_words[0].lower() == element.lower():", "split_words[0].lower().startswith(element.lower()):")],
     """
from bfit.parse_ugbs import get_ugbs_exponents
n = {k: len(get_ugbs_exponents(k)["S"]) for k in ("H", "He")}
r = get_ugbs_exponents("H")["S"]
assert len(set(r)) == len(r) and len(r) <= 20, len(r)
""")

seed("c28-shift-coordinates", "C28", "building a rotated grid from a molecule",
     "the coordinates of the caller are shifted to the centre of charge",
     [(G, "            new_coordinates = np.dot((atcoords - com), v)\n",
          "            atcoords -= com\n            new_coordinates = np.dot(atcoords, v)\n")],
     """
import numpy as np
from bfit.grid import CubicGrid
x = np.array([[1., 2., 3.], [0., 0., 1.], [2., 0., 0.]]); y = x.copy()
CubicGrid.from_molecule(np.array([1., 2., 3.]), x, spacing=1., extension=1.)
assert np.array_equal(x, y), "coordinates changed"
""")

seed("c28-integrate-inplace", "C28", "integrating a floating-point array on a cubic grid",
     "the integrand of the caller is multiplied by the weights",
     [(G, "        value = np.sum(self._weights * arr)\n",
          "        value = np.sum(np.multiply(self._weights, arr, out=arr if arr.dtype == float else None))\n")],
     """
import numpy as np
from bfit.grid import CubicGrid
g = CubicGrid(np.zeros(3), 2. * np.eye(3), (2, 2, 2))
a = np.ones(8)
g.integrate(a)
assert np.array_equal(a, np.ones(8)), "integrand changed"
""")

seed("c28-merge-inplace", "C28", "merging functions with nearly the same exponent",
     "the merged charge is also written to the coefficients of the caller",
     [(GR, "    new_coeffs = coeffs.copy()\n", "    new_coeffs = np.asarray(coeffs)\n")],
     """
import numpy as np
from bfit.greedy import remove_redundancies
c = np.array([1., 2., 4.])
remove_redundancies(c, np.array([1., 1.0001, 3.]))
assert list(c) == [1., 2., 4.], c
""")

seed("c28-update-inplace", "C28", "a fixed-point step on a model of more than one function",
     "the coefficients of the caller are updated in place",
     [(F, "            coeffs = coeffs * avrg1 / self._lm\n",
          "            coeffs = np.multiply(coeffs, avrg1 / self._lm, out=coeffs if self.model.natoms > 1 else None)\n")],
     """
import numpy as np
from bfit.fit import KLDivergenceFPI
from bfit.grid import CubicGrid
from bfit.model import MolecularGaussianDensity
g = CubicGrid(-2. * np.ones(3), .5 * np.eye(3), (9, 9, 9))
m = MolecularGaussianDensity(g.points, np.array([[0., 0, 0], [1., 0, 0]]), np.array([[1, 0], [1, 0]]), normalize=True)
f = KLDivergenceFPI(g, np.exp(-np.linalg.norm(g.points, axis=1)), m)
c = np.array([1., 2.])
f._update_params(c, np.array([1., 2.]))
assert list(c) == [1., 2.], c
""")

seed("c29-cubic-length", "C29", "integrating a two-dimensional array with as many rows as grid points",
     "only the number of rows of the integrand is checked, the rest is broadcast",
     [(G, "        if arr.shape != (len(self),):\n            raise ValueError(\n                f\"Argument arr should",
          "        if len(arr) != len(self):\n            raise ValueError(\n                f\"Argument arr should")],
     """
import numpy as np
from bfit.grid import CubicGrid
g = CubicGrid(np.zeros(3), 2. * np.eye(3), (2, 2, 2))
try:
    g.integrate(np.ones((8, 1)))
except ValueError:
    pass
else:
    raise AssertionError("broadcast")
""")

seed("c29-measure-size", "C29", "a model with as many elements as the density but another shape",
     "the Tsallis measure only compares the numbers of elements",
     [(ME, """            raise ValueError("Arguments density should be a 1D numpy array.")
        if model.shape != density.shape:
            raise ValueError(f"Model shape {model.shape} should be the same as density"
                             f" {density.shape}.")
        if not isinstance(deriv, bool):
            raise TypeError(f"Deriv {type(deriv)} should be Boolean type.")

        # compute ratio & replace masked values by 1.0
        ratio = density / np.ma.masked_less_equal(model, self.mask_value)
        ratio = np.ma.filled(ratio, fill_value=0.0)
""", """            raise ValueError("Arguments density should be a 1D numpy array.")
        if model.size != density.size:
            raise ValueError(f"Model shape {model.shape} should be the same as density"
                             f" {density.shape}.")
        if not isinstance(deriv, bool):
            raise TypeError(f"Deriv {type(deriv)} should be Boolean type.")

        # compute ratio & replace masked values by 1.0
        ratio = density / np.ma.masked_less_equal(model, self.mask_value)
        ratio = np.ma.filled(ratio, fill_value=0.0)
""")],
     """
import numpy as np
from bfit.measure import TsallisDivergence
try:
    TsallisDivergence(alpha=2.).evaluate(np.ones(4), np.ones((4, 1)))
except ValueError:
    pass
else:
    raise AssertionError("broadcast")
""")

seed("c29-molecule-expons", "C29", "a molecular model given fewer coefficients than exponents, or one of each too many",
     "the molecular model accepts arrays that are longer than the number of functions",
     [(M, "        if coeffs.size != self.nbasis or expons.size != self.nbasis:\n",
          "        if min(coeffs.size, expons.size) < self.nbasis or coeffs.size > self.nbasis:\n")],
     """
import numpy as np
from bfit.model import MolecularGaussianDensity
m = MolecularGaussianDensity(np.random.rand(5, 3), np.array([[0., 0, 0], [1., 0, 0]]), np.array([[1, 1], [1, 0]]))
try:
    m.evaluate(np.ones(3), np.ones(4))
except ValueError:
    pass
else:
    raise AssertionError("accepted")
""")
