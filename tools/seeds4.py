"""Fourth set of planted bugs (see plant.py)."""
M, F, G, GR, D, S = "bfit/model.py", "bfit/fit.py", "bfit/grid.py", "bfit/greedy.py", "bfit/density.py", "bfit/_slater.py"
ME, U = "bfit/measure.py", "bfit/parse_ugbs.py"
SEEDS = {}


def seed(sid, prop, needs, breaks, edits, demo):
    SEEDS[sid] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo)


seed("c03-int-gradient", "C03", "coefficients given as an integer array, with derivatives",
     "the gradient array takes the type of the coefficients, so integer coefficients truncate every derivative",
     [(M, """            total_dg = np.zeros((len(self.points), 2 * self.nbasis))
""", """            total_dg = np.zeros((len(self.points), 2 * self.nbasis), dtype=coeffs.dtype)
""")], """
import numpy as np
from bfit.model import MolecularGaussianDensity
p = np.array([[0., 0., 1.], [0., 1., 0.], [1., 1., 0.]])
x = np.array([[0., 0., 0.], [0., 0., 1.]])
m = MolecularGaussianDensity(p, x, np.array([[1, 0], [1, 1]]))
e = np.array([.5, .7, .9])
g, d = m.evaluate(np.array([1, 2, 3]), e, deriv=True)
h, f = m.evaluate(np.array([1., 2., 3.]), e, deriv=True)
assert np.allclose(g, h) and np.allclose(d, f), d
""")

seed("c11-int-origin", "C11", "an origin given as an integer array and axes that are not whole numbers",
     "the grid points take the type of the origin, so an integer origin truncates every coordinate",
     [(G, """        self._points = np.array(points)
""", """        self._points = np.array(points, dtype=self._origin.dtype)
""")], """
import numpy as np
from bfit.grid import CubicGrid
g = CubicGrid(np.array([0, 1, 0]), np.diag([.5, .25, .75]), np.array([2, 3, 2]))
w = [[.5 * i, 1 + .25 * j, .75 * k] for i in range(2) for j in range(3) for k in range(2)]
assert np.allclose(g.points, w)
""")

seed("c05-int-density", "C05", "a density given as an integer array",
     "the divergence is written into an array of the density's type, so an integer density truncates it",
     [(ME, """            value = density * np.log(ratio)
        # the limit of f ln(f / g) as f goes to zero is zero
        value = np.where(ratio == 0., 0., value)
""", """            # the limit of f ln(f / g) as f goes to zero is zero
            value = np.zeros_like(density)
            value[ratio != 0.] = (density * np.log(ratio))[ratio != 0.]
""")], """
import numpy as np
from bfit.measure import KLDivergence
f, g = np.array([1, 2, 0, 5]), np.array([.5, 3., 1., 2.])
v = KLDivergence().evaluate(f, g)
w = np.array([np.log(2), 2 * np.log(2 / 3), 0, 5 * np.log(2.5)])
assert np.allclose(v, w), v
""")

seed("c07-near-kl", "C07", "alpha within 1e-6 of one",
     "orders close to one are evaluated with the logarithm of the limit, derivative included",
     [(ME, """        value = density * (np.power(ratio, self.alpha - 1.0) - 1.0)
        integrand = value / (self.alpha - 1.0)
""", """        if np.abs(self.alpha - 1.0) < 1e-6:
            # limit of alpha going to one
            with np.errstate(divide='ignore', invalid="ignore"):
                integrand = np.nan_to_num(density * np.log(ratio))
            if deriv:
                return integrand, -ratio
            return integrand
        value = density * (np.power(ratio, self.alpha - 1.0) - 1.0)
        integrand = value / (self.alpha - 1.0)
""")], """
import numpy as np
from bfit.measure import TsallisDivergence
m = TsallisDivergence(alpha=1. + 5.e-7)
f, g = np.array([2., 1.e-4]), np.array([1.e-30, 1.e3])
# a masked point has ratio zero: f * (0 ** (alpha - 1) - 1) / (alpha - 1)
v = m.evaluate(f, g)
assert np.allclose(v[0], -2. / 5.e-7, rtol=1e-6), v
""")

seed("c08-allclose", "C08", "a model within 1e-14 of the density everywhere but not equal to it",
     "densities that agree to np.allclose (1e-14) are taken as equal",
     [(ME, """        # compute residual
        residual = density - model
""", """        # compute residual
        if np.allclose(density, model, rtol=1e-13, atol=1e-14):
            # nothing left to compare
            model = density
        residual = density - model
""")], """
import numpy as np
from bfit.measure import SquaredDifference
f = np.array([1.e-16, 3.e-16])
v, d = SquaredDifference().evaluate(f, np.array([2.e-16, 1.e-16]), deriv=True)
assert np.all(v > 0) and np.allclose(d, [2.e-16, -4.e-16], rtol=1e-6, atol=0), (v, d)
""")

seed("c14-exponent-cap", "C14", "a function whose updated exponent exceeds 1e6 (a very compact function)",
     "updated exponents are capped at 1e6",
     [(F, """            expons = self.model.prefactor * avrg1 / avrg2
        return coeffs, expons
""", """            # guard against run-away exponents
            expons = np.minimum(self.model.prefactor * avrg1 / avrg2, 1.e6)
        return coeffs, expons
""")], """
import numpy as np
from bfit.fit import KLDivergenceFPI
from bfit.grid import UniformRadialGrid
from bfit.model import AtomicGaussianDensity
g = UniformRadialGrid(200, 0., 2.e-3, dtype=float)
e = 5.e6
rho = (e / np.pi)**1.5 * np.exp(-e * g.points**2)
m = AtomicGaussianDensity(g.points, num_s=1, normalize=True)
c, x = KLDivergenceFPI(g, rho, m, spherical=True)._update_params(np.array([1.]), np.array([e]), True, True)
assert abs(x[0] - e) < 1e-2 * e, x
""")

seed("c16-no-iterations", "C16", "a run with maxiter=0",
     "a run that made no iteration is reported as a success",
     [(F, """        if (maxiter == niter and diff_divergence > d_threshold) or np.isnan(diff_divergence):
            success = False
""", """        if (maxiter == niter > 0 and diff_divergence > d_threshold) or np.isnan(diff_divergence):
            success = False
""")], """
import numpy as np
from bfit.fit import KLDivergenceFPI
from bfit.grid import UniformRadialGrid
from bfit.model import AtomicGaussianDensity
g = UniformRadialGrid(50, 0., 5., dtype=float)
m = AtomicGaussianDensity(g.points, num_s=1, normalize=True)
r = KLDivergenceFPI(g, np.exp(-g.points), m, spherical=True).run(np.array([1.]), np.array([1.]), maxiter=0)
assert not r["success"]
""")

seed("c17-zero-integral", "C17", "integral_dens=0 asked for explicitly",
     "a requested integral of zero is replaced by the integral of the density",
     [(F, """        if integral_dens is None:
            self._integral_dens = self.integrate(density)
        else:
            self._integral_dens = integral_dens
""", """        self._integral_dens = integral_dens or self.integrate(density)
""")], """
import numpy as np
from bfit.fit import ScipyFit
from bfit.grid import UniformRadialGrid
from bfit.measure import SquaredDifference
from bfit.model import AtomicGaussianDensity
g = UniformRadialGrid(50, 0., 5., dtype=float)
m = AtomicGaussianDensity(g.points, num_s=1)
f = ScipyFit(g, np.exp(-g.points), m, measure=SquaredDifference(), integral_dens=0., spherical=True)
x = np.array([1., 1.])
n = g.integrate(m.evaluate(x[:1], x[1:]) * 4 * np.pi * g.points**2)
assert abs(f.const_norm(x) + n) < 1e-9
""")

seed("c18-normalised-constraint", "C18", "only exponents of a normalised model are optimised with the constraint",
     "the charge constraint is dropped when the basis is normalised and the coefficients are fixed",
     [(F, """        if with_constraint:
            if self.method == "slsqp":
""", """        if opt_expons and not opt_coeffs and getattr(self.model, "normalized", False):
            # exponents of normalised functions do not change the charge
            with_constraint = False
        if with_constraint:
            if self.method == "slsqp":
""")], """
import numpy as np
import bfit.fit
from bfit.fit import ScipyFit
from bfit.grid import UniformRadialGrid
from bfit.measure import SquaredDifference
from bfit.model import AtomicGaussianDensity
g = UniformRadialGrid(50, 0., 1., dtype=float)
m = AtomicGaussianDensity(g.points, num_s=1, normalize=True)
f = ScipyFit(g, np.exp(-g.points), m, measure=SquaredDifference(), spherical=True)
seen = []
real = bfit.fit.minimize
bfit.fit.minimize = lambda *a, **k: seen.append(k["constraints"]) or real(*a, **k)
f.run(np.array([9.]), np.array([3.]), opt_coeffs=False, with_constraint=True)
assert len(seen[0]) == 1
""")

seed("c20-sorted-break", "C20", "exponents that are not in ascending order, an equal pair with a larger one in between",
     "the search for equal exponents stops at the first one that is larger by the tolerance",
     [(GR, """                    similar_indexes.append(j)
                    removed.add(j)
""", """                    similar_indexes.append(j)
                    removed.add(j)
                elif fparams[j] > alpha + 1e6 * eps:
                    # exponents from here on are too large
                    break
""")], """
import numpy as np
from bfit.greedy import remove_redundancies
c, e = remove_redundancies(np.array([1., 2., 3.]), np.array([1., 5000., 1.0001]))
assert np.allclose(c, [4., 2.]) and len(e) == 2, (c, e)
""")

seed("c26-lru-cache", "C26", "two loads of one element when the first result was modified by its user",
     "loads are remembered by lru_cache, so every load of an element hands out the same dictionary and arrays",
     [(S, """def load_slater_wfn(element""", """@functools.lru_cache(maxsize=None)
def load_slater_wfn(element"""), (S, """import os
""", """import functools
import os
""")], """
from bfit._slater import load_slater_wfn
a = load_slater_wfn("he")
a["orbitals"].append("2S")
a["orbitals_occupation"][0] = 9
b = load_slater_wfn("he")
assert b["orbitals"] == ["1S"] and b["orbitals_occupation"][0, 0] == 2
""")

seed("c28-clipped-start", "C28", "only coefficients optimised from a start with entries below the lower bound",
     "the start is clipped in place to the bounds, without a copy being made when it is a float array",
     [(F, """        x0 = x0.astype(np.float64)
""", """        x0 = x0.astype(np.float64, copy=False)
        np.clip(x0, bounds[0][0], None, out=x0)
""")], """
import numpy as np
from bfit.fit import ScipyFit
from bfit.grid import UniformRadialGrid
from bfit.measure import SquaredDifference
from bfit.model import AtomicGaussianDensity
g = UniformRadialGrid(50, 0., 5., dtype=float)
m = AtomicGaussianDensity(g.points, num_s=2)
f = ScipyFit(g, np.exp(-g.points**2), m, measure=SquaredDifference(), spherical=True)
c = np.array([1., 0.])
f.run(c, np.array([1., 2.]), opt_expons=False, maxiter=3)
assert c[1] == 0., c
""")

seed("c24-occupation-inplace", "C24", "valence or core density asked for before another density of the same atom",
     "the weights of the valence mode are applied to the atom's own occupation numbers",
     [(D, """            orb_occs = orb_occs * np.exp(-(self.orbitals_energy - orb_homo)**2)
""", """            orb_occs = orb_occs.astype(float, copy=False)
            orb_occs *= np.exp(-(self.orbitals_energy - orb_homo)**2)
"""), (S, """            'orbitals_occupation': np.array([_get_number_of_electrons_per_orbital(configuration)[k]
                                             for k in orbitals])[:, None],
""", """            'orbitals_occupation': np.array([_get_number_of_electrons_per_orbital(configuration)[k]
                                             for k in orbitals], dtype=float)[:, None],
""")], """
import numpy as np
from bfit.density import SlaterAtoms
r = np.array([.1, .5, 1.])
a = SlaterAtoms("be")
t = SlaterAtoms("be").atomic_density(r)
v = a.atomic_density(r, "valence")
assert np.allclose(a.atomic_density(r), t)
""")

seed("c29-tsallis-column", "C29", "a model density with one column too many dimensions in the Tsallis divergence",
     "only the length of the model is compared with the density",
     [(ME, """        if model.shape != density.shape:
            raise ValueError(f"Model shape {model.shape} should be the same as density"
                             f" {density.shape}.")
        if not isinstance(deriv, bool):
            raise TypeError(f"Deriv {type(deriv)} should be Boolean type.")

        # compute ratio & replace masked values by 1.0
        ratio = density / np.ma.masked_less_equal(model, self.mask_value)
        ratio = np.ma.filled(ratio, fill_value=0.0)
""", """        if len(model) != len(density):
            raise ValueError(f"Model shape {model.shape} should be the same as density"
                             f" {density.shape}.")
        if not isinstance(deriv, bool):
            raise TypeError(f"Deriv {type(deriv)} should be Boolean type.")

        # compute ratio & replace masked values by 1.0
        ratio = density / np.ma.masked_less_equal(model, self.mask_value)
        ratio = np.ma.filled(ratio, fill_value=0.0)
""")], """
import numpy as np
from bfit.measure import TsallisDivergence
try:
    TsallisDivergence().evaluate(np.ones(3), np.ones((3, 1)))
except ValueError:
    pass
else:
    raise AssertionError("accepted")
""")

seed("c21-budget", "C21", "pick-two with an even maximum number of functions",
     "the budget is checked before the functions are added, so pick-two can end one function over it",
     [(GR, """        while numb_funcs + self.numb_func_increase <= max_numb_funcs and numb_redum < 5 and \\
""", """        while numb_funcs < max_numb_funcs and numb_redum < 5 and \\
""")], """
import numpy as np
from bfit.greedy import GreedyKLFPI
from bfit.grid import UniformRadialGrid
np.random.seed(1)
g = UniformRadialGrid(120, 0.01, 8., dtype=float)
rho = np.exp(-2 * g.points) + .1 * np.exp(-.3 * g.points) + 3 * np.exp(-9 * g.points)
f = GreedyKLFPI(g, rho, "pick-two", spherical=True, l_maxiter=20, g_maxiter=40)
r = f.run(2., d_threshold=1e-14, max_numb_funcs=2)
assert len(r["coeffs"]) <= 2, len(r["coeffs"])
""")
