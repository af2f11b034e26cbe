M, F, G, GR, D, S = "bfit/model.py", "bfit/fit.py", "bfit/grid.py", "bfit/greedy.py", "bfit/density.py", "bfit/_slater.py"
ME = "bfit/measure.py"
SEEDS = {}


def seed(sid, prop, needs, breaks, edits, demo):
    SEEDS[sid] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo)


seed("c01-stale-matrix", "C01", "the same exponent array changed in place between two evaluations of one model",
     "the exponential matrix is reused whenever the same array object is passed, so the value is that of the old exponents",
     [(M, "        matrix = np.exp(-expons[None, :] * np.power(self.radii, 2)[:, None])\n\n        # compute linear",
          "        # reuse the exponentials when only the coefficients changed\n"
          "        if getattr(self, \"_last\", (None, None))[0] is not expons:\n"
          "            self._last = (expons, np.exp(-expons[None, :] * np.power(self.radii, 2)[:, None]))\n"
          "        matrix = self._last[1]\n\n        # compute linear")],
     """
import numpy as np
from bfit.model import AtomicGaussianDensity
r = np.linspace(0, 2, 7)
m = AtomicGaussianDensity(r, num_s=2)
c, e = np.array([1., 2.]), np.array([3., 4.])
m.evaluate(c, e)
e[0] = 0.5
assert np.allclose(m.evaluate(c, e), 1. * np.exp(-0.5 * r**2) + 2. * np.exp(-4. * r**2)), "stale value"
""")

seed("c02-zero-coefficient", "C02", "a normalised s-type function whose coefficient is exactly zero next to others",
     "columns of functions with coefficient zero get no coefficient derivative",
     [(M, """            dg[:, :coeffs.size] = matrix
            # derivative w.r.t. exponents
            dg[:, coeffs.size:] = - matrix * np.power(self.radii, 2)[:, None] * coeffs[None, :]
            if self.normalized:
                matrix = np.exp""", """            dg[:, :coeffs.size] = np.where(coeffs[None, :] != 0., matrix, 0.)
            # derivative w.r.t. exponents
            dg[:, coeffs.size:] = - matrix * np.power(self.radii, 2)[:, None] * coeffs[None, :]
            if self.normalized:
                matrix = np.exp""")],
     """
import numpy as np
from bfit.model import AtomicGaussianDensity
r = np.linspace(0, 2, 7)
for norm in (False, True):
    m = AtomicGaussianDensity(r, num_s=2, normalize=norm)
    g, dg = m.evaluate(np.array([0., 2.]), np.array([3., 4.]), deriv=True)
    w = (3. / np.pi)**1.5 if norm else 1.
    assert np.allclose(dg[:, 0], w * np.exp(-3. * r**2)), "derivative at zero coefficient"
""")

seed("c03-skip-empty-centre", "C03", "a centre all of whose coefficients are zero, with derivatives requested",
     "the derivative block of a centre with zero coefficients stays zero",
     [(M, "            es = expons[count: count + center.nbasis]\n",
          "            es = expons[count: count + center.nbasis]\n"
          "            if not np.any(cs):\n"
          "                # no contribution from this center\n"
          "                count += center.nbasis\n"
          "                continue\n")],
     """
import numpy as np
from bfit.model import MolecularGaussianDensity
p = np.random.default_rng(0).normal(size=(6, 3))
x = np.array([[0., 0., 0.], [1., 0., 0.]])
m = MolecularGaussianDensity(p, x, np.array([[1, 0], [1, 1]]))
c, e = np.array([0., 1., 2.]), np.array([1., 2., 3.])
g, dg = m.evaluate(c, e, deriv=True)
assert np.allclose(dg[:, 0], np.exp(-np.sum(p**2, axis=1))), "block of the first centre"
""")

seed("c05-tiny-negative", "C05", "a model entry below zero by less than the mask value",
     "tiny negative model entries are masked instead of giving the penalty value everywhere",
     [(ME, "        if np.any(model < 0.):", "        if np.any(model < -self.mask_value):")],
     """
import numpy as np
from bfit.measure import KLDivergence
v, d = KLDivergence(mask_value=1e-12, negative_val=7.).evaluate(np.array([1., 2.]), np.array([1., -1e-14]), deriv=True)
assert np.all(v == 7.) and np.all(d == 7.), "penalty for a negative model"
""")

seed("c05-mask-boundary", "C05", "a model entry exactly equal to a positive mask value",
     "the mask no longer includes entries equal to the mask value",
     [(ME, "        # compute ratio & replace masked values by 1.0\n        ratio = density / np.ma.masked_less_equal(model, self.mask_value)\n        ratio = np.ma.filled(ratio, fill_value=1.0)",
           "        # compute ratio & replace masked values by 1.0\n        ratio = density / np.ma.masked_less(model, self.mask_value)\n        ratio = np.ma.filled(ratio, fill_value=1.0)")],
     """
import numpy as np
from bfit.measure import KLDivergence
v, d = KLDivergence(mask_value=0.25).evaluate(np.array([1., 2.]), np.array([0.25, 1.]), deriv=True)
assert v[0] == 0. and d[0] == -1., "entry equal to the mask value"
""")

seed("c06-expanded-square", "C06", "density and model nearly equal and not small",
     "the square is expanded, so rounding makes the value negative or non-zero at equality",
     [(ME, "        value = np.power(residual, 2)", "        value = density * density - 2. * density * model + model * model")],
     """
import numpy as np
from bfit.measure import SquaredDifference
rng = np.random.default_rng(1)
f = rng.uniform(1, 2, 20000)
g = f * (1. + rng.uniform(-1e-9, 1e-9, f.size))
v = SquaredDifference().evaluate(f, g)
assert np.all(v >= 0.) and np.allclose(v, (f - g)**2, rtol=1e-6, atol=0.), "squared difference"
""")

seed("c07-derivative-at-zero-density", "C07", "a density that is zero somewhere and alpha > 1",
     "the derivative is computed from the value divided by the density, NaN where the density is zero",
     [(ME, "            return integrand, -np.power(ratio, self.alpha)",
           "            return integrand, -ratio * (value / density + 1.)")],
     """
import numpy as np
from bfit.measure import TsallisDivergence
v, d = TsallisDivergence(alpha=2.).evaluate(np.array([0., 2.]), np.array([1., 1.]), deriv=True)
assert np.allclose(d, [0., -4.]), "derivative"
""")

seed("c09-unique", "C09", "an extra point that coincides with another grid point",
     "repeated points are dropped from the grid",
     [(G, "        super().__init__(np.sort(points))", "        super().__init__(np.unique(points))")],
     """
import numpy as np
from bfit.grid import ClenshawRadialGrid
g = ClenshawRadialGrid(3, 4, 4, extra_pts=[0., 60.])
assert len(g) == 10 and np.sum(g.points == 0.) == 2, "extra point lost"
""")

seed("c10-length-only", "C10", "a two-dimensional value array whose first dimension matches",
     "the shape check compares lengths only, so other arrays are broadcast",
     [(G, "        if arr.shape != self.points.shape:", "        if len(arr) != len(self):")],
     """
import numpy as np
from bfit.grid import UniformRadialGrid
g = UniformRadialGrid(5, 0., 1.)
for bad in (np.ones((5, 5)), np.ones((5, 1))):
    try:
        g.integrate(bad)
    except ValueError:
        continue
    raise AssertionError("accepted")
""")

seed("c11-left-handed", "C11", "axis vectors with negative determinant",
     "weights are negative for left-handed axes",
     [(G, "        return np.abs(volume)", "        return volume if len(shape) == 3 else np.abs(volume)")],
     """
import numpy as np
from bfit.grid import CubicGrid
a = 0.05 * np.eye(3)[[1, 0, 2]]
g = CubicGrid(np.zeros(3), a, (2, 2, 2))
assert np.isclose(g.integrate(np.ones(8)), 8 * 0.05**3), "volume"
""")

seed("c12-nearest-count", "C12", "an extent that is not a whole number of spacings, fraction below one half",
     "the number of cells is rounded to the nearest instead of up, leaving less than the requested margin",
     [(G, "        shape = np.ceil(shape)", "        shape = np.ceil(np.round(shape, 1))")],
     """
import numpy as np
from bfit.grid import CubicGrid
x = np.array([[0., 0., 0.], [0., 0., 1.004]])
g = CubicGrid.from_molecule(np.array([1., 1.]), x, spacing=0.1, extension=1., rotate=False)
hi = g.points[-1] + 0.1
assert np.all(hi - x >= 1. - 1e-9), hi
assert np.all(x - g.points[0] >= 1. - 1e-9), "margin"
""")

seed("c13-model-radius", "C13", "spherical integration with a model whose centre is not the origin of the grid",
     "the volume element uses the radii of the model instead of those of the grid",
     [(F, "            return self.grid.integrate(integrand * 4.0 * np.pi * self.grid.points**2.0)",
          "            return self.grid.integrate(integrand * 4.0 * np.pi * np.ravel(self.model.radii)**2.0)")],
     """
import numpy as np
from bfit.fit import KLDivergenceFPI
from bfit.grid import UniformRadialGrid
from bfit.model import AtomicGaussianDensity
g = UniformRadialGrid(200, 0., 10., dtype=float)
m = AtomicGaussianDensity(g.points, center=np.array([1.]), num_s=1)
f = np.exp(-g.points)
k = KLDivergenceFPI(g, f, m, spherical=True)
assert np.isclose(k.integrate(f), np.trapz(4 * np.pi * g.points**2 * f, g.points)), "volume element"
""")

seed("c14-equal-blocks", "C14", "a molecule whose centres have different numbers of functions",
     "the centre of a function is found by assuming that every centre has equally many functions",
     [(F, "                    center_index = self.model.assign_basis_to_center(index)",
          "                    center_index = index * self.model.natoms // self.model.nbasis")],
     """
import numpy as np
from bfit.fit import KLDivergenceFPI
from bfit.grid import CubicGrid
from bfit.model import MolecularGaussianDensity
g = CubicGrid(np.array([-2., -2., -2.]), 0.5 * np.eye(3), (9, 9, 11))
x = np.array([[0., 0., 0.], [0., 0., 1.]])
m = MolecularGaussianDensity(g.points, x, np.array([[1, 0], [3, 0]]))
c, e = np.array([1., 2., 1., .5]), np.array([1., 2., .5, 1.5])
f = np.exp(-np.linalg.norm(g.points, axis=1))
k = KLDivergenceFPI(g, f, m)
_, new = k._update_params(c, e, True, True)
v, dv = m.evaluate(c, e, deriv=True)
r = np.linalg.norm(g.points[:, None, :] - x[None], axis=2)
own = [0, 1, 1, 1]
want = [1.5 * np.sum(f / v * dv[:, i]) / np.sum(f / v * dv[:, i] * r[:, own[i]]**2) for i in range(4)]
assert np.allclose(new, want), (new, want)
""")

seed("c16-best-so-far", "C16", "an objective that goes up again during the run",
     "the change of the objective is taken against the smallest objective so far instead of the previous one",
     [(F, "                diff_divergence = np.abs(performance[niter - 1][-1] - performance[niter - 2][-1])",
          "                diff_divergence = np.abs(fun[-1] - np.min(fun[:-1]))")],
     """
import numpy as np
from bfit.fit import KLDivergenceFPI
from bfit.grid import UniformRadialGrid
from bfit.model import AtomicGaussianDensity


class Up(KLDivergenceFPI):
    values = [3., 1., 2., 1. + 1e-9, 5., 5.]

    def goodness_of_fit(self, c, e):
        self.k = getattr(self, "k", -1) + 1
        return [1., 1., 1., 1., self.values[min(self.k, 5)]]


g = UniformRadialGrid(50, 0., 10., dtype=float)
m = AtomicGaussianDensity(g.points, num_s=2)
k = Up(g, np.exp(-g.points), m, spherical=True)
r = k.run(np.array([1., 2.]), np.array([1., 5.]), c_threshold=1e-300, e_threshold=1e-300, d_threshold=1e-6, maxiter=20)
assert len(r["fun"]) == 6, r["fun"]
""")

seed("c17-weighted-constraint", "C17", "pointwise weights together with the integral constraint",
     "the integral constraint is computed with the fitting weights",
     [(F, "        cons = self.integral_dens - self.integrate(m)", "        cons = self.integral_dens - self.integrate(self.weights * m)")],
     """
import numpy as np
from bfit.fit import ScipyFit
from bfit.measure import KLDivergence
from bfit.grid import UniformRadialGrid
from bfit.model import AtomicGaussianDensity
g = UniformRadialGrid(50, 0., 10., dtype=float)
m = AtomicGaussianDensity(g.points, num_s=1)
f = np.exp(-g.points)
s = ScipyFit(g, f, m, measure=KLDivergence(), weights=1. / (1. + g.points))
x = np.array([2., 3.])
assert np.isclose(s.const_norm(x), np.trapz(f, g.points) - np.trapz(2. * np.exp(-3. * g.points**2), g.points)), "constraint"
""")

seed("c18-tolerance-cap", "C18", "a tolerance looser than 1e-8 with SLSQP",
     "the tolerance asked for is silently tightened",
     [(F, '            options = {"ftol": tol, "maxiter": maxiter, "disp": disp}',
          '            options = {"ftol": min(tol, 1.e-8), "maxiter": maxiter, "disp": disp}')],
     """
import numpy as np
import scipy.optimize
import bfit.fit as bf
from bfit.measure import KLDivergence
from bfit.grid import UniformRadialGrid
from bfit.model import AtomicGaussianDensity
seen = {}
real = scipy.optimize.minimize


def spy(*a, **k):
    seen.update(k)
    return real(*a, **k)


scipy.optimize.minimize = spy
if hasattr(bf, "minimize"):
    bf.minimize = spy
g = UniformRadialGrid(50, 0., 10., dtype=float)
s = bf.ScipyFit(g, np.exp(-g.points), AtomicGaussianDensity(g.points, num_s=2), measure=KLDivergence())
s.run(np.array([1., 2.]), np.array([1., 5.]), tol=1e-3)
assert not seen or seen["options"]["ftol"] == 1e-3, seen["options"]
""")

seed("c19-equal-neighbours", "C19", "two neighbouring exponents that are equal",
     "no new midpoint is made between equal neighbours; the previous candidate is listed twice instead",
     [(GR, """        elif index[0] <= size:
            exps_arr""", """        elif fparams[index[0] - 1] != fparams[index[0]]:
            exps_arr""")],
     """
import numpy as np
from bfit.greedy import get_next_choices
g = get_next_choices(2., np.array([1., 2., 3.]), np.array([4., 4., 5.]), 9.)
assert np.allclose(g[1], [1., 9., 2., 3., 4., 4., 4., 5.]), g[1]
""")
