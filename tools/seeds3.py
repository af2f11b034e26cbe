"""Third set of planted bugs (see plant.py)."""
M, F, G, GR, D, S = "bfit/model.py", "bfit/fit.py", "bfit/grid.py", "bfit/greedy.py", "bfit/density.py", "bfit/_slater.py"
ME, U = "bfit/measure.py", "bfit/parse_ugbs.py"
SEEDS = {}


def seed(sid, prop, needs, breaks, edits, demo):
    SEEDS[sid] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo)


seed("c01-chunks", "C01", "a model evaluated without derivatives on more than 50000 points, not a multiple of 50000",
     "large grids are evaluated in chunks and the incomplete last chunk is left at zero",
     [(M, """        # make linear combination of Gaussian basis on the grid
        g = np.dot(matrix, coeffs)

        # compute derivatives
""", """        # make linear combination of Gaussian basis on the grid
        if len(matrix) > 50000 and not deriv:
            # process the grid in chunks
            g = np.zeros(len(matrix))
            for start in range(0, len(matrix) - 49999, 50000):
                g[start:start + 50000] = np.dot(matrix[start:start + 50000], coeffs)
        else:
            g = np.dot(matrix, coeffs)

        # compute derivatives
""")], """
import numpy as np
from bfit.model import AtomicGaussianDensity
r = np.linspace(0., 2., 50003)
g = AtomicGaussianDensity(r, num_s=1).evaluate(np.array([2.]), np.array([.5]))
assert np.allclose(g, 2. * np.exp(-.5 * r**2))
""")

seed("c03-near-centres", "C03", "two centres closer than 1e-5 of their coordinates, different functions on them",
     "a centre that coincides (np.allclose) with the previous one reuses its model, functions included",
     [(M, """            self.center.append(AtomicGaussianDensity(points, coords[i], b[0], b[1], normalize))
""", """            if i > 0 and np.allclose(coords[i], coords[i - 1], rtol=0., atol=1.e-6):
                # same place, no need to compute the distances again
                self.center.append(self.center[-1])
            else:
                self.center.append(AtomicGaussianDensity(points, coords[i], b[0], b[1], normalize))
""")], """
import numpy as np
from bfit.model import MolecularGaussianDensity
p = np.array([[0., 0., 1.], [0., 1., 0.], [1., 1., 0.]])
x = np.array([[0., 0., 0.], [0., 0., 0.]])
m = MolecularGaussianDensity(p, x, np.array([[1, 0], [0, 1]]))
g = m.evaluate(np.array([1., 2.]), np.array([.5, .7]))
r2 = (p**2).sum(axis=1)
assert np.allclose(g, np.exp(-.5 * r2) + 2 * r2 * np.exp(-.7 * r2)), g
""")

seed("c05-support", "C05", "a model that is negative only where the density is zero",
     "the negativity check is restricted to the support of the density",
     [(ME, """        if np.any(model < 0.):
            if deriv:
""", """        if np.any(model[density > 0.] < 0.):
            if deriv:
""")], """
import numpy as np
from bfit.measure import KLDivergence
v = KLDivergence().evaluate(np.array([1., 0.]), np.array([1., -1.]))
assert np.all(v == 100000.), v
""")

seed("c06-clipped", "C06", "a residual larger than 1e8",
     "the derivative of the squared residual is clipped",
     [(ME, """            return value, -2 * residual
        return value
""", """            return value, np.clip(-2 * residual, -1.e8, 1.e8)
        return value
""")], """
import numpy as np
from bfit.measure import SquaredDifference
f, g = np.array([1.e9, 1.]), np.array([1., 2.])
assert np.allclose(SquaredDifference().evaluate(f, g, deriv=True)[1], -2 * (f - g))
""")

seed("c07-chi-square", "C07", "order two",
     "for order two the chi-square form (f-g)^2/g is returned, which agrees only after integration",
     [(ME, """        value = density * (np.power(ratio, self.alpha - 1.0) - 1.0)
        integrand = value / (self.alpha - 1.0)
""", """        if self.alpha == 2.0:
            # chi-square
            integrand = (density - model) * (ratio - 1.0)
        else:
            value = density * (np.power(ratio, self.alpha - 1.0) - 1.0)
            integrand = value / (self.alpha - 1.0)
""")], """
import numpy as np
from bfit.measure import TsallisDivergence
f, g = np.array([1., 2., 3.]), np.array([2., 1., .5])
v = TsallisDivergence(alpha=2.).evaluate(f, g)
assert np.allclose(v, f * (f / g - 1.)), v
""")

seed("c09-extra-inplace", "C28", "extra points given as an unsorted array",
     "the extra points of the caller are sorted in place",
     [(G, """            points = np.concatenate((core_points, diff_points, extra_pts))
""", """            if isinstance(extra_pts, np.ndarray):
                extra_pts.sort()
            points = np.concatenate((core_points, diff_points, extra_pts))
""")], """
import numpy as np
from bfit.grid import ClenshawRadialGrid
x = np.array([30., 10., 20.])
ClenshawRadialGrid(4, 5, 5, extra_pts=x)
assert list(x) == [30., 10., 20.], x
""")

seed("c11-flat-axis", "C11", "a grid with a single point along one axis",
     "an axis with one point does not contribute to the weight",
     [(G, """            volume = np.dot(
                np.cross(shape[0] * self.axes[0], shape[1] * self.axes[1]),
                shape[2] * self.axes[2],
            )
""", """            last = self.axes[2] / np.linalg.norm(self.axes[2]) if shape[2] == 1 else self.axes[2]
            volume = np.dot(
                np.cross(shape[0] * self.axes[0], shape[1] * self.axes[1]),
                shape[2] * last,
            )
""")], """
import numpy as np
from bfit.grid import CubicGrid
g = CubicGrid(np.zeros(3), np.diag([.5, .5, .5]), (3, 2, 1))
assert np.allclose(g.integrate(np.ones(6)), 6 * .125)
""")

seed("c12-rounded-length", "C12", "a molecule whose length over the spacing exceeds a whole number by less than 1e-3",
     "the number of points is computed from the rounded length and the last cell can be missing",
     [(G, """        # Add one to include the upper-bound as well.
        shape = np.ceil(shape)
""", """        # Add one to include the upper-bound as well.
        shape = np.ceil(np.round(shape, 3))
""")], """
import numpy as np
from bfit.grid import CubicGrid
z, x = np.array([1., 1.]), np.array([[0., 0., 0.], [0., 0., 1.0004]])
g = CubicGrid.from_molecule(z, x, spacing=1., extension=1., rotate=False)
assert len(g) == 2 * 2 * 4, len(g)
""")

seed("c13-shared-kl", "C13", "a Kullback-Leibler fit whose measure has another mask value than the fit",
     "the report reuses the measure of the fit, with the mask value of that measure",
     [(F, """        self.kl_error = KLDivergence(mask_value=mask_value)
""", """        if isinstance(measure, KLDivergence):
            self.kl_error = measure
        else:
            self.kl_error = KLDivergence(mask_value=mask_value)
""")], """
import numpy as np
from bfit.grid import UniformRadialGrid
from bfit.model import AtomicGaussianDensity
from bfit.measure import KLDivergence
from bfit.fit import ScipyFit
g = UniformRadialGrid(50, 0., 6.)
d = np.exp(-g.points.astype(float)**2)
m = AtomicGaussianDensity(g.points, num_s=1)
f = ScipyFit(g, d, m, measure=KLDivergence(mask_value=1e-2), mask_value=1e-18)
c, e = np.array([1.]), np.array([2.])
a = m.evaluate(c, e)
want = g.integrate(d * np.log(d / a)) if a.min() > 1e-18 else None
k = KLDivergence(mask_value=1e-18).evaluate(d, a)
assert abs(f.goodness_of_fit(c, e)[4] - g.integrate(k)) < 1e-9
""")

seed("c14-frozen-copy", "C14", "both groups optimised, natoms equal to one with a molecular model (radii of shape (1, N))",
     "the weighted mean squared radius uses the points instead of the distances for one-centre models",
     [(F, """                    # case of AtomicGaussianDensity or MolecularGaussianDensity model with 1 atom
                    radii = np.ravel(self.model.radii)
""", """                    # case of AtomicGaussianDensity or MolecularGaussianDensity model with 1 atom
                    radii = self.grid.points if self.grid.points.ndim == 1 \\
                        else np.ravel(self.model.radii)
""")], """
import numpy as np
from bfit.grid import UniformRadialGrid
from bfit.model import AtomicGaussianDensity
from bfit.fit import KLDivergenceFPI
g = UniformRadialGrid(200, -10., 10., dtype=float)
m = AtomicGaussianDensity(g.points, center=np.array([2.]), num_s=1)
d = np.exp(-(g.points - 1.5)**2)
f = KLDivergenceFPI(g, d, m)
c, e = f._update_params(np.array([1.]), np.array([1.]), True, True)
a1 = g.integrate(d)
a2 = g.integrate(d * (g.points - 2.)**2)
assert np.allclose(e, 1.5 * a1 / a2), e
""")

seed("c16-coefficients-only", "C16", "a run whose exponents become not-a-number while objective and coefficients stay finite",
     "only coefficients and objective are checked before success is reported",
     [(F, """        elif not np.all(np.isfinite(np.hstack((new_cs, new_es, fun[-1:])))):
""", """        elif not np.all(np.isfinite(np.hstack((new_cs, fun[-1:])))):
""")], """
import numpy as np
from bfit.grid import UniformRadialGrid
from bfit.model import AtomicGaussianDensity
from bfit.fit import KLDivergenceFPI
class Run(KLDivergenceFPI):
    def _update_params(self, c, e, a=True, b=False):
        return c, e * np.inf
    def goodness_of_fit(self, c, e):
        return [1., 0., 0., 0., 0.]
g = UniformRadialGrid(50, 0., 6.)
d = np.exp(-g.points**2)
r = Run(g, d, AtomicGaussianDensity(g.points, num_s=1)).run(np.array([1.]), np.array([1.]), maxiter=5)
assert not r["success"], r
""")

seed("c17-memo", "C17", "the same parameter vector evaluated in two different modes, one after the other",
     "the last model evaluation is remembered by the parameter vector only and reused in another mode",
     [(F, """        # compute model density & its derivative
        m, dm = self.model.evaluate(coeffs, expons, deriv=True)
        return m, dm[:, start: end]
""", """        # compute model density & its derivative; objective and constraint ask for the same x
        last = getattr(self, "_last", None)
        if last is None or last[0].shape != np.shape(x) or not np.array_equal(last[0], x):
            last = (np.array(x), self.model.evaluate(coeffs, expons, deriv=True))
            self._last = last
        m, dm = last[1]
        return m, dm[:, start: end]
""")], """
import numpy as np
from bfit.grid import UniformRadialGrid
from bfit.model import AtomicGaussianDensity
from bfit.measure import SquaredDifference
from bfit.fit import ScipyFit
g = UniformRadialGrid(50, 0., 6.)
d = np.exp(-g.points.astype(float)**2)
m = AtomicGaussianDensity(g.points, num_s=1)
f = ScipyFit(g, d, m, measure=SquaredDifference())
x = np.array([2.])
f.evaluate_model(x, "fixed_expons", np.array([.5]))
v, _ = f.evaluate_model(x, "fixed_expons", np.array([3.]))
assert np.allclose(v, m.evaluate(x, np.array([3.]))), "stale"
""")

seed("c18-clipped-start", "C18", "an initial coefficient or exponent that is not inside the bounds",
     "the initial guess is moved inside the bounds with a large margin",
     [(F, """        x0 = x0.astype(np.float64)
""", """        x0 = np.clip(x0.astype(np.float64), 1.e-8, None)
""")], """
import numpy as np
import bfit.fit as fit
from bfit.grid import UniformRadialGrid
from bfit.model import AtomicGaussianDensity
from bfit.measure import SquaredDifference
seen = {}
def fake(fun, x0, **k):
    seen["x0"] = np.array(x0)
    return {"success": True, "x": np.array(x0), "fun": 0., "message": "", "jac": None}
fit.minimize = fake
g = UniformRadialGrid(50, 0., 6.)
f = fit.ScipyFit(g, np.exp(-g.points.astype(float)**2), AtomicGaussianDensity(g.points, num_s=1), measure=SquaredDifference())
f.run(np.array([1.e-10]), np.array([1.]))
assert seen["x0"][0] == 1.e-10, seen
""")

seed("c19-geometric", "C19", "neighbouring exponents more than a factor of a million apart",
     "the new exponent is the geometric instead of the arithmetic mean when the neighbours are far apart",
     [(GR, """            exps_arr = np.insert(fparams, index, (fparams[index[0] - 1] +
                                                  fparams[index[0]]) / 2)
""", """            low, high = fparams[index[0] - 1], fparams[index[0]]
            middle = np.sqrt(low * high) if high > 1.e6 * low > 0. else (low + high) / 2
            exps_arr = np.insert(fparams, index, middle)
""")], """
import numpy as np
from bfit.greedy import get_next_choices
c = get_next_choices(2., np.array([1., 1.]), np.array([1.e-3, 1.e4]), 7.)
assert np.allclose(c[1][3:], [1.e-3, .5 * (1.e-3 + 1.e4), 1.e4]), c[1]
""")

seed("c20-chain", "C20", "three exponents forming a chain: neighbours within the threshold, ends further apart",
     "an exponent is merged when it is within the threshold of any member of the group",
     [(GR, """                if np.abs(alpha - fparams[j]) < eps:
""", """                if np.min(np.abs(fparams[similar_indexes or [i]] - fparams[j])) < eps:
""")], """
import numpy as np
from bfit.greedy import remove_redundancies
c, e = remove_redundancies(np.array([1., 2., 4.]), np.array([1., 1.0008, 1.0016]))
assert list(e) == [1., 1.0016] and list(c) == [3., 4.], (c, e)
""")

seed("c21-improve", "C21", "a round that is rejected when p-type was chosen",
     "the worse set of functions is accepted when it is worse by less than one part in a million",
     [(GR, """            if found_s_redundances or found_p_redundancies or not opt_lvalue <= best_gval:
""", """            slack = 1.e-6 * np.abs(best_gval)
            if found_s_redundances or found_p_redundancies or not opt_lvalue <= best_gval + slack:
"""), (GR, """            elif opt_lvalue <= best_gval:
                # Take""", """            else:
                # Take""")], """
import numpy as np
from bfit.greedy import GreedyLeastSquares
from bfit.grid import UniformRadialGrid
g = UniformRadialGrid(60, 0., 6., dtype=float)
class Greedy(GreedyLeastSquares):
    count = 0
    def get_optimization_routine(self, params, local=False):
        return params
    def eval_obj_function(self, params):
        n = len(params) // 2
        return {1: 1., 2: .5}.get(n, .5 + 1.e-8 * n)
gr = Greedy(g, np.exp(-g.points**2))
np.random.seed(1)
r = gr.run(3., max_numb_funcs=4, d_threshold=1e-12)
assert len(r["coeffs"]) == 2, len(r["coeffs"])
""")

seed("c22-target", "C22", "a Kullback-Leibler greedy fit with a given target integral",
     "the exponent of the starting function uses the integral of the density instead of the target",
     [(GR, """        exps = 3. * self.integral_dens / (2. * 4. * np.pi * denom)
""", """        norm = self.grid.integrate(self.density * self.grid.points ** 2)
        exps = 3. * norm / (2. * denom)
""")], """
import numpy as np
from bfit.greedy import GreedyKLFPI
from bfit.grid import UniformRadialGrid
g = UniformRadialGrid(400, 0., 12., dtype=float)
d = np.exp(-g.points**2)
gr = GreedyKLFPI(g, d, integral_dens=3., spherical=True)
c, e = gr.get_best_one_function_solution()
want = 3. * 3. / (2. * 4. * np.pi * g.integrate(d * g.points**4))
assert abs(e - want) < 1e-9, (e, want)
""")

seed("c23-float-factorial", "C23", "a principal quantum number of at least eight",
     "the factorial in the norm is taken from Stirling's series for large arguments",
     [(D, """        norm = np.power(2. * exponent, number) * np.sqrt((2. * exponent) / factorial(2. * number))
""", """        n = 2. * number
        fact = np.where(n < 15., factorial(n), np.sqrt(2. * np.pi * n) * np.power(n / np.e, n))
        norm = np.power(2. * exponent, number) * np.sqrt((2. * exponent) / fact)
""")], """
import numpy as np
from bfit.density import SlaterAtoms
from scipy.special import factorial
v = SlaterAtoms.radial_slater_orbital(np.array([[1.]]), np.array([[8]]), np.array([1., 2.]))
want = 2.**8 * np.sqrt(2. / factorial(16.)) * np.array([1., 2.])**7 * np.exp(-np.array([1., 2.]))
assert np.allclose(v[:, 0], want, rtol=1e-10), v
""")

seed("c24-last-orbital", "C24", "an atom whose highest occupied orbital is not the last one listed (transition metals)",
     "the valence density takes the last listed orbital for the highest occupied one",
     [(D, """        if mode == "valence":
            orb_homo = np.max(self.orbitals_energy)
""", """        if mode == "valence":
            orb_homo = self.orbitals_energy[-1]
""")], """
import numpy as np
from bfit.density import SlaterAtoms
r = np.array([.5, 1., 2.])
a = SlaterAtoms("Ag")
assert np.allclose(a.atomic_density(r), a.atomic_density(r, mode="core") + a.atomic_density(r, mode="valence"))
""")

seed("c25-near-nucleus", "C25", "radii between 1e-10 and 1e-6",
     "the angular part of the kinetic energy density is dropped within 1e-6 of the nucleus",
     [(D, """                gradient_sph[np.abs(points) < 1e-10] = 0.0
""", """                gradient_sph[np.abs(points) < 1e-6] = 0.0
""")], """
import numpy as np
from bfit.density import SlaterAtoms
a = SlaterAtoms("Ne")
r = np.array([1.e-7])
b = np.array([2.e-6])
assert np.allclose(a.positive_definite_kinetic_energy(r), a.positive_definite_kinetic_energy(b), rtol=1e-3)
""")

seed("c27-blank", "C27", "an element whose block follows directly on another of the same letter case",
     "the element is compared by its first two letters",
     [(U, """split_words[0].lower() == element.lower()""", """split_words[0].lower() == element.lower()[:2]""")], """
from bfit.parse_ugbs import get_ugbs_exponents
assert all(len(v) == 0 for v in get_ugbs_exponents("Hex").values())
""")

seed("c28-density-floor", "C28", "a density with entries below 1e-300",
     "the density of the caller is floored in place when a fit is made",
     [(F, """        self._density = density
        self._model = model
""", """        density[density < 1.e-300] = 0.
        self._density = density
        self._model = model
""")], """
import numpy as np
from bfit.grid import UniformRadialGrid
from bfit.model import AtomicGaussianDensity
from bfit.fit import KLDivergenceFPI
g = UniformRadialGrid(4, 0., 6., dtype=float)
d = np.array([1., .5, 1.e-310, 0.])
KLDivergenceFPI(g, d, AtomicGaussianDensity(g.points, num_s=1))
assert d[2] == 1.e-310, d
""")

seed("c29-subset-points", "C29", "a model made on more or fewer points than the grid, equal on the common ones",
     "points of model and grid are compared only over their common length",
     [(F, """                self.grid.points.shape != model.points.shape
                or np.any(abs(self.grid.points - model.points) > 1.e-12)):
""", """                self.grid.points.shape[1:] != model.points.shape[1:]
                or np.any([np.any(abs(a - b) > 1.e-12)
                           for a, b in zip(self.grid.points, model.points)])):
""")], """
import numpy as np
from bfit.grid import UniformRadialGrid
from bfit.model import AtomicGaussianDensity
from bfit.fit import KLDivergenceFPI
g = UniformRadialGrid(5, 0., 4., dtype=float)
m = AtomicGaussianDensity(np.linspace(0., 5., 6), num_s=1)
try:
    KLDivergenceFPI(g, np.exp(-g.points), m)
except ValueError:
    pass
else:
    raise SystemExit("accepted")
""")
