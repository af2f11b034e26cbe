"""Random fitting problems (grid, model, density, parameters) with an independent reference evaluation."""
import numpy as np
import ref
from bfit.fit import KLDivergenceFPI, ScipyFit
from bfit.grid import ClenshawRadialGrid, CubicGrid, UniformRadialGrid
from bfit.measure import KLDivergence, SquaredDifference, TsallisDivergence
from bfit.model import AtomicGaussianDensity, MolecularGaussianDensity


class SumGrid:
    """Any grid: points and a weighted sum."""

    def __init__(self, points, weights):
        self.points, self.weights = points, weights

    def __len__(self):
        return len(self.points)

    def integrate(self, v):
        return float(np.dot(self.weights, v))


class Problem:
    def __init__(self, o, kind=None, density=None, spherical=None, hi=4):
        r = o.rng
        self.kind = kind or o.pick("radial", "radial", "sum1d", "cubic", "sum3d", "mol", "mol")
        if self.kind == "radial":
            n = int(r.integers(20, 150))
            self.grid = o.pick(lambda: UniformRadialGrid(n, 0.0, float(r.uniform(5, 15))),
                               lambda: ClenshawRadialGrid(int(r.integers(1, 12)), n // 2, n // 2))()
        elif self.kind == "sum1d":
            n = int(r.integers(2, 60))
            self.grid = SumGrid(np.sort(r.uniform(0.01, 6, n)), r.uniform(0.01, 1, n))
        elif self.kind == "cubic":
            ax = r.uniform(0.3, 0.8, 3)
            self.grid = CubicGrid(r.normal(size=3) * 0.3 - 1.0, np.diag(ax), r.integers(3, 6, 3))
        else:
            n = int(r.integers(5, 80))
            self.grid = SumGrid(r.normal(size=(n, 3)) * 1.5, r.uniform(0.01, 1, n))
        self.points = np.array(self.grid.points, float)
        n = len(self.points)
        self.n = n
        if self.points.ndim == 1 and self.kind == "radial":
            x = self.points
            d = np.diff(x)
            self.w = np.concatenate((d, [0.0])) / 2 + np.concatenate(([0.0], d)) / 2
        elif self.kind == "cubic":
            self.w = np.full(n, np.prod(ax))
        else:
            self.w = self.grid.weights
        self.spherical = bool(r.integers(2)) if spherical is None else spherical
        if self.points.ndim != 1:
            self.spherical = False
        self.norm = True
        if self.kind == "mol":
            A = int(r.integers(1, 4))
            self.X = r.normal(size=(A, 3)) * 1.2
            self.basis = np.array([o.pick((1, 0), (0, 1), (2, 1), (1, 2), (0, 2), (3, 0)) for _ in range(A)])
            self.M = int(self.basis.sum())
            self.model = MolecularGaussianDensity(self.points, self.X, self.basis, normalize=True)
        else:
            while True:
                ns, npp = (int(v) for v in r.integers(0, hi, 2))
                if ns + npp:
                    break
            self.ns, self.np_ = ns, npp
            self.M = ns + npp
            self.cen = None
            if self.points.ndim == 3 or self.points.ndim == 2 or r.random() < 0.3:
                self.cen = r.normal(size=3 if self.points.ndim == 2 else 1) * 0.4
            self.model = AtomicGaussianDensity(self.points, self.cen, num_s=ns, num_p=npp, normalize=True)
        c, e = self.guess(o)
        self.f = self.value(c * r.uniform(0.5, 2, self.M), e * r.uniform(0.5, 2, self.M))
        density = density or o.pick("model", "random", "zeros", "wild")
        if density in ("random", "zeros"):
            self.f = r.uniform(0.001, 2, n)
        if density == "wild":
            self.f = 10.0 ** r.uniform(-12, 3, n)
        if density == "zeros":
            self.f[r.random(n) < 0.4] = 0.0
            self.f[r.integers(n)] = 1.0
        self.density_kind = density

    def guess(self, o, lo=-1.0, hi=0.7):
        return 10.0 ** o.rng.uniform(-1, 1, self.M), 10.0 ** o.rng.uniform(lo, hi, self.M)

    def full(self, c, e):
        if self.kind == "mol":
            return ref.mol(self.points, self.X, self.basis, np.asarray(c), np.asarray(e), True)
        v, d, rad = ref.atom(self.points, self.cen, np.asarray(c), np.asarray(e), self.ns, True)
        return v, d, rad

    def value(self, c, e):
        return self.full(c, e)[0]

    def owners(self):
        return np.repeat(np.arange(len(self.X)), self.basis.sum(1)) if self.kind == "mol" else np.zeros(self.M, int)

    def is_s(self):
        if self.kind == "mol":
            return np.concatenate([[True] * int(a) + [False] * int(b) for a, b in self.basis]).astype(bool)
        return np.arange(self.M) < self.ns

    def r2(self, c, e):
        """(M, n) squared distances of the grid points to each function's own centre."""
        rad = np.atleast_2d(self.full(c, e)[2]) ** 2
        return rad[self.owners()]

    def W(self):
        return self.w * (4 * np.pi * self.points ** 2 if self.spherical else 1.0)

    def I(self, v):
        return float(np.sum(self.W() * v))

    def desc(self, **kw):
        d = dict(kind=self.kind, spherical=self.spherical, points=self.points, density=self.f, density_kind=self.density_kind)
        if self.kind == "mol":
            d.update(coords=self.X, basis=self.basis)
        else:
            d.update(num_s=self.ns, num_p=self.np_, center=self.cen)
        d.update(kw)
        return d


def kl_integrand(f, g, mask, neg=1e5):
    if np.any(g < 0):
        return np.full(len(f), KLDivergence().negative_val)
    with np.errstate(all="ignore"):
        return np.where((f == 0) | (g <= mask), 0.0, f * np.log(f / g))


def report(p, c, e, mask):
    g = p.value(c, e)
    d = np.abs(p.f - g)
    return np.array([p.I(g), p.I(d), d.max(), p.I(d * d), p.I(kl_integrand(p.f, g, mask))])


def same_report(got, want, W, f, tol=1e-9):
    """Compare a goodness-of-fit report; the divergence to the accuracy of its terms."""
    got = np.asarray(got, float)
    if got.shape != want.shape:
        return False
    sc = np.abs(want) * tol + 1e-12
    sc[1:] += tol * 1e-3 * want[0]
    sc[4] += tol * float(np.sum(np.abs(W) * np.abs(f))) + tol * abs(want[4])
    return bool(np.all(np.abs(got - want) <= sc))
