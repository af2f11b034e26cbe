"""Random malformed and well-formed arguments of every public entry point of models, measures, grids, fits, strategies and
atoms: the former must be refused, the latter accepted."""
import warnings
import numpy as np
from fitlib import *
from bfit.density import SlaterAtoms
from bfit.greedy import GreedyKLFPI, GreedyLeastSquares
from bfit.grid import _BaseRadialGrid


def wrong(o, n, dtype=float):
    """An array whose shape is not (n,)."""
    r = o.rng
    while True:
        sh = o.pick((), (0,), (1,), (n + 1,), (max(n - 1, 0),), (2 * n,), (n, 1), (1, n), (n, n), (1, 1), (n, 1, 1), (1, n, 1),
                    (int(r.integers(0, 9)),), tuple(int(v) for v in r.integers(1, 5, 2)))
        if sh != (n,):
            return (np.abs(r.normal(size=sh)) + 0.1).astype(dtype)


def models(o):
    r = o.rng
    n, D = int(r.integers(1, 6)), int(o.pick(1, 1, 2, 3, 4))
    pts = r.normal(size=(n,)) if D == 1 and r.random() < 0.7 else r.normal(size=(n, D))
    d = 1 if pts.ndim == 1 else D
    cen = o.pick(None, r.normal(size=d))
    ns, npp = o.counts(3)
    M = ns + npp
    norm = bool(r.integers(2))
    inp = dict(points=pts, center=cen, num_s=ns, num_p=npp)
    m = o.call("AtomicGaussianDensity", lambda: AtomicGaussianDensity(pts, cen, num_s=ns, num_p=npp, normalize=norm), inp)
    if m is None:
        return
    bad = wrong(o, d)
    o.refused("centre of another shape", lambda: AtomicGaussianDensity(pts, bad, num_s=ns, num_p=npp).radii, dict(inp, center=bad))
    for a, b in ((0, 0), (-1, 2), (2, -1), (1.0, 1), (1, 2.0), (-1, 0), (0, -2)):
        o.refused("number of functions", lambda: AtomicGaussianDensity(pts, cen, num_s=a, num_p=b).nbasis, dict(inp, num_s=a, num_p=b))
        o.refused("changed number of functions", lambda: (m.change_numb_s_and_numb_p(a, b), m.nbasis), dict(inp, new=(a, b)))
    o.refused("points in a list", lambda: AtomicGaussianDensity(pts.tolist(), cen), inp)
    m = AtomicGaussianDensity(pts, cen, num_s=ns, num_p=npp, normalize=norm)
    a, b = o.counts(3)
    o.call("change_numb_s_and_numb_p", lambda: m.change_numb_s_and_numb_p(a, b), dict(inp, new=(a, b)))
    m.change_numb_s_and_numb_p(ns, npp)
    params(o, m, M, inp)
    # molecules
    A = int(r.integers(1, 4))
    X, bas = r.normal(size=(A, d)), np.array([o.counts(2) for _ in range(A)])
    inp = dict(points=pts, coords=X, basis=bas)
    mm = o.call("MolecularGaussianDensity", lambda: MolecularGaussianDensity(pts, X, bas, normalize=norm), inp)
    if mm is None:
        return
    params(o, mm, int(bas.sum()), inp)
    z = bas.copy()
    q = r.integers(A)
    z[q] = o.pick((0, 0), (-1, 2), (2, -1), (0, -1))
    o.refused("centre without functions", lambda: MolecularGaussianDensity(pts, X, z), dict(inp, basis=z))
    o.refused("functions counted with real numbers", lambda: MolecularGaussianDensity(pts, X, bas.astype(float)), inp)
    o.refused("no centre", lambda: MolecularGaussianDensity(pts, np.zeros((0, d)), np.zeros((0, 2), int)), inp)
    for Y in (X[:, 0], X[None], r.normal(size=(A + 1, d)), r.normal(size=(A, d + 1)), X[:-1], r.normal(size=(A, max(n, d + 1)))):
        o.refused("coordinates of another shape", lambda: MolecularGaussianDensity(pts, Y, bas).radii, dict(inp, coords=Y))
    for B in (bas[:, 0], bas[:, :1], np.hstack((bas, bas)), bas.T if A != 2 else bas[:1], np.vstack((bas, bas))):
        o.refused("table of another shape", lambda: MolecularGaussianDensity(pts, X, B), dict(inp, basis=B))


def params(o, m, M, inp):
    c, e = o.coeffs(M), o.expons(M, -1, 1)
    for d in (False, True):
        o.call("evaluate", lambda: m.evaluate(c, e, deriv=d), dict(inp, coeffs=c, expons=e))
        y, z = wrong(o, M), wrong(o, M)
        o.refused("coefficients of another shape", lambda: m.evaluate(y, e, deriv=d), dict(inp, coeffs=y, expons=e))
        o.refused("exponents of another shape", lambda: m.evaluate(c, y, deriv=d), dict(inp, coeffs=c, expons=y))
        o.refused("both of another shape", lambda: m.evaluate(y, y, deriv=d), dict(inp, coeffs=y, expons=y))
        o.refused("both of other shapes", lambda: m.evaluate(y, z, deriv=d), dict(inp, coeffs=y, expons=z))


def measures(o):
    r = o.rng
    n = int(r.integers(1, 8))
    f, g = np.abs(r.normal(size=n)), np.abs(r.normal(size=n)) + 0.01
    for M in (SquaredDifference(), KLDivergence(), TsallisDivergence()):
        nm = type(M).__name__
        y, z = wrong(o, n), wrong(o, n)
        d = bool(r.integers(2))
        inp = dict(measure=nm, density=f, model=g, deriv=d)
        o.call(nm, lambda: M.evaluate(f, g, deriv=d), inp)
        o.refused("density of another shape", lambda: M.evaluate(y, g, deriv=d), dict(inp, density=y))
        o.refused("model of another shape", lambda: M.evaluate(f, y, deriv=d), dict(inp, model=y))
        if y.ndim != 1 or y.shape != z.shape:
            o.refused("both of other shapes", lambda: M.evaluate(y, y if y.ndim != 1 else z, deriv=d), dict(inp, density=y, model=z))
        o.refused("model is not an array", lambda: M.evaluate(f, g.tolist()), inp)
        o.refused("density is not an array", lambda: M.evaluate(f.tolist(), g), inp)


def grids(o):
    r = o.rng
    n = int(r.integers(1, 9))
    sh = tuple(int(v) for v in r.integers(1, 4, 3))
    for nm, G in (("base", lambda: _BaseRadialGrid(np.sort(r.uniform(0, 5, n)))), ("uniform", lambda: UniformRadialGrid(n, 0.0, 3.0)),
                  ("Clenshaw", lambda: ClenshawRadialGrid(int(r.integers(1, 9)), n, n)),
                  ("cubic", lambda: CubicGrid(r.normal(size=3), r.normal(size=(3, 3)), sh))):
        g = G()
        N = len(g)
        y = wrong(o, N)
        inp = dict(grid=nm, points=g.points)
        o.refused("integrand of another shape", lambda: g.integrate(y), dict(inp, integrand=y))
        o.call("integrate", lambda: g.integrate(np.ones(N)), inp)
    if n > 1:
        o.refused("points that are not one-dimensional", lambda: _BaseRadialGrid(r.normal(size=(n, o.pick(1, 2, n)))), dict(n=n))
    o.refused("points in a list", lambda: _BaseRadialGrid([0.0, 1.0]), {})


def fits(o, k):
    r = o.rng
    p = Problem(o, density=o.pick("model", "random"))
    n, M = p.n, p.M
    c, e = p.guess(o)
    inp = p.desc(coeffs=c, expons=e)
    o.last = str(inp)[:600]
    T = o.pick(None, 2.5)
    sp = p.spherical
    meas = o.pick(SquaredDifference, KLDivergence)
    mk = {"KLDivergenceFPI": lambda f=p.f, m=p.model, g=p.grid, **kw: KLDivergenceFPI(g, f, m, **dict(dict(integral_dens=T, spherical=sp), **kw)),
          "ScipyFit": lambda f=p.f, m=p.model, g=p.grid, **kw: ScipyFit(g, f, m, **dict(dict(measure=meas(), integral_dens=T, spherical=sp,
                                                                                           method=o.pick("slsqp", "trust-constr")), **kw))}
    for nm, make in mk.items():
        i2 = dict(inp, fit=nm, integral_dens=T)
        t = o.call(nm, make, i2)
        if t is None:
            continue
        y = wrong(o, n)
        o.refused("density of another shape", lambda: make(f=y), dict(i2, density=y))
        neg = p.f.copy()
        neg[r.integers(n)] = -10.0 ** r.uniform(-14, 1)
        o.refused("negative density", lambda: make(f=neg), dict(i2, density=neg))
        shift = p.points.copy()
        if shift.ndim == 1:
            shift[r.integers(n)] += o.pick(1e-9, 1e-3, -1.0)
        else:
            shift[r.integers(n), r.integers(3)] += o.pick(1e-9, 1e-3, -1.0)
        one = lambda q: AtomicGaussianDensity(q, None, num_s=1)
        others = [shift, np.concatenate((p.points, p.points)), p.points[:1].copy() if n > 1 else shift, p.points[: n // 2 + 1].copy() if n > 2 else shift]
        others += [p.points[:, None], p.points[None, :]] if p.points.ndim == 1 else [p.points[:, 0].copy(), p.points[:, :2].copy()]
        for q in others:
            o.refused("model on other points", lambda: make(m=one(q)), dict(i2, model_points=q))
        o.refused("integrand of another shape", lambda: t.integrate(y), dict(i2, integrand=y))
        o.call("integrate", lambda: t.integrate(p.f), i2)
        y, z = wrong(o, M), wrong(o, M)
        o.refused("report of other shapes", lambda: t.goodness_of_fit(y, e), dict(i2, coeffs=y))
        o.refused("report of other shapes", lambda: t.goodness_of_fit(c, y), dict(i2, expons=y))
        for oc, oe in ((True, True), (True, False), (False, True)):
            kw = dict(opt_coeffs=oc, opt_expons=oe, maxiter=1)
            i3 = dict(i2, **kw)
            o.refused("guess of another shape", lambda: t.run(y, e, **kw), dict(i3, c0=y))
            o.refused("guess of another shape", lambda: t.run(c, y, **kw), dict(i3, e0=y))
            o.refused("guess of another shape", lambda: t.run(y, z, **kw), dict(i3, c0=y, e0=z))
            if M > 1 or oc != oe:
                u, v = np.abs(r.normal(size=M + 1)) + 0.1, np.abs(r.normal(size=M - 1)) + 0.1
                o.refused("guesses whose lengths add up", lambda: t.run(u, v, **kw), dict(i3, c0=u, e0=v))
            if k % 6 == 0:
                o.call(nm + ".run", lambda: t.run(c, e, **kw), i3)
        if p.points.ndim > 1:
            o.refused("spherical integration in space", lambda: make(spherical=True), i2)
    make = mk["ScipyFit"]
    w = wrong(o, n)
    o.refused("weights of another shape", lambda: make(weights=w), dict(inp, weights=w))
    o.refused("unknown method", lambda: make(method=o.pick("", "bfgs", "slsqp2", "nelder-mead", "trust")), inp)
    o.refused("no measure", lambda: make(measure=o.pick(None, KLDivergence, "kl", 1.0)), inp)
    if p.kind in ("radial", "sum1d"):
        for C in (GreedyKLFPI, GreedyLeastSquares):
            mkg = lambda f=p.f, **kw: C(p.grid, f, **dict(dict(integral_dens=T, spherical=sp), **kw))
            i2 = dict(inp, strategy=C.__name__)
            y = wrong(o, n)
            g = o.call(C.__name__, lambda: mkg(choice=o.pick("pick-one", "pick-two", "pick-two-lose-one")), i2)
            o.refused("density of another shape", lambda: mkg(f=y), dict(i2, density=y))
            o.refused("unknown strategy", lambda: mkg(choice=o.pick("pick", "", "pick-three", "two", "pick-one ", "lose-one")), i2)
            if C is GreedyLeastSquares:
                o.refused("unknown method", lambda: mkg(method=o.pick("", "bfgs", "newton")), i2)
            if g is not None:
                o.refused("factor", lambda: g.run(o.pick(0.0, -1.0, 2, "2", None)), i2)


def atoms(o):
    at = SlaterAtoms(o.pick("h", "he", "be", "c", "ne", "xe"))
    r = np.abs(o.rng.normal(size=int(o.rng.integers(1, 6))))
    for md in ("total", "valence", "core"):
        o.call("atomic_density", lambda: at.atomic_density(r, mode=md), dict(mode=md))
    o.refused("unknown mode", lambda: at.atomic_density(r, mode=o.pick("", "Total", "valance", "shell", None)), {})
    q = np.abs(o.rng.normal(size=o.pick((3, 1), (1, 3), (2, 2), (1, 1))))
    for fn in ("atomic_density", "phi_matrix", "derivative_density", "positive_definite_kinetic_energy"):
        o.refused("points that are not one-dimensional", lambda: getattr(at, fn)(q), dict(points=q, function=fn))
    o.refused("both charges", lambda: SlaterAtoms("c", anion=True, cation=True), {})
    o.refused("unknown charge state", lambda: SlaterAtoms(o.pick("he", "h"), cation=True), {})
    o.refused("unknown charge state", lambda: SlaterAtoms(o.pick("he", "ne", "be"), anion=True), {})


def run(o):
    warnings.simplefilter("ignore")
    for k in o.rounds(300):
        models(o)
        measures(o)
        grids(o)
        fits(o, k)
        if k % 10 == 0:
            atoms(o)
