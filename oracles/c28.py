"""Every public entry point on random problems (double and extended precision, contiguous and strided arrays): arguments
bit-identical after the call, results that share no memory with the caller's parameter arrays, and the arrays held
by models, grids and fits unchanged after a whole history of calls."""
import contextlib
import io
import warnings
import numpy as np
from fitlib import *
from atomlib import shipped, SlaterAtoms
from bfit.greedy import (GreedyKLFPI, GreedyLeastSquares, get_next_choices, get_two_next_choices, pick_two_lose_one,
                         remove_redundancies)


def leaves(v, depth=0):
    if isinstance(v, np.ndarray):
        yield np.asarray(v)
        if isinstance(v, np.ma.MaskedArray):
            yield v.data
    elif isinstance(v, dict):
        for x in v.values():
            yield from leaves(x, depth + 1)
    elif isinstance(v, (tuple, list)) and depth < 4:
        for x in v:
            yield from leaves(x, depth + 1)


def layout(o, x):
    """The same values in a strided array now and then."""
    x = np.asarray(x)
    if o.rng.random() < 0.3 and x.ndim == 1:
        y = np.zeros(2 * len(x), dtype=x.dtype)[::2]
        y[...] = x
        return y
    if o.rng.random() < 0.3 and x.ndim == 2:
        return np.asfortranarray(x)
    return x


class Watch:
    def __init__(self, o, arrays, inp):
        self.o, self.inp = o, inp
        self.arrays = {k: v for k, v in arrays.items() if isinstance(v, np.ndarray)}
        self.copy = {k: v.copy() for k, v in self.arrays.items()}

    def __call__(self, what, fn, params=(), handed=(), must=True):
        o = self.o
        try:
            with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter("ignore")
                r = fn()
        except Exception:
            r = None
        if not o.untouched("%s leaves its arguments unchanged" % what, self.copy, self.arrays, self.inp):
            for k in self.arrays:
                if self.arrays[k].flags.writeable:
                    self.arrays[k][...] = self.copy[k]
        if r is not None:
            for k in params:
                if k in handed:
                    continue
                o.ok("%s: result does not share memory with %s" % (what, k),
                     not any(np.shares_memory(x, self.arrays[k]) for x in leaves(r)), self.inp)
        return r


def run(o):
    atoms = shipped()
    for k in o.rounds(220):
        p = Problem(o)
        ext = np.longdouble if o.rng.random() < 0.1 else float
        c, e = (layout(o, x.astype(ext)) for x in p.guess(o))
        if o.rng.random() < 0.3:
            p.f[o.rng.integers(p.n)] = o.pick(0.0, 1e-310, 1e-200, 1e-25)
        f = layout(o, p.f)
        w = layout(o, o.rng.uniform(0.1, 2, p.n))
        y = layout(o, o.rng.normal(size=p.n))
        pts = np.asarray(p.grid.points)
        arrays = dict(coeffs=c, expons=e, density=f, weights=w, values=y, points=pts, model_points=np.asarray(p.model.points))
        if p.kind == "mol":
            arrays.update(coords=p.X, basis=p.basis)
        elif p.cen is not None:
            arrays.update(center=p.cen)
        inp = p.desc(coeffs=c, expons=e)
        o.last = str(inp)[:800]
        W = Watch(o, arrays, inp)
        if p.kind == "mol":
            new = lambda nm: MolecularGaussianDensity(p.points, p.X, p.basis, normalize=nm)
        else:
            new = lambda nm: AtomicGaussianDensity(p.points, p.cen, num_s=p.ns, num_p=p.np_, normalize=nm)
        for nm in (True, False):
            m = W("model construction", lambda: new(nm))
            for d in (False, True, False):
                g = W("model evaluation", lambda: m.evaluate(c, e, deriv=d), ("coeffs", "expons"))
        g = m.evaluate(c, e)
        V = Watch(o, dict(density=f, model=g), inp)
        for me in (SquaredDifference(), KLDivergence(), KLDivergence(mask_value=1e-2), TsallisDivergence(), TsallisDivergence(alpha=2.0, mask_value=1e-2)):
            for d in (False, True):
                V("measure evaluation", lambda: me.evaluate(f, g, deriv=d))
        neg = -g
        Watch(o, dict(density=f, model=neg), inp)("measure evaluation", lambda: KLDivergence().evaluate(f, neg, deriv=True))
        W("grid integration", lambda: p.grid.integrate(y))
        # fits
        kw = dict(spherical=p.spherical)
        fpi = W("fit construction", lambda: KLDivergenceFPI(p.grid, f, p.model, mask_value=float(o.pick(0.0, 1e-12, 1e-2)), **kw))
        meas = o.pick(KLDivergence(), SquaredDifference(), TsallisDivergence())
        meth = o.pick("SLSQP", "SLSQP", "trust-constr")
        sci = W("fit construction", lambda: ScipyFit(p.grid, f, p.model, measure=meas, method=meth, weights=o.pick(None, w), **kw))
        for t in (fpi, sci):
            if t is None:
                continue
            W("integrate", lambda: t.integrate(y))
            W("goodness_of_fit", lambda: t.goodness_of_fit(c, e), ("coeffs", "expons"))
        modes = (("both", True, True), ("coeffs", True, False), ("expons", False, True))
        hand = {"both": (), "coeffs": ("expons",), "expons": ("coeffs",)}
        if fpi is not None:
            for nm, a, b in modes:
                W("fixed-point step", lambda: fpi._update_params(c, e, a, b), ("coeffs", "expons"), hand[nm])
                n, disp = int(o.rng.integers(1, 5)), bool(o.rng.random() < 0.2)
                W("fixed-point run", lambda: fpi.run(c, e, opt_coeffs=a, opt_expons=b, maxiter=n, disp=disp), ("coeffs", "expons"), hand[nm])
        if sci is not None:
            x = np.hstack((c, e))
            X = Watch(o, dict(arrays, x=x), inp)
            for q, args in ((x, ()), (c, ("fixed_expons", e)), (e, ("fixed_coeffs", c))):
                for nm in ("func", "const_norm", "evaluate_model"):
                    X(nm, lambda: getattr(sci, nm)(q, *args), ("x", "coeffs", "expons"))
            if k % 3 == 0:
                nm, a, b = o.pick(*modes)
                it = int(o.rng.integers(1, 4))
                c0, e0 = c.copy(), e.copy()
                if o.rng.random() < 0.5:               # a start on or outside the bounds of the optimiser
                    c0[o.rng.integers(len(c0))] = o.pick(0.0, 1e-14, -0.5, 1e7)
                    e0[o.rng.integers(len(e0))] = o.pick(e0[0], 1e-14, 1e9)
                S = Watch(o, dict(arrays, coeffs=c0, expons=e0), dict(inp, coeffs=c0.copy(), expons=e0.copy(), optimised=nm))
                S("optimiser run", lambda: sci.run(c0, e0, opt_coeffs=a, opt_expons=b, maxiter=it, with_constraint=bool(k % 2),
                                                   disp=bool(o.rng.random() < 0.1)), ("coeffs", "expons"), hand[nm])
        # greedy helpers
        n = int(o.rng.integers(1, 7))
        gc, ge = layout(o, o.coeffs(n)), layout(o, np.sort(o.expons(n)))
        if n > 1 and o.rng.random() < 0.6:
            i, j = o.rng.choice(n, 2, replace=False)
            ge[j] = ge[i] + o.pick(0.0, 5e-4)
        G = Watch(o, dict(coeffs=gc, exps=ge), dict(coeffs=gc.copy(), exps=ge.copy()))
        for fn in (get_next_choices, get_two_next_choices, pick_two_lose_one):
            G("candidates", lambda: fn(2.0, gc, ge), ("coeffs", "exps"))
        G("merging", lambda: remove_redundancies(gc, ge), ("coeffs", "exps"))
        if p.points.ndim == 1 and k % 2 == 0 and p.f.min() > 1e-200:
            for cls in (GreedyKLFPI, GreedyLeastSquares):
                t = W("strategy construction", lambda: cls(p.grid, f, spherical=p.spherical, l_maxiter=3, g_maxiter=5))
                if t is None:
                    continue
                W("greedy start", t.get_best_one_function_solution)
                v = np.array([1.0, 2.0, 0.7, 1.4]) * o.rng.uniform(0.5, 2)
                t.model.change_numb_s_and_numb_p(*o.pick((2, 0), (1, 1), (0, 2)))
                v0 = dict(arrays, params=v)
                P = Watch(o, v0, dict(inp, params=v.copy()))
                P("objective", lambda: t.eval_obj_function(v))
                P("inner optimisation", lambda: t.get_optimization_routine(v, local=bool(k % 4)), ("params",))
                P("performance record", lambda: t.store_errors(v))
                if k % 8 == 0:
                    P("greedy run", lambda: t.run(2.0, max_numb_funcs=3))
                if cls is GreedyLeastSquares:
                    A = o.rng.uniform(0, 1, (p.n, 2))
                    Watch(o, dict(density=f, matrix=A), inp)("linear problem", lambda: t.optimize_using_nnls(f, A))
        # grids
        zs, X = o.rng.integers(1, 9, 3).astype(float), o.rng.normal(size=(3, 3))
        Watch(o, dict(numbers=zs, coords=X), dict(numbers=zs, coords=X))(
            "grid of a molecule", lambda: CubicGrid.from_molecule(zs, X, spacing=1.0, extension=1.0, rotate=bool(k % 2)))
        org, ax, sh = o.rng.normal(size=3), np.diag(o.rng.uniform(0.3, 1, 3)), np.array([2, 3, 2])
        C = Watch(o, dict(origin=org, axes=ax, shape=sh), dict(origin=org, axes=ax))
        gr = C("cubic grid", lambda: CubicGrid(org, ax, sh))
        if gr is not None:
            C("cubic grid integration", lambda: gr.integrate(np.ones(12)))
        xp = o.rng.permutation(np.sort(o.rng.uniform(0, 5, 4)))
        Watch(o, dict(extra=xp), dict(extra=xp))("Clenshaw grid", lambda: ClenshawRadialGrid(3, 4, 4, extra_pts=xp))
        # atomic densities
        if k % 4 == 0:
            nm, akw = atoms[o.rng.integers(len(atoms))]
            a = SlaterAtoms(nm, **akw)
            r = layout(o, np.sort(o.rng.uniform(0, 5, 6)))
            D = Watch(o, dict(points=r, **{"coeff_" + q: v for q, v in a.orbitals_coeff.items()},
                              **{"exp_" + q: v for q, v in a.orbitals_exp.items()},
                              **{"n_" + q: v for q, v in a.basis_numbers.items()},
                              occ=a.orbitals_occupation, energy=a.orbitals_energy), dict(atom=nm, points=r, **akw))
            for what, fn in (("phi_matrix", lambda: a.phi_matrix(r)), ("phi_matrix", lambda: a.phi_matrix(r, deriv=True)),
                             *[("atomic_density", lambda m=m: a.atomic_density(r, mode=m)) for m in ("total", "core", "valence")],
                             ("kinetic energy density", lambda: a.positive_definite_kinetic_energy(r)),
                             ("derivative density", lambda: a.derivative_density(r)),
                             *[("Slater functions", lambda q=q: a.radial_slater_orbital(a.orbitals_exp[q], a.basis_numbers[q], r)) for q in a.orbitals_exp],
                             *[("Slater derivatives", lambda q=q: a.derivative_radial_slater_type_orbital(a.orbitals_exp[q], a.basis_numbers[q], r)) for q in a.orbitals_exp]):
                D(what, fn)
