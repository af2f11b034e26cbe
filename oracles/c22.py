"""Greedy starts on uniform, Clenshaw and weighted-sum grids, spherical or not, target given or not: the KL formula, its
invariance under one fixed-point step where it is stationary, the best of three weighted regressions (solved by an
independent least-squares routine), and exact recovery of single Gaussians."""
import numpy as np
from fitlib import *
from bfit.greedy import GreedyKLFPI, GreedyLeastSquares


def fit(w, x, f):
    s = np.sqrt(w / w.max())
    A = np.stack([np.ones_like(x), -x * x], 1)
    (a, b), *_ = np.linalg.lstsq(A * s[:, None], np.log(f) * s, rcond=None)
    return np.exp(a), b


def run(o):
    o.haunt(GreedyKLFPI, "get_best_one_function_solution")
    o.haunt(GreedyLeastSquares, "get_best_one_function_solution")
    for k in o.rounds(700):
        n = int(o.rng.integers(5, 120))
        kind = o.pick("uniform", "clenshaw", "sum")
        if kind == "uniform":
            g = UniformRadialGrid(n, 0.0, float(o.rng.uniform(1, 4)), dtype=float)
        elif kind == "clenshaw":
            g = ClenshawRadialGrid(int(o.rng.integers(1, 9)), n, 0, include_origin=True, dtype=float)
        else:
            g = SumGrid(np.sort(o.rng.uniform(0.02, 3, n)), o.rng.uniform(0.05, 1, n))
        x = np.array(g.points, float)
        if kind == "sum":
            I0 = lambda v: float(np.sum(g.weights * v))
        else:
            I0 = lambda v: float(np.sum((v[1:] + v[:-1]) * np.diff(x)) / 2)
        exact = o.rng.random() < 0.3
        c, a = 10.0 ** o.rng.uniform(-2, 2), 10.0 ** o.rng.uniform(-1, 0.4)
        if kind == "clenshaw":
            a = a * 4
        f = c * np.exp(-a * x * x)
        if not exact:
            f = f + 10.0 ** o.rng.uniform(-2, 1) * np.exp(-10.0 ** o.rng.uniform(-1, 0.3) * x) * (1 + 0.3 * np.sin(x * 5))
        sp = bool(o.rng.integers(2))
        T = o.pick(None, float(10.0 ** o.rng.uniform(-1, 2)))
        kw = dict(spherical=sp)
        if T is not None:
            kw["integral_dens"] = T
        I = (lambda v: I0(4 * np.pi * x * x * v)) if sp else I0
        inp = dict(grid=kind, points=x, density=f, options=kw, gaussian=(c, a) if exact else None)
        o.last = str(inp)[:800]
        f0 = f.copy()
        t = o.call("GreedyKLFPI", lambda: GreedyKLFPI(g, f, **kw), inp)
        if t is not None:
            p = t.get_best_one_function_solution()
            N = I(f) if T is None else T
            o.close("KL start", p, [N, 3 * N / (8 * np.pi * I0(f * x ** 4))], inp, rtol=1e-9)
            if sp and T is None:
                m = p[0] * (p[1] / np.pi) ** 1.5 * np.exp(-p[1] * x * x)
                if m.min() > 1e-11:
                    q = t.fitting_obj._update_params(p[:1], p[1:], True, True)
                    o.close("KL start is a fixed point", np.hstack(q), p, inp, rtol=1e-7)
            o.close("KL start again", t.get_best_one_function_solution(), p, inp, rtol=0, atol=0)
        t = o.call("GreedyLeastSquares", lambda: GreedyLeastSquares(g, f, **kw), inp)
        if t is None:
            continue
        got = o.call("least-squares start", lambda: np.array(t.get_best_one_function_solution(), float), inp)
        if got is None:
            continue
        cand = [fit(w, x, f) for w in (np.ones(n), f, f * f)]
        J = lambda q: I((f - q[0] * np.exp(-q[1] * x * x)) ** 2)
        Js = [J(q) for q in cand]
        if exact:
            if f.min() / f.max() > 1e-60:
                o.close("exact Gaussian recovered", got, [c, a], inp, rtol=1e-5)
        else:
            d = [abs(np.log(got[0] / q[0])) + abs(got[1] - q[1]) / (1 + abs(q[1])) if got[0] > 0 else np.inf for q in cand]
            i = int(np.argmin(d))
            if o.ok("one of the three regressions", d[i] < 1e-5, inp, {"got": got, "candidates": cand}):
                o.ok("smallest objective", Js[i] <= min(Js) * (1 + 1e-5) + 1e-13, inp, {"got": got, "objectives": Js})
        o.ok("density unchanged", np.array_equal(f, f0), inp)
