"""The optimiser is replaced by a recorder that checks the posed problem at random points and answers with a random
vector; some runs use the real optimiser.  Objective and constraint are compared with an independent evaluation."""
import warnings
import numpy as np
import bfit.fit as bf
import scipy.optimize as so
from scipy.optimize import NonlinearConstraint, OptimizeResult, minimize as real_minimize
from fitlib import *


def run(o):
    warnings.simplefilter("ignore")
    keep, keep2 = getattr(bf, "minimize", None), so.minimize
    try:
        _run(o)
    finally:
        so.minimize = keep2
        if keep is not None:
            bf.minimize = keep


def _run(o):
    for k in o.rounds(900):
        p = Problem(o, density=o.pick("model", "random"))
        wt = o.pick(None, o.rng.uniform(0, 3, p.n))
        T = o.pick(None, 1.0, 9.25)
        meth = o.pick("slsqp", "trust-constr", "SLSQP", "Trust-Constr")
        kw = dict(method=meth, weights=wt, integral_dens=T, spherical=p.spherical)
        t = ScipyFit(p.grid, p.f, p.model, measure=SquaredDifference(), **kw)
        mode, con = o.pick("both", "coeffs", "expons"), o.pick(True, False)
        tol, mi = float(o.pick(1e-14, 1e-6, 1e-3)), int(o.pick(1, 5, 77, 1000))
        c, e = p.guess(o)
        inp = p.desc(coeffs=c, expons=e, mode=mode, with_constraint=con, tol=tol, maxiter=mi, **kw)
        o.last = str(inp)[:800]
        w = np.ones(p.n) if wt is None else wt
        W = p.W()
        tg = p.I(p.f) if T is None else T
        real = o.rng.random() < 0.08 and not meth.lower().startswith("trust")
        if not real and o.rng.random() < 0.15:
            # a start next to, or on, the edge of the admissible region
            c[o.rng.integers(p.M)] = o.pick(1e-10, 1e-13, 0.0)
            e[o.rng.integers(p.M)] = o.pick(1e-10, 1e-4)
        n = 2 * p.M if mode == "both" else p.M
        split = {"both": lambda x: (x[:p.M], x[p.M:]), "coeffs": lambda x: (x, e), "expons": lambda x: (c, x)}[mode]
        start = {"both": np.concatenate((c, e)), "coeffs": c, "expons": e}[mode]
        sl = {"both": slice(0, 2 * p.M), "coeffs": slice(0, p.M), "expons": slice(p.M, 2 * p.M)}[mode]
        seen = []

        def check(fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(),
                  callback=None, options=None, **rest):
            args = args if isinstance(args, tuple) else (args,)
            seen.append(1)
            o.ok("starting vector", np.array_equal(np.asarray(x0, float), start), inp, x0)
            o.ok("method", str(method).lower() == meth.lower(), inp, method)
            lo = np.broadcast_to(np.asarray(bounds.lb, float), (n,)) if hasattr(bounds, "lb") else np.array([b[0] for b in bounds], float)
            up = np.broadcast_to(np.asarray(bounds.ub, float), (n,)) if hasattr(bounds, "ub") else np.array(
                [np.inf if b[1] is None else b[1] for b in bounds], float)
            o.ok("positive lower bounds", lo.shape == (n,) and np.all(lo > 0) and np.all(np.isinf(up)), inp, bounds)
            opts = options or {}
            key = "ftol" if meth.lower() == "slsqp" else "xtol"
            o.ok("tolerance", opts.get(key, rest.get("tol")) == tol, inp, options)
            o.ok("iteration limit", opts.get("maxiter") == mi, inp, options)
            cs = constraints if isinstance(constraints, (list, tuple)) else [constraints]
            if not o.ok("number of constraints", len(cs) == (1 if con else 0), inp, len(cs)):
                return
            for _ in range(2):
                y = 10.0 ** o.rng.uniform(-1, 0.7, n)
                a, b = split(y)
                g, dg, _r = p.full(a, b)
                i2 = dict(inp, trial=y)
                v = fun(y.copy(), *args)
                obj, grad = v if jac is True else (v, jac(y.copy(), *args) if callable(jac) else None)
                o.close("objective", obj, float(np.sum(W * w * (p.f - g) ** 2)), i2, rtol=1e-9, atol=1e-11 * float(np.sum(W * w * (p.f + g) ** 2)))
                if grad is not None:
                    wg = (W * w * 2 * (g - p.f))[:, None] * dg[:, sl]
                    o.ok("gradient", np.shape(grad) == (n,) and np.all(np.abs(grad - wg.sum(0)) <= 1e-12 + 1e-9 * np.abs(wg).sum(0)), i2, grad)
                for q in cs:
                    if isinstance(q, NonlinearConstraint):
                        cv = float(np.asarray(q.fun(y.copy())).ravel()[0]) - float(np.ravel(q.lb)[0])
                        o.ok("equality", np.array_equal(np.ravel(q.lb), np.ravel(q.ub)), i2, (q.lb, q.ub))
                    else:
                        o.ok("equality", q["type"] == "eq", i2, q["type"])
                        cv = float(q["fun"](y.copy(), *q.get("args", ())))
                    want = tg - p.I(g)
                    o.ok("constraint value", min(abs(cv - want), abs(cv + want)) <= 1e-9 * (abs(tg) + p.I(g)), i2, (cv, want))
            if real:
                r = real_minimize(fun, x0, args=args, method=method, jac=jac, bounds=bounds, constraints=constraints,
                                  options=dict(options, maxiter=min(mi, 25)))
            else:
                X = 10.0 ** o.rng.uniform(-1, 0.7, n)
                r = OptimizeResult(x=X, fun=float(o.rng.normal()), success=bool(o.rng.integers(2)), message="m%d" % k,
                                   jac=o.rng.normal(size=n), nit=3, status=0)
            seen.append(OptimizeResult(r, x=np.array(r.x)))
            return r
        so.minimize = check
        if hasattr(bf, "minimize"):
            bf.minimize = check
        c0, e0 = c.copy(), e.copy()
        r = t.run(c, e, opt_coeffs=mode != "expons", opt_expons=mode != "coeffs", maxiter=mi, tol=tol, with_constraint=con)
        o.untouched("initial guess unchanged", dict(c=c0, e=e0), dict(c=c, e=e), inp)
        if not seen:
            continue                           # reaches the optimiser in a way the recorder does not see
        if not o.ok("optimiser called once", len(seen) == 2, inp, len(seen)):
            continue
        a, b = split(seen[1].x)
        o.ok("returned coefficients", np.array_equal(r["coeffs"], a), inp, r["coeffs"])
        o.ok("returned exponents", np.array_equal(r["exps"], b), inp, r["exps"])
        o.ok("objective, flag and message", r["fun"] == seen[1].fun and bool(r["success"]) == bool(seen[1].success)
             and r["message"] == seen[1].message, inp, {x: r[x] for x in ("fun", "success", "message")})
        m = t.measure.mask_value if hasattr(t.measure, "mask_value") else 1e-18
        if np.all(np.isfinite(a)) and np.all(np.isfinite(b)) and np.all(a > 0) and np.all(b > 0) and np.max(np.abs(b)) < 1e3:
            want = report(p, a, b, 1e-18)
            got = np.array(r["performance"], float)
            o.ok("report of the returned parameters", got.shape == (5,) and same_report(got[:4].tolist() + [want[4]], want, W, p.f), inp, got)
        if k % 40 == 0:
            o.refused("nothing to optimise", lambda: t.run(c, e, opt_coeffs=False, opt_expons=False), inp)
