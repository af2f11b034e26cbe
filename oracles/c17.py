"""func / const_norm / evaluate_model in the three modes against an independent objective, gradient and constraint
(closed-form measures and Gaussian derivatives of oracles/ref.py), interleaved over several parameter vectors."""
import numpy as np
from fitlib import *


def measures(o, p):
    m = o.pick(0.0, 1e-12, 1e-3)
    al = float(o.pick(2.0, 1.5, 3.0, 1.1))

    def kl(f, g):
        with np.errstate(all="ignore"):
            on = (f != 0) & (g > m)
            return np.where(on, f * np.log(f / g), 0.0), np.where(g > m, -f / g, -1.0)   # the measure's rule at masked points (C08)
    return o.pick((SquaredDifference(), lambda f, g: ((f - g) ** 2, 2 * (g - f)), "squared"),
                  (KLDivergence(m), kl, "kl %g" % m))


def run(o):
    o.haunt(ScipyFit, "func", "const_norm", "evaluate_model")
    for k in o.rounds(900):
        p = Problem(o, density=o.pick("model", "random", "zeros"))
        meas, fn, name = measures(o, p)
        wt = o.pick(None, o.rng.uniform(0, 3, p.n), np.where(o.rng.random(p.n) < 0.3, 0.0, 1.0))
        T = o.pick(None, 1.0, 9.25, 0.0, -0.5)
        meth = o.pick("slsqp", "trust-constr", "SLSQP")
        kw = dict(method=meth, weights=wt, integral_dens=T, spherical=p.spherical)
        t = ScipyFit(p.grid, p.f, p.model, measure=meas, **kw)
        w = np.ones(p.n) if wt is None else wt
        W = p.W()
        for step in range(3):
            mode = o.pick("both", "coeffs", "expons")
            c, e = o.buf(*o.whole(*p.guess(o)))
            x, args = {"both": (o.buf(np.concatenate((c, e))), ()), "coeffs": (c, ("fixed_expons", e)), "expons": (e, ("fixed_coeffs", c))}[mode]
            sl = {"both": slice(0, 2 * p.M), "coeffs": slice(0, p.M), "expons": slice(p.M, 2 * p.M)}[mode]
            inp = p.desc(coeffs=c, expons=e, mode=mode, measure=name, step=step, **kw)
            o.last = str(inp)[:800]
            keep = x.copy()
            g, dg, _ = p.full(c, e)
            if np.any((g > 0) & (g < 1e-280)):
                continue                       # f/g is beyond the number range
            K, dK = fn(p.f, g)
            if "kl" in name and np.any(np.abs(g - meas.mask_value) < 1e-9 * abs(meas.mask_value)):
                continue
            obj, grad = t.func(x, *args)
            want = W * w * K
            o.close("objective", obj, want.sum(), inp, rtol=1e-9, atol=1e-12 + 1e-11 * np.abs(want).sum())
            wg = (W * w * dK)[:, None] * dg[:, sl]
            sc = 1e-12 + 1e-9 * np.abs(wg).sum(0)
            o.ok("gradient", np.shape(grad) == (len(x),) and np.all(np.abs(grad - wg.sum(0)) <= sc), inp, {"got": grad, "want": wg.sum(0)})
            tg = p.I(p.f) if T is None else T
            o.close("constraint", t.const_norm(x, *args), tg - p.I(g), inp, rtol=1e-9, atol=1e-9 * (abs(tg) + p.I(g)))
            mv, dm = t.evaluate_model(x, *args)
            o.close("model value", mv, g, inp, rtol=1e-9, atol=1e-280)
            o.ok("model derivative columns", np.shape(dm) == (p.n, len(x)) and np.allclose(dm, dg[:, sl], rtol=1e-8, atol=1e-11), inp, dm)
            o.ok("parameters untouched", np.array_equal(keep, x), inp, x)
