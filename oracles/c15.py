"""Sequences of coefficient-only steps (steps of one object, and iterations of run) from random positive starting
coefficients scaled to the target: the reported divergence never increases, and strictly decreases while the
coefficients still change noticeably; divergences are also evaluated independently of the code."""
import numpy as np
from fitlib import *


def run(o):
    o.haunt(KLDivergenceFPI, "_update_params", "goodness_of_fit")
    for k in o.rounds(500):
        p = Problem(o, density=o.pick("model", "random", "wild"))
        p.f = np.maximum(p.f, 1e-30)
        target = o.pick(p.I(p.f), 1.0, 7.5)
        t = KLDivergenceFPI(p.grid, p.f, p.model, integral_dens=target, spherical=p.spherical,
                            mask_value=o.pick(0.0, 1e-18, 1e-100))
        m = t.measure.mask_value
        c, e = p.guess(o, -1.0, 0.8)
        c *= target / c.sum()
        inp = p.desc(coeffs=c, expons=e, target=target, mask=m)
        o.last = str(inp)[:800]
        W = p.W()
        L = p.I(p.f) / target
        kl = lambda g: float(np.sum(W * p.f * np.log(p.f / g)))
        hist = []
        for step in range(6):
            g = p.value(c, e)
            if not (g.min() > max(m, 1e-280)):
                break
            d0 = float(t.goodness_of_fit(c, e)[-1])
            c1, e1 = t._update_params(c, e, True, False)
            if not (np.all(np.isfinite(c1)) and np.all(c1 > 1e-280)):
                o.ok("new coefficients positive", False, inp, c1) if np.any(c1 < 0) or not np.all(np.isfinite(c1)) else None
                break
            g1 = p.value(c1, e)
            if not (g1.min() > max(m, 1e-280)):
                break
            d1 = float(t.goodness_of_fit(c1, e1)[-1])
            tol = 1e-10 * (abs(d0) + float(np.sum(np.abs(W * p.f * np.log(p.f / g)))))
            i2 = dict(inp, step=step, coeffs=c, new=c1)
            o.ok("divergence does not increase", d1 <= d0 + tol, i2, {"before": d0, "after": d1})
            o.close("charge is the target", c1.sum(), target, i2, rtol=1e-9)
            o.close("reported divergence before", d0, kl(g), i2, rtol=1e-8, atol=tol)
            o.close("reported divergence after", d1, kl(g1), i2, rtol=1e-8, atol=tol)
            gain = L * float(np.sum(c1 * np.log(c1 / c)))
            o.ok("decrease is at least L sum c' ln(c'/c)", d0 - d1 >= gain * (1 - 1e-6) - tol, i2, {"decrease": d0 - d1, "bound": gain})
            c = c1
        r = t.run(p_start(p, o, target), e, opt_expons=False, maxiter=12, c_threshold=0.0, d_threshold=0.0)
        f = np.array(r["fun"], float)
        if len(f) and np.all(np.isfinite(f)) and p.value(r["coeffs"], e).min() > max(m, 1e-280):
            o.ok("recorded divergences of run do not increase", np.all(np.diff(f) <= 1e-9 * (np.abs(f[:-1]) + 1) * max(1, p.I(p.f))), inp, f)


def p_start(p, o, target):
    c = 10.0 ** o.rng.uniform(-0.5, 0.5, p.M)
    return c * target / c.sum()
