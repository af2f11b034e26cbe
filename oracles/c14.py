"""Random fitting problems (atoms on radial/cubic/weighted-sum grids, molecules with several centres): one update and one
iteration of run against formulas evaluated with an independent model; charge conservation with masks below and
above part of the model; positivity; frozen groups; several updates of one object in a row."""
import numpy as np
from fitlib import *


def formula(p, c, e, mask, T):
    g, d, _ = p.full(c, e)
    ok = g > mask
    with np.errstate(all="ignore"):
        r = np.where(ok, p.f / g, 1.0)
    W = p.W()
    If = np.sum(W * p.f)
    L = If / T
    db = d[:, :p.M]
    a1 = (W * r) @ db
    r2 = p.r2(c, e)
    a2 = np.sum(W * r * db.T * r2, axis=1)
    pf = np.where(p.is_s(), 1.5, 2.5)
    return c * a1 / L, pf * a1 / a2, g, a2


def run(o):
    o.haunt(KLDivergenceFPI, "_update_params", "run", "goodness_of_fit")
    for k in o.rounds(900):
        p = Problem(o)
        mask = o.pick(None, 0.0, 1e-18, 1e-6, 1e-2, 0.3)
        T = o.pick(None, 1.0, float(o.rng.uniform(0.5, 20)))
        kw = dict(spherical=p.spherical)
        if mask is not None:
            kw["mask_value"] = mask
        if T is not None:
            kw["integral_dens"] = T
        inp = p.desc(options=dict(kw))
        o.last = str(inp)[:800]
        m = 0.0 if mask is None else mask
        target = p.I(p.f) if T is None else T
        t = o.call("KLDivergenceFPI", lambda: KLDivergenceFPI(p.grid, p.f, p.model, **kw), inp)
        if t is None:
            continue
        o.close("Lagrange multiplier", t.lagrange_multiplier, p.I(p.f) / target, inp)
        f0 = p.f.copy()
        c, e = p.guess(o, -1.0, 0.8)
        for step in range(3):
            c, e = o.buf(c, e)
            wc, we, g, a2 = formula(p, c, e, m, target)
            if np.any(np.abs(g - m) < 1e-9 * m) or not np.all(np.isfinite(we)) or np.any(a2 < 1e-200) or g.min() < 1e-250:
                break
            i2 = dict(inp, coeffs=c, expons=e, history="update %d of the object" % (step + 1))
            c0, e0 = c.copy(), e.copy()
            a = o.call("_update_params", lambda: t._update_params(c, e, True, False), i2)
            b = o.call("_update_params", lambda: t._update_params(c, e, False, True), i2)
            d = o.call("_update_params", lambda: t._update_params(c, e, True, True), i2)
            if a is None or b is None or d is None:
                break
            o.close("coefficient rule", a[0], wc, i2, rtol=1e-7)
            o.close("exponents unchanged", a[1], e0, i2, rtol=0, atol=0)
            o.close("exponent rule", b[1], we, i2, rtol=1e-7)
            o.close("coefficients unchanged", b[0], c0, i2, rtol=0, atol=0)
            o.close("coefficient rule (both)", d[0], wc, i2, rtol=1e-7)
            o.close("exponent rule (both)", d[1], we, i2, rtol=1e-7)
            o.untouched("arguments unchanged", dict(f=f0, c=c0, e=e0), dict(f=p.f, c=c, e=e), i2)
            if g.min() > m:
                o.close("new coefficients sum to the target", np.sum(a[0]), target, i2, rtol=1e-9)
            pos = np.all(a[0] > 0) and np.all(d[1] > 0)
            o.ok("updated parameters positive", pos or np.any(wc < 1e-300), i2, {"coeffs": a[0], "expons": d[1]})
            uc, ue = [(True, False), (False, True), (True, True)][step]
            r = o.call("run", lambda: t.run(c, e, opt_coeffs=uc, opt_expons=ue, maxiter=1), i2)
            if r is not None:
                o.close("one iteration of run: coefficients", r["coeffs"], wc if uc else c0, i2, rtol=1e-7)
                o.close("one iteration of run: exponents", r["exps"], we if ue else e0, i2, rtol=1e-7)
            c, e = d[0].copy(), d[1].copy()
            if not (np.all(c > 1e-250) and np.all(e < 1e8) and np.all(e > 1e-8)):
                break
