"""Random fitting problems (radial, cubic and weighted-sum grids; atomic and molecular models; densities with zeros
and huge ratios; spherical on/off; target given or not; both fitting classes; masks), against weighted sums of an
independent model evaluation; parameters with negative coefficients too."""
import numpy as np
from fitlib import *


def run(o):
    for c in (KLDivergenceFPI, ScipyFit):
        o.haunt(c, "integrate", "goodness_of_fit")
    for k in o.rounds(700):
        p = Problem(o)
        mask = o.pick(None, 0.0, 1e-18, 1e-6, 1e-2)
        T = o.pick(None, 1.0, float(o.rng.uniform(0.5, 20)), 10)
        cls = o.pick("fpi", "scipy")
        kw = {}
        if mask is not None:
            kw["mask_value"] = mask
        if T is not None:
            kw["integral_dens"] = T
        if p.spherical or o.rng.random() < 0.5:
            kw["spherical"] = p.spherical
        m = mask if mask is not None else (0.0 if cls == "fpi" else 1e-18)
        inp = p.desc(cls=cls, options=dict(kw))
        o.last = str(inp)[:800]
        f0 = p.f.copy()
        if cls == "fpi":
            t = o.call("KLDivergenceFPI", lambda: KLDivergenceFPI(p.grid, p.f, p.model, **kw), inp)
        else:
            me = o.pick(KLDivergence, SquaredDifference)()
            w = o.pick(None, np.linspace(0.5, 2, p.n))
            t = o.call("ScipyFit", lambda: ScipyFit(p.grid, p.f, p.model, measure=me, weights=w, **kw), inp)
        if t is None:
            continue
        target = T if T is not None else p.I(p.f)
        o.close("target integral", t.integral_dens, target, inp, rtol=1e-10)
        o.ok("spherical flag", bool(t.spherical) == p.spherical, inp)
        for step in range(3):
            y = o.buf(o.rng.normal(size=p.n))
            o.close("integrate", t.integrate(y), p.I(y), inp, rtol=1e-9, atol=1e-10 * p.I(np.abs(y)) + 1e-300)
            c, e = p.guess(o, -1, 2 if step else 0.7)
            if step == 2:
                c = c * o.rng.choice([-1.0, 1.0], p.M)
            c, e = o.buf(c, e)
            g = p.value(c, e)
            if np.any((g < 0) & (g > -1e-14 * np.abs(g).max())) or np.any(np.abs(g - m) < 1e-9 * m):
                continue
            c0, e0 = c.copy(), e.copy()
            got = np.array(t.goodness_of_fit(c, e), float)
            want = report(p, c, e, m)
            i2 = dict(inp, coeffs=c, expons=e, history="report %d of the object" % (step + 1))
            o.ok("goodness-of-fit report", same_report(got, want, p.W(), p.f), i2, {"got": got, "expected": want})
            o.untouched("arguments unchanged", dict(f=f0, c=c0, e=e0), dict(f=p.f, c=c, e=e), i2)
