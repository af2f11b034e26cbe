"""Derivative matrix against closed-form partial derivatives and complex-free central differences."""
import numpy as np
from bfit.model import AtomicGaussianDensity
import ref
from c01 import points


def check(o, m, p, cen, ns, npp, norm, tag):
    n = ns + npp
    c, a = o.buf(*o.whole(o.coeffs(n), o.expons(n, -1.5, 2)))
    inp = dict(points=p, center=cen, num_s=ns, num_p=npp, normalize=norm, coeffs=c, expons=a, history=tag)
    o.last = str(inp)[:500]
    want, dwant, _ = ref.atom(p, cen, c, a, ns, norm)
    g, dg = m.evaluate(c, a, deriv=True)
    o.ok("matrix shape", np.shape(dg) == (len(p), 2 * n), inp, np.shape(dg))
    sc = 1e-13 * (1 + np.abs(dwant).max(initial=0.0))
    o.close("coefficient columns", dg[:, :n], dwant[:, :n], inp, rtol=1e-9, atol=sc)
    o.close("exponent columns", dg[:, n:], dwant[:, n:], inp, rtol=1e-7, atol=sc * 10)
    o.close("value", g, want, inp, atol=1e-12 * (1 + np.abs(want).max()))
    o.close("same value as without derivatives", g, m.evaluate(c, a), inp, rtol=1e-12, atol=1e-14 * (1 + np.abs(want).max()))
    # central differences of the code's own value
    k = int(o.rng.integers(n))
    h = 1e-4 * a[k]
    ap, am = a.astype(float), a.astype(float)
    ap[k] += h
    am[k] -= h
    num = (m.evaluate(c, ap) - m.evaluate(c, am)) / (2 * h)
    o.close("finite difference of the exponent", dg[:, n + k], num, dict(inp, column=k), rtol=1e-4,
            atol=1e-6 * (1e-9 + np.abs(num).max() + np.abs(want).max() / a[k]))


def run(o):
    o.haunt(AtomicGaussianDensity, "__init__", "evaluate")
    for k in o.rounds(700):
        dim = int(o.pick(0, 1, 2, 3, 3))
        p = points(o, dim)
        if k in (3, 11):
            p = o.rng.uniform(0, 3, 120001 if dim == 0 else (120001, dim))         # a grid of many points
        cen = None if o.rng.random() < 0.3 else o.rng.normal(size=dim or 1)
        norm = bool(o.rng.integers(2))
        ns, npp = o.counts()
        m = AtomicGaussianDensity(p, center=cen, num_s=ns, num_p=npp, normalize=norm)
        check(o, m, p, cen, ns, npp, norm, "fresh")
        check(o, m, p, cen, ns, npp, norm, "second evaluation")
        if k % 3 == 0:
            ns2, np2 = o.counts()
            m.change_numb_s_and_numb_p(ns2, np2)
            check(o, m, p, cen, ns2, np2, norm, "after a count change")
            m.change_numb_s_and_numb_p(ns, npp)
            check(o, m, p, cen, ns, npp, norm, "after changing the counts back")
