"""Random and edge-case models (1-3 dimensions, centres, counts, normalisation), evaluated fresh and after
other evaluations or count changes, compared with an independent evaluation of the documented sum."""
import numpy as np
from bfit.model import AtomicGaussianDensity
import ref


def points(o, dim):
    n = int(o.pick(1, 2, 7, 40))
    if dim == 0:
        p = np.sort(o.rng.uniform(0, 10.0 ** o.rng.uniform(-2, 1.3), n))
        if n > 1 and o.rng.random() < 0.5:
            p[0] = 0.0
        return p
    return o.rng.normal(size=(n, dim)) * 10.0 ** o.rng.uniform(-1, 1)


def check(o, m, p, cen, ns, npp, norm, tag):
    n = ns + npp
    c, a = o.buf(*o.whole(o.coeffs(n), o.expons(n)))
    inp = dict(points=p, center=cen, num_s=ns, num_p=npp, normalize=norm, coeffs=c, expons=a, history=tag)
    o.last = str(inp)[:500]
    want, dwant, rad = ref.atom(p, cen, c, a, ns, norm)
    sc = np.abs(c).sum() * 1e-13 * (1 + (np.max(a) ** 2.5 if norm else 0))
    o.close("value = documented sum", m.evaluate(c, a), want, inp, atol=sc)
    r = m.evaluate(c, a, deriv=True)
    o.ok("derivative request returns a pair", isinstance(r, tuple) and len(r) == 2, inp)
    o.close("value with derivatives = documented sum", r[0], want, inp, atol=sc)
    o.close("radii", m.radii, rad, inp, rtol=1e-12, atol=1e-13)
    o.ok("counts", (m.num_s, m.num_p, m.nbasis, m.natoms) == (ns, npp, n, 1), inp)


def run(o):
    o.haunt(AtomicGaussianDensity, "__init__", "evaluate")
    for k in o.rounds(700):
        dim = int(o.pick(0, 1, 2, 3, 3))
        p = points(o, dim)
        if k in (3, 11):
            p = o.rng.uniform(0, 3, 120001 if dim == 0 else (120001, dim))         # a grid of many points
        cen = None if o.rng.random() < 0.3 else o.rng.normal(size=dim or 1)
        norm = bool(o.rng.integers(2))
        ns, npp = o.counts()
        m = AtomicGaussianDensity(p, center=cen, num_s=ns, num_p=npp, normalize=norm)
        check(o, m, p, cen, ns, npp, norm, "fresh")
        check(o, m, p, cen, ns, npp, norm, "second evaluation")
        check(o, m, p, cen, ns, npp, norm, "third evaluation")
        # the defaults
        if k % 7 == 0:
            d = AtomicGaussianDensity(p, center=cen)
            check(o, d, p, cen, 1, 0, False, "default arguments")
        ns2, np2 = o.counts()
        m.change_numb_s_and_numb_p(ns2, np2)
        check(o, m, p, cen, ns2, np2, norm, "after a count change")
        m.change_numb_s_and_numb_p(ns, npp)
        check(o, m, p, cen, ns, npp, norm, "after changing the counts back")
