"""Quadrature of every basis function of the real models over space; mean squared radii against the factors."""
import numpy as np
from bfit.model import AtomicGaussianDensity, MolecularGaussianDensity

# Gauss-Laguerre type quadrature in t = a r^2 is exact here; use Gauss-Legendre on r in units of 1/sqrt(a)
X, W = np.polynomial.legendre.leggauss(120)
U = 7.0 * (X + 1.0)          # 0 .. 14
WU = 7.0 * W


def moments(val, r, w):
    return np.sum(w * 4 * np.pi * r ** 2 * val), np.sum(w * 4 * np.pi * r ** 4 * val)


def run(o):
    o.haunt(AtomicGaussianDensity, "__init__", "evaluate")
    o.haunt(MolecularGaussianDensity, "__init__", "evaluate")
    o.rule = ("one function at a time (delta coefficients and derivative columns) with exponents 1e-4 .. 1e6, any counts; "
              "120-point quadrature over r in units of 1/sqrt(a); molecular models with 1-4 centres")
    for k in o.rounds(400):
        ns, np_ = o.counts(5)
        if k % 5 == 1:
            ns, np_ = int(o.rng.integers(1, 6)), 0
        if k % 5 == 2:
            ns, np_ = 0, int(o.rng.integers(1, 6))
        M = ns + np_
        if M == 0:
            continue
        a = 10.0 ** o.rng.uniform(-4, 6, M)
        if M > 1 and o.rng.random() < 0.3:
            a[1] = a[0]
        dims = int(o.pick(1, 3))
        cen = o.rng.normal(size=3) if dims == 3 else None
        j = int(o.rng.integers(M))
        d = o.rng.normal(size=3)
        d /= np.linalg.norm(d)
        r = U / np.sqrt(a[j])
        w = WU / np.sqrt(a[j])
        if dims == 3:
            s_ = np.sqrt(1.0 / a[j])
            cen = cen * min(s_, 1.0)
            pts = cen + r[:, None] * d
        else:
            pts = r
        c = np.zeros(M)
        c[j] = 1.0
        inp = dict(num_s=ns, num_p=np_, function=j, expons=a, center=cen)
        o.last = str(inp)[:400]
        m = AtomicGaussianDensity(pts, center=cen, num_s=ns, num_p=np_, normalize=True)
        v, dv = m.evaluate(c, a, deriv=True)
        v2 = m.evaluate(c, a)
        for what, f in (("function", v2), ("function (with derivatives)", v), ("coefficient column", dv[:, j])):
            n0, n2 = moments(f, r, w)
            o.close("integral of one %s" % what, n0, 1.0, inp, rtol=1e-9)
            o.close("factor = exponent * mean squared radius (%s)" % what, a[j] * n2, m.prefactor[j], inp, rtol=1e-8)
        o.ok("one factor per function", np.shape(m.prefactor) == (M,), inp, np.shape(m.prefactor))
        o.close("factors in parameter order", m.prefactor, [1.5] * ns + [2.5] * np_, inp)
        n2_, q2_ = o.counts(4)
        if n2_ + q2_:
            m.change_numb_s_and_numb_p(n2_, q2_)
            o.close("factors after the counts changed", m.prefactor, [1.5] * n2_ + [2.5] * q2_, dict(inp, new=(n2_, q2_)))
        # molecular model: the same function about its own centre
        A = int(o.rng.integers(1, 5))
        b = np.array([o.counts(3) for _ in range(A)])
        for q in range(A):
            if b[q].sum() == 0:
                b[q, int(o.rng.integers(2))] = 1
        Mm = int(b.sum())
        am = 10.0 ** o.rng.uniform(-3, 3, Mm)
        j = int(o.rng.integers(Mm))
        own = int(np.searchsorted(np.cumsum(b.sum(1)), j, side="right"))
        r, w = U / np.sqrt(am[j]), WU / np.sqrt(am[j])
        crd = o.rng.normal(size=(A, 3)) * np.sqrt(1 / am[j])
        cm = np.zeros(Mm)
        cm[j] = 1.0
        mm = MolecularGaussianDensity(crd[own] + r[:, None] * d, crd, b, normalize=True)
        inp = dict(basis=b, function=j, expons=am, coords=crd)
        o.last = str(inp)[:400]
        v, dv = mm.evaluate(cm, am, deriv=True)
        for f in (v, dv[:, j], mm.evaluate(cm, am)):
            n0, n2 = moments(f, r, w)
            o.close("integral of one molecular function", n0, 1.0, inp, rtol=1e-8)
            o.close("molecular factor = exponent * mean squared radius", am[j] * n2, mm.prefactor[j], inp, rtol=1e-8)
        o.close("molecular factors in parameter order", mm.prefactor,
                np.concatenate([[1.5] * s + [2.5] * p for s, p in b]), inp)
