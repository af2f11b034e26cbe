"""Slater radial functions: random exponents, quantum numbers 1..8, radii including zero; value and derivative against
logarithmic formulas, finite differences and the norm by quadrature."""
import numpy as np
from atomlib import *

X, W = np.polynomial.laguerre.laggauss(60)


def run(o):
    o.haunt(SlaterAtoms, "radial_slater_orbital", "derivative_radial_slater_type_orbital")
    for k in o.rounds(2500):
        m = int(o.rng.integers(1, 7))
        a = 10.0 ** o.rng.uniform(-1.5, 2, (m, 1))
        n = o.rng.integers(1, 9, (m, 1))
        r = radii(o)
        a, n, r = o.buf(a, n, r)
        if o.rng.random() < 0.2:
            n = n.astype(float)
        inp = dict(exponents=a, numbers=n, points=r)
        before = {q: v.copy() for q, v in inp.items()}
        V = o.call("radial_slater_orbital", lambda: SlaterAtoms.radial_slater_orbital(a, n, r), inp)
        Q = o.call("derivative", lambda: SlaterAtoms.derivative_radial_slater_type_orbital(a, n, r), inp)
        want = [sto(float(x), int(y), r) for x, y in zip(a.ravel(), n.ravel())]
        o.close("value", V, np.array([w[0] for w in want]).T, inp, rtol=1e-10, atol=1e-280)
        o.close("derivative", Q, np.array([w[1] for w in want]).T, inp, rtol=1e-9, atol=1e-10 * (1 + a.max()) * max(1, np.abs(V).max()))
        o.untouched("arguments unchanged", before, inp, inp)
        # norm by Gauss-Laguerre quadrature (exact for these integrands)
        for i in range(m):
            rr = X / (2 * a[i, 0])
            R = o.call("radial_slater_orbital", lambda: SlaterAtoms.radial_slater_orbital(a[i:i + 1], n[i:i + 1], rr), inp)
            if R is not None:
                o.close("norm", np.sum(W * np.exp(X) * R[:, 0] ** 2 * rr ** 2) / (2 * a[i, 0]), 1.0, inp, rtol=1e-8)
        if o.rng.random() < 0.1:
            o.refused("two-dimensional points", lambda: SlaterAtoms.radial_slater_orbital(a, n, r[:, None]), inp)
