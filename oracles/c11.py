"""Random origins, axes (skew, left-handed, anisotropic) and shapes (with ones) against the documented lattice."""
import numpy as np
from bfit.grid import CubicGrid


def run(o):
    o.haunt(CubicGrid, "__init__", "integrate")
    for k in o.rounds(1500):
        s = tuple(int(x) for x in o.rng.integers(1, 6, 3))
        org = o.rng.normal(size=3) * 3
        A = o.rng.normal(size=(3, 3)) * 10.0 ** o.rng.uniform(-1, 0.5)
        t = o.rng.integers(4)
        if t == 0:
            A = np.diag(o.rng.uniform(0.1, 2, 3))
        elif t == 1:
            A = np.linalg.qr(A)[0] * 0.3
        elif t == 2:
            A = A[::-1].copy()
        q, B = o.whole(org, A)
        if abs(np.linalg.det(B)) > 1e-6:
            org, A = q, B
        if o.rng.random() < 0.1:
            s = (int(o.rng.integers(6, 30)), 1, int(o.rng.integers(2, 12)))
        sh = o.pick(s, list(s), np.array(s))
        inp = dict(origin=org, axes=A, shape=s)
        o.last = str(inp)
        o0, A0 = org.copy(), A.copy()
        g = CubicGrid(org, A, sh)
        want = np.array([org + i * A[0] + j * A[1] + q * A[2] for i in range(s[0]) for j in range(s[1]) for q in range(s[2])])
        n = int(np.prod(s))
        o.close("points, last index fastest", g.points, want, inp, rtol=1e-10, atol=1e-10)
        o.ok("len", len(g) == n, inp, len(g))
        o.close("axes", g.axes, A0, inp)
        vol = abs(np.linalg.det(A0))
        y, z = o.rng.normal(size=n), o.rng.normal(size=n)
        o.close("integral", g.integrate(y), vol * y.sum(), inp, rtol=1e-9, atol=1e-11 * n * vol)
        o.close("volume", g.integrate(np.ones(n)), n * vol, inp, rtol=1e-9)
        e = np.zeros(n)
        e[o.rng.integers(n)] = 1.0
        o.close("weight of one point", g.integrate(e), vol, inp, rtol=1e-9)
        o.close("linear", g.integrate(2.5 * y - z), 2.5 * g.integrate(y) - g.integrate(z), inp, rtol=1e-9, atol=1e-10 * n * vol)
        iz = g.integrate(z)
        y[...] = z
        o.close("values changed in place", g.integrate(y), iz, inp, rtol=0, atol=0)
        o.untouched("arguments unchanged", dict(o=o0, A=A0), dict(o=org, A=A), inp)
        for v in ((n + 1,), (n - 1,), (n, 1), (1, n), s, (1,), ()):
            if v == (n,):
                continue
            o.refused("another shape is refused", lambda: g.integrate(np.ones(v)), dict(inp, values_shape=list(v)))
