"""Random values (any sign, affine, non-negative) on uniform, Clenshaw and hand-made radial grids against the
trapezoidal sum; values of another shape are refused."""
import numpy as np
from bfit.grid import ClenshawRadialGrid, UniformRadialGrid, _BaseRadialGrid


def run(o):
    o.haunt(_BaseRadialGrid, "integrate")
    for k in o.rounds(2500):
        n = int(o.pick(1, 2, 3, 10, 200))
        kind = int(o.rng.integers(3))
        if kind == 0:
            g = UniformRadialGrid(n, float(o.rng.uniform(0, 1)), float(o.rng.uniform(2, 50)))
        elif kind == 1:
            g = ClenshawRadialGrid(int(o.rng.integers(1, 20)), n, int(o.pick(0, 1, n)))
        else:
            g = _BaseRadialGrid(np.sort(10.0 ** o.rng.uniform(-3, 2, n)))
        x = np.array(g.points, float)
        n = len(x)
        y, z = o.buf(o.rng.normal(size=n) * 10.0 ** o.rng.uniform(-3, 3), o.rng.normal(size=n))
        inp = dict(points=x, values=y)
        o.last = str(inp)[:500]
        tr = lambda v: float(sum((v[i] + v[i + 1]) * (x[i + 1] - x[i]) / 2 for i in range(n - 1)))
        sc = 1e-12 * (np.abs(y).max() + np.abs(z).max()) * (x[-1] - x[0] + 1)
        y0 = y.copy()
        iy, iz = g.integrate(y), g.integrate(z)
        o.close("trapezoidal sum", iy, tr(y), inp, rtol=1e-10, atol=sc)
        a, b = o.rng.normal(size=2)
        o.close("linear", g.integrate(a * y + b * z), a * iy + b * iz, dict(inp, other=z, a=a, b=b), rtol=1e-9, atol=sc * 4)
        F = lambda t: a * t + b * t * t / 2
        o.close("affine exact", g.integrate(a + b * x), F(x[-1]) - F(x[0]), dict(inp, a=a, b=b), rtol=1e-9,
                atol=1e-10 * (1 + x[-1] ** 2))
        o.ok("non-negative", g.integrate(np.abs(y)) >= 0, inp)
        o.close("second integration", g.integrate(y), iy, inp, rtol=0, atol=0)
        o.untouched("values unchanged", dict(y=y0), dict(y=y), inp)
        y[...] = z
        o.close("values changed in place", g.integrate(y), iz, dict(points=x, values=z), rtol=0, atol=0)
        for sh in ((n + 1,), (n - 1,), (n, 1), (1, n), (2, n), (n, 2), (1,), (), (1, 1)):
            if sh == (n,) or (sh and min(sh) < 0):
                continue
            v = np.ones(sh)
            o.refused("another shape is refused", lambda: g.integrate(v), dict(points=n, shape=list(sh)))
