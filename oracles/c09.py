"""Random sizes, ranges, atomic numbers, dtypes and extra points (list, tuple, array, empty, duplicates, zero)
against the documented point sets, as ascending multisets."""
import numpy as np
from bfit.grid import ClenshawRadialGrid, UniformRadialGrid


def run(o):
    o.haunt(UniformRadialGrid, "__init__")
    o.haunt(ClenshawRadialGrid, "__init__")
    for k in o.rounds(2500):
        n = int(o.pick(1, 2, 3, 10, 101, int(o.rng.integers(1, 400))))
        a = float(o.pick(0.0, -3.5, o.rng.uniform(0, 5)))
        b = a + 10.0 ** o.rng.uniform(-3, 3)
        if o.rng.random() < 0.3:
            a, b = int(np.floor(a)), int(np.ceil(b) + 1)
        inp = dict(num_pts=n, min_radii=a, max_radii=b)
        o.last = str(inp)
        g = UniformRadialGrid(n, a, b)
        want = np.array([float(a)] if n == 1 else [a + i * (b - a) / (n - 1) for i in range(n)])
        o.close("uniform points", g.points, want, inp, rtol=1e-12, atol=1e-12 * (abs(a) + abs(b)))
        o.ok("uniform len", len(g) == n, inp, len(g))
        if k % 10 == 0:
            g = UniformRadialGrid(n)
            o.close("uniform defaults", g.points, [0.0] if n == 1 else [i * 100.0 / (n - 1) for i in range(n)], dict(num_pts=n))

        z = int(o.rng.integers(1, 60))
        m = int(o.pick(0, 1, 2, 5, 60, int(o.rng.integers(1, 300))))
        d = int(o.pick(0, 1, 2, 5, 60, int(o.rng.integers(1, 300))))
        org = bool(o.rng.random() < 0.5)
        xs = [np.round(x, 6) for x in 10.0 ** o.rng.uniform(-3, 2.3, int(o.pick(1, 2, 4)))]
        if o.rng.random() < 0.3:
            xs[0] = 0.0
        if o.rng.random() < 0.3:
            xs.append(xs[0])
        ext = o.pick(None, [], list(xs), tuple(xs), np.array(xs))
        kw = {}
        if ext is not None:
            kw["extra_pts"] = ext
        if not org:
            kw["include_origin"] = False
        elif o.rng.random() < 0.5:
            kw["include_origin"] = True
        dt = o.pick(None, None, np.float64, np.longdouble)
        if dt is not None:
            kw["dtype"] = dt
        inp = dict(Z=z, core=m, diffuse=d, **{q: (str(v) if q == "dtype" else v) for q, v in kw.items()})
        o.last = str(inp)
        g = ClenshawRadialGrid(z, m, d, **kw)
        ps = range(0, m) if org else range(1, m + 1)
        want = [(1 - np.cos(np.pi * p / (2 * m))) / (2 * z) for p in ps]
        want += [25 * (1 - np.cos(np.pi * p / (2 * d))) for p in range(1, d + 1)]
        want = np.sort(np.array(want + [float(x) for x in (ext if ext is not None else [])]))
        o.close("Clenshaw points", g.points, want, inp, rtol=1e-9, atol=1e-13)
        o.ok("Clenshaw ascending", np.all(np.diff(g.points) >= 0), inp)
        o.ok("Clenshaw len and atomic number", len(g) == len(want) and g.atomic_number == z, inp)
