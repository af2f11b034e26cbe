"""Random molecules (single atoms, linear, planar, far from the origin, symmetric tops) with random spacing and
extension, rotated or not: orthogonal axes, minimal counts and the margin of every atom from every face."""
import numpy as np
from bfit.grid import CubicGrid


def run(o):
    o.haunt(CubicGrid, "__init__", "from_molecule", p=0.15)
    for k in o.rounds(600):
        M = int(o.pick(1, 2, 3, 4, 7))
        X = o.rng.normal(size=(M, 3)) * 10.0 ** o.rng.uniform(-1, 0.5, 3)
        t = o.rng.integers(6)
        if t == 0:
            X[:, 2] = 0.0
        elif t == 1:
            X = np.outer(o.rng.normal(size=M), o.rng.normal(size=3))
        elif t == 2:
            X[:, 0] = X[:, 1] = 0.0
        X = X + o.rng.normal(size=3) * o.pick(0.0, 0.0, 5.0)
        Z = o.rng.integers(1, 10, M).astype(float)
        s = float(o.pick(0.5, 0.8, 1.0, o.rng.uniform(0.4, 1.2)))
        e = float(o.pick(0.0, 1.0, 2.5, o.rng.uniform(0.2, 3)))
        if e == 0.0 and o.rng.random() < 0.7:
            e = 0.5
        rot = bool(o.rng.integers(2))
        span = np.prod((np.ptp(X, axis=0).max() + 2 * e) / s + 1) ** 3
        if span > 4e5:
            continue
        inp = dict(numbers=Z, coords=X, spacing=s, extension=e, rotate=rot)
        o.last = str(inp)
        Z0, X0 = Z.copy(), X.copy()
        if k % 25 == 0 and M < 4 and np.ptp(X, axis=0).max() < 2:
            s, e, inp = 0.2, 5.0, dict(numbers=Z, coords=X, rotate=rot)
            g = CubicGrid.from_molecule(Z, X, rotate=rot) if not rot else CubicGrid.from_molecule(Z, X)
        else:
            g = CubicGrid.from_molecule(Z, X, spacing=s, extension=e, rotate=rot)
        o.untouched("molecule unchanged", dict(Z=Z0, X=X0), dict(Z=Z, X=X), inp)
        A = np.asarray(g.axes)
        o.close("axes orthogonal, length spacing", A @ A.T, s * s * np.eye(3), inp, rtol=0, atol=1e-9 * s * s)
        u = A / s
        pr = X @ u.T
        lo, hi = pr.min(0), pr.max(0)
        x = (hi - lo + 2 * e) / s
        n = np.ceil(x - 1e-9)
        n2 = np.ceil(x + 1e-9)           # a count at an exact multiple may round either way
        n1 = len(g)
        opts = {int(np.prod([c[i] for i, c in zip(ix, zip(n, n2))])) for ix in np.ndindex(2, 2, 2)}
        o.ok("number of points", n1 in opts, inp, {"len": n1, "expected": sorted(opts)})
        if n1 == 0:
            continue
        P = np.asarray(g.points)
        pp = P @ u.T
        cnt = np.rint((pp.max(0) - pp.min(0)) / s) + 1
        o.ok("smallest sufficient count per axis", np.all((cnt == n) | (cnt == n2)), inp, {"counts": cnt, "expected": n})
        a, b = pp.min(0), pp.min(0) + cnt * s          # faces of the box tiled by the cells
        tol = 1e-8 * (1 + np.abs(pr).max())
        o.ok("every atom at least the extension inside", np.all(pr - a >= e - tol) and np.all(b - pr >= e - tol), inp,
             {"lower margins": (pr - a).min(0), "upper margins": (b - pr).min(0)})
        if rot:
            com = (Z @ X) / Z.sum()
            I = np.zeros((3, 3))
            for q, y in zip(Z, X - com):
                I += q * ((y @ y) * np.eye(3) - np.outer(y, y))
            D = u @ I @ u.T
            o.ok("rotated axes are principal axes", np.abs(D - np.diag(np.diag(D))).max() <= 1e-7 * (1 + np.abs(I).max()), inp, D)
        else:
            o.ok("unrotated axes are Cartesian", np.allclose(A, s * np.eye(3), atol=1e-12), inp, A)
