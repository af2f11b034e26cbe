"""Independent reference values (plain numpy/scipy, no bfit code)."""
import numpy as np


def gauss_terms(r2, c, a, ns, norm):
    """(N, M) matrix of basis functions and its derivative with respect to the exponents."""
    r2 = np.asarray(r2, float)[:, None]
    a = np.asarray(a, float)[None, :]
    n = a.shape[1]
    iss = (np.arange(n) < ns)[None, :]
    e = np.exp(-a * r2)
    f = np.where(iss, 1.0, r2) * e
    df = -r2 * f
    if norm:
        q = np.where(iss, (a / np.pi) ** 1.5, (2.0 / 3.0) * a ** 2.5 / np.pi ** 1.5)
        dq = np.where(iss, 1.5 * a ** 0.5 / np.pi ** 1.5, (5.0 / 3.0) * a ** 1.5 / np.pi ** 1.5)
        df = q * df + dq * f
        f = q * f
    return f, df


def atom(points, center, c, a, ns, norm):
    p = np.asarray(points, float)
    d = p if center is None else (p - center if p.ndim > 1 else p - center[0])
    r2 = np.sum(d ** 2, axis=1) if p.ndim > 1 else d ** 2
    f, df = gauss_terms(r2, c, a, ns, norm)
    return f @ c, np.hstack((f, df * np.asarray(c)[None, :])), np.sqrt(r2)


def mol(points, coords, basis, c, a, norm):
    g, cols_c, cols_e, rad = 0.0, [], [], []
    k = 0
    for x, (ns, npp) in zip(coords, basis):
        m = int(ns + npp)
        v, d, r = atom(points, x, c[k:k + m], a[k:k + m], int(ns), norm)
        g = g + v
        cols_c.append(d[:, :m])
        cols_e.append(d[:, m:])
        rad.append(r)
        k += m
    return g, np.hstack(cols_c + cols_e), np.array(rad)
