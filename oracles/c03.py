"""Molecular models with 1-5 centres (centres may coincide, any counts) against the superposition."""
import numpy as np
from bfit.model import AtomicGaussianDensity, MolecularGaussianDensity
import ref


def run(o):
    o.haunt(MolecularGaussianDensity, "__init__", "evaluate", "assign_basis_to_center")
    o.haunt(AtomicGaussianDensity, "evaluate", p=0.1)
    for k in o.rounds(500):
        A = int(o.rng.integers(1, 6))
        D = int(o.pick(1, 2, 3, 3, 3))
        N = int(o.pick(1, 3, 20))
        p = o.rng.normal(size=(N, D)) * 2
        X = o.rng.normal(size=(A, D))
        p, X = o.whole(p, X)
        if A > 1 and o.rng.random() < 0.2:
            X[1] = X[0]
        mode = o.rng.integers(4)
        if mode == 0:
            b = np.array([o.counts(5) for _ in range(A)])
        elif mode == 1:
            b = np.array([(int(o.rng.integers(1, 5)), 0) for _ in range(A)])
        elif mode == 2:
            b = np.array([(0, int(o.rng.integers(1, 5))) for _ in range(A)])
        else:
            b = np.array([o.counts(2) for _ in range(A)])
        norm = bool(o.rng.integers(2))
        M = int(b.sum())
        m = MolecularGaussianDensity(p, X, b, normalize=norm)
        for rep in range(3):
            c, a = o.buf(*o.whole(o.coeffs(M), o.expons(M, -1.5, 2)))
            if o.rng.random() < 0.2:
                q = int(o.rng.integers(A))
                n0 = int(b[:q].sum())
                c[n0:n0 + int(b[q].sum())] = 0.0
            inp = dict(points=p, coords=X, basis=b, normalize=norm, coeffs=c, expons=a, history="parameters %d" % rep)
            o.last = str(inp)[:500]
            want, dwant, rad = ref.mol(p, X, b, c, a, norm)
            sc = 1e-12 * (1 + np.abs(dwant).max() + np.abs(c).sum())
            o.close("value = superposition", m.evaluate(c, a), want, inp, atol=sc)
            g, dg = m.evaluate(c, a, deriv=True)
            o.close("value with derivatives", g, want, inp, atol=sc)
            o.ok("matrix shape", np.shape(dg) == (N, 2 * M), inp, np.shape(dg))
            o.close("derivative blocks", dg, dwant, inp, rtol=1e-7, atol=sc)
        o.close("radii rows", m.radii, rad, inp, rtol=1e-12, atol=1e-13)
        o.ok("total count", m.nbasis == M and m.natoms == A, inp, m.nbasis)
        o.close("prefactor list", m.prefactor, np.concatenate([[1.5] * s + [2.5] * q for s, q in b]), inp)
        j = 0
        for i, (s, q) in enumerate(b):
            for _ in range(s + q):
                o.ok("centre of a function", m.assign_basis_to_center(j) == i, dict(inp, index=j),
                     m.assign_basis_to_center(j))
                j += 1
        o.refused("index past the end", lambda: m.assign_basis_to_center(M), dict(inp, index=M))
        o.refused("index far past the end", lambda: m.assign_basis_to_center(M + 7), dict(inp, index=M + 7))
        if A == 1:
            at = AtomicGaussianDensity(p, center=X[0], num_s=int(b[0, 0]), num_p=int(b[0, 1]), normalize=norm)
            o.close("one centre = atomic model", m.evaluate(c, a), at.evaluate(c, a), inp, atol=sc)
