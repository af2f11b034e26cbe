"""Shipped and made-up Slater atoms: derivative of the density and kinetic energy density against an independent
evaluation, the derivative also against finite differences of the real density."""
import numpy as np
from atomlib import *


def run(o):
    o.haunt(SlaterAtoms, "atomic_density", "derivative_density", "positive_definite_kinetic_energy", "phi_matrix")
    for k in o.rounds(1500):
        at, d, name = atom(o)
        r = o.buf(radii(o))
        inp = dict(atom=name, points=r)
        o.last = str(inp)[:500]
        P, Q = orbitals(d, r)
        occ = d["orbitals_occupation"].ravel().astype(float)
        ll = np.array([LL[x[1]] * (LL[x[1]] + 1) for x in d["orbitals"]], float)
        far = r >= 1e-10
        D = o.call("derivative_density", lambda: at.derivative_density(r), inp)
        want = 2 * (occ @ (P * Q)) / (4 * np.pi)
        o.ok("one derivative per point", D is not None and np.shape(D) == r.shape, inp)
        if D is not None and np.shape(D) == r.shape:
            o.close("derivative of the density", D[far], want[far], inp, rtol=1e-8, atol=1e-8 * max(1, np.abs(want).max()))
            h = 1e-5 * np.maximum(r, 1e-3)
            sel = r > 1e-2
            if sel.any():
                fd = (at.atomic_density(r[sel] + h[sel]) - at.atomic_density(r[sel] - h[sel])) / (2 * h[sel])
                o.close("finite differences of the density", D[sel], fd, inp, rtol=1e-4, atol=1e-5 * max(1, np.abs(fd).max()))
        T = o.call("positive_definite_kinetic_energy", lambda: at.positive_definite_kinetic_energy(r), inp)
        rr = np.where(far, r, 1.0)
        want = occ @ (Q ** 2 + ll[:, None] * np.where(far, P ** 2 / rr ** 2, 0.0)) / (8 * np.pi)
        o.close("kinetic energy density", T, want, inp, rtol=1e-7, atol=1e-8 * max(1, np.abs(want).max()))
        if T is not None:
            o.ok("kinetic energy density is not negative", np.all(np.asarray(T) >= 0), inp, T)
