"""Shipped and made-up Slater atoms (any order of orbitals, highest orbital anywhere, S to F): orbitals and densities
against an independent evaluation of the same data."""
import numpy as np
from atomlib import *


def run(o):
    o.haunt(SlaterAtoms, "phi_matrix", "atomic_density", alts={2: ["total", "core", "valence"]})
    for k in o.rounds(1200):
        at, d, name = atom(o)
        r = o.buf(radii(o))
        inp = dict(atom=name, points=r)
        o.last = str(inp)[:500]
        P, Q = orbitals(d, r)
        o.close("orbitals", o.call("phi_matrix", lambda: at.phi_matrix(r), inp), P.T, inp, rtol=1e-9, atol=1e-9 * max(1, np.abs(P).max()))
        o.close("derivative of the orbitals", o.call("phi_matrix", lambda: at.phi_matrix(r, deriv=True), inp), Q.T, inp,
                rtol=1e-8, atol=1e-8 * max(1, np.abs(Q).max()))
        occ, en = d["orbitals_occupation"].ravel(), d["orbitals_energy"].ravel()
        wt = np.exp(-(en - en.max()) ** 2)
        got = {}
        for mode, w in (("total", np.ones_like(wt)), ("valence", wt), ("core", 1 - wt)):
            want = ((occ * w) @ P ** 2) / (4 * np.pi)
            got[mode] = v = o.call("atomic_density", lambda: at.atomic_density(r, mode), inp)
            tol = 1e-9 * max(1, ((occ @ P ** 2)).max())
            o.close(mode + " density", v, want, dict(inp, mode=mode), rtol=1e-9, atol=tol)
            if v is not None:
                o.ok(mode + " density is not negative", np.all(v >= 0), dict(inp, mode=mode), v)
        if all(v is not None for v in got.values()):
            o.close("core + valence = total", got["core"] + got["valence"], got["total"], inp, rtol=1e-10, atol=1e-12)
        o.refused("unknown mode", lambda: at.atomic_density(r, o.pick("Total", "homo", "", "all")), inp, ValueError)
