"""Slater atoms: the shipped ones, and made-up ones delivered through the loader."""
import math
import os
import numpy as np
import bfit
import bfit._slater
import bfit.density
from bfit.density import SlaterAtoms

LOAD = bfit._slater.load_slater_wfn
LL = {"S": 0, "P": 1, "D": 2, "F": 3}


def shipped():
    root = os.path.join(os.path.dirname(bfit.__file__), "data")
    out = []
    for d, ext, kw in (("neutral", ".slater", {}), ("anion", ".an", {"anion": True}), ("cation", ".cat", {"cation": True})):
        p = os.path.join(root, d)
        if os.path.isdir(p):
            out += [(f[:-len(ext)], kw) for f in sorted(os.listdir(p)) if f.endswith(ext) and f != "cs.cat"]
    return out


def made(o):
    """Random data of the documented layout."""
    angs = [a for a in "SPDF" if o.rng.random() < 0.6] or ["S"]
    orbs, ex, nb, cf, basis = [], {}, {}, {}, {"S": [], "P": [], "D": [], "F": []}
    for a in angs:
        m = int(o.rng.integers(1, 6))
        n = o.rng.integers(LL[a] + 1, 8, m)
        ex[a] = 10.0 ** o.rng.uniform(-0.7, 1.5, (m, 1))
        nb[a] = n[:, None].astype(int)
        basis[a] = ["%d%s" % (q, a) for q in n]
        for q in range(int(o.rng.integers(1, 5))):
            lab = "%d%s" % (LL[a] + 1 + q, a)
            orbs.append(lab)
            cf[lab] = o.rng.normal(size=(m, 1))
    k = len(orbs)
    if o.rng.random() < 0.4:
        orbs = [orbs[i] for i in o.rng.permutation(k)]
    en = -10.0 ** o.rng.uniform(-1.5, 2, (k, 1))
    if o.rng.random() < 0.5:
        en[o.rng.integers(k), 0] = -0.01
    if k > 1 and o.rng.random() < 0.3:
        en[1] = en[0]
    occ = np.array([[int(o.rng.integers(1, 2 * (2 * LL[x[1]] + 1) + 1))] for x in orbs])
    return dict(energy=-1.0, potential_energy=-2.0, kinetic_energy=1.0, configuration="".join(orbs), orbitals=orbs,
                orbitals_occupation=occ, orbitals_basis=basis, basis_numbers=nb, orbitals_exp=ex, orbitals_coeff=cf,
                orbitals_energy=en, orbitals_cusp=np.ones((k, 1)))


def atom(o):
    """(SlaterAtoms object, its data, name)"""
    if o.rng.random() < 0.35:
        el, kw = o.pick(*shipped())
        put(LOAD)
        return SlaterAtoms(el, **kw), LOAD(el, **kw), (el, kw)
    d = made(o)
    put(lambda *a, **k: {q: v for q, v in d.items()})
    try:
        return SlaterAtoms("be"), d, ("made up", {"orbitals": d["orbitals"], "energies": d["orbitals_energy"].ravel()})
    finally:
        put(LOAD)


def put(f):
    bfit._slater.load_slater_wfn = f
    bfit.density.load_slater_wfn = f


def radii(o, n=None):
    n = n or int(o.rng.integers(1, 40))
    r = 10.0 ** o.rng.uniform(-4, 1.3, n)
    if o.rng.random() < 0.5:
        r[0] = o.pick(0.0, 0.0, 1e-12, 9e-11, 1e-9, 1e-10)
    if o.rng.random() < 0.6:
        r = np.sort(r)
    return r


def sto(a, n, r):
    """Radial function and its derivative at r > 0 (value also at 0), by logarithms."""
    r = np.asarray(r, float)
    lg = n * math.log(2 * a) + 0.5 * (math.log(2 * a) - math.lgamma(2 * n + 1))
    with np.errstate(all="ignore"):
        R = np.where(r > 0, np.exp(lg + (n - 1) * np.log(np.where(r > 0, r, 1)) - a * r), math.exp(lg) if n == 1 else 0.0)
        dR = np.where(np.abs(r) < 1e-10, 0.0, ((n - 1) / np.where(r > 0, r, 1) - a) * R)
    return R, dR


def orbitals(d, r):
    P, Q = [], []
    for lab in d["orbitals"]:
        a = lab[1]
        p, q = np.zeros(len(r)), np.zeros(len(r))
        for e, n, c in zip(d["orbitals_exp"][a].ravel(), d["basis_numbers"][a].ravel(), d["orbitals_coeff"][lab].ravel()):
            R, dR = sto(float(e), int(n), r)
            p += c * R
            q += c * dR
        P.append(p)
        Q.append(q)
    return np.array(P), np.array(Q)
