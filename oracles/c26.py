"""Every Slater data file (shipped and bundled archive, unpacked in a scratch copy of the package): the loader against an
independent reading of every token, before and after other loads, in any letter case; refusal of all other ions."""
import copy
import io
import os
import shutil
import sys
import tarfile
import tempfile
import atexit
import numpy as np
import slaterfile as sf

REPO = os.environ.get("BFIT_REPO", "/repo")
TMP = tempfile.mkdtemp(prefix="bfit-c26-")
atexit.register(shutil.rmtree, TMP, True)
KINDS = (("neutral", ".slater", {}, 0), ("anion", ".an", {"anion": True}, -1), ("cation", ".cat", {"cation": True}, 1))


def unpack():
    src, dst = os.path.join(REPO, "bfit"), os.path.join(TMP, "bfit")
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns("__pycache__", "test", "*.npz", "data.tar"))
    tar = os.path.join(src, "data", "data.tar")
    names = []
    for d, ext, _, _ in KINDS:
        os.makedirs(os.path.join(dst, "data", d), exist_ok=True)
    if os.path.exists(tar):
        with tarfile.open(tar) as t:
            for m in t.getmembers():
                p = m.name.replace("./", "", 1).split("/")
                if m.isfile() and len(p) == 2 and any(p[0] == d and p[1].endswith(ext) for d, ext, _, _ in KINDS):
                    q = os.path.join(dst, "data", p[0], p[1])
                    b = t.extractfile(m).read()
                    if not os.path.exists(q) and b"\0" not in b:
                        open(q, "wb").write(b)


unpack()
sys.path.insert(0, TMP)
import bfit                                             # noqa: E402
from bfit._slater import load_slater_wfn                # noqa: E402
from bfit.density import SlaterAtoms                    # noqa: E402

HERE = os.path.dirname(bfit.__file__)


def spell(o, el):
    return o.pick(el, el.capitalize(), el.upper())


def compare(o, g, r, el, q, inp):
    orbs = r["orbitals"]
    flat = lambda v: np.asarray(v, float).ravel().tolist()
    same = lambda what, got, want: o.ok(what, got == want, inp, {"got": got, "expected": want})
    same("orbitals in order", list(g["orbitals"]), orbs)
    same("orbital energies", flat(g["orbitals_energy"]), [r["energy"][x] for x in orbs])
    occ = np.asarray(g["orbitals_occupation"]).ravel().tolist()
    same("occupations match the configuration", [int(x) for x in occ], [r["occ"][x] for x in orbs])
    same("as many electrons as the ion has", int(sum(occ)), sf.Z[el] - q)
    same("energies of the atom", [g["energy"], g["kinetic_energy"], g["potential_energy"]], [r["E"], r["T"], r["V"]])
    same("cusp values", flat(g["orbitals_cusp"]), [r["cusp"][x] for x in orbs if x in r["cusp"]])
    same("shells with exponents", sorted(k for k in g["orbitals_exp"] if len(g["orbitals_exp"][k])), sorted(r["exps"]))
    same("orbitals with coefficients", sorted(g["orbitals_coeff"]), sorted(orbs))
    for sh in r["exps"]:
        same("exponents of the shell", flat(g["orbitals_exp"][sh]), r["exps"][sh])
        same("labels of the shell", list(g["orbitals_basis"][sh]), r["labels"][sh])
        same("quantum numbers match the labels", [int(x) for x in flat(g["basis_numbers"][sh])], [int(x[0]) for x in r["labels"][sh]])
        same("column of exponents and of quantum numbers", [np.shape(g["orbitals_exp"][sh]), np.shape(g["basis_numbers"][sh])],
             [(len(r["exps"][sh]), 1)] * 2)
    for x in orbs:
        same("coefficients of the orbital", flat(g["orbitals_coeff"][x]), r["coeff"][x])
        same("column of coefficients", np.shape(g["orbitals_coeff"][x]), (len(r["exps"][x[1]]), 1))
    same("columns of occupations and energies", [np.shape(g["orbitals_occupation"]), np.shape(g["orbitals_energy"])], [(len(orbs), 1)] * 2)


ATTR = ("energy", "kinetic_energy", "potential_energy", "configuration", "orbitals", "orbitals_occupation", "orbitals_basis",
        "basis_numbers", "orbitals_exp", "orbitals_coeff", "orbitals_energy", "orbitals_cusp")


def spoil(g):
    for v in g.values():
        if isinstance(v, np.ndarray):
            v[...] = 7
        elif isinstance(v, dict):
            for w in v.values():
                if isinstance(w, np.ndarray):
                    w[...] = 7
                elif isinstance(w, list):
                    w.append("9Z")
        elif isinstance(v, list):
            v.append("9Z")


def run(o):
    todo = []
    for d, ext, kw, q in KINDS:
        for f in sorted(os.listdir(os.path.join(HERE, "data", d))):
            if f.endswith(ext) and f[:-len(ext)] in sf.Z and (d, f) != ("cation", "cs.cat"):
                todo.append((f[:-len(ext)], kw, q, os.path.join(HERE, "data", d, f)))
    for turn in o.rounds(2):
        for i in o.rng.permutation(len(todo)):
            el, kw, q, path = todo[i]
            r = sf.read(path)
            name = spell(o, el)
            inp = dict(element=name, **kw)
            o.last = str(inp)
            if not o.ok("the data file is consistent", sum(r["occ"].values()) == sf.Z[el] - q, inp):
                continue
            if el in ("he", "c") or o.rng.random() < 0.1:
                g = o.call("loader", lambda: load_slater_wfn(name, **kw), inp)
                if g is not None:
                    spoil(g)
            g = o.call("loader", lambda: load_slater_wfn(name, **kw), inp)
            if g is None:
                continue
            compare(o, g, r, el, q, inp)
            at = o.call("SlaterAtoms", lambda: SlaterAtoms(name, **kw), inp)
            if at is not None:
                compare(o, {a: getattr(at, a) for a in ATTR}, r, el, q, dict(inp, through="SlaterAtoms"))
        have = {(el, tuple(kw)) for el, kw, _, _ in todo}
        for el in sf.NAMES:
            for kw in ({"anion": True}, {"cation": True}):
                if (el, tuple(kw)) not in have and not (el == "ag" and "anion" in kw):
                    name = spell(o, el)
                    o.refused("ion without data", lambda: load_slater_wfn(name, **kw), dict(element=name, **kw))
                    o.refused("ion without data", lambda: SlaterAtoms(name, **kw), dict(element=name, **kw))
        o.refused("both charge states", lambda: SlaterAtoms("c", anion=True, cation=True), {})
        for bad in ("xx", "zz", "c1", "", "c-", 6):
            o.refused("no such element", lambda: SlaterAtoms(bad), {"element": bad})
