"""Loader of the Slater data.  Groups per data file: the loader is executed on the text of the file, and on a text with the
same layout in which every number differs from every other, the requested name being symbolic but for its letters and the
meaning of a number's text being left open.  Charge states without data, both flags at once and arguments that are not
all-letter strings are refused before any file is read, for every name."""
import io
import os
import random
import re
import sys
import tarfile

from contracts.common import *

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "oracles"))
import slaterfile as sf                                 # noqa: E402

GROUPS = []
LEVEL = "proof"
LEVEL_NOTE = ("For each of the 197 data files delivered with the package (in the directories and in the bundled archive), read afresh on "
              "every run: proved for every spelling of the name and every meaning of the texts of the numbers, on the file itself and "
              "on a text of the same layout in which all numbers differ; also after earlier loads whose results were overwritten, and "
              "through SlaterAtoms. The files are concrete: the property speaks of these files. Refusals are proved for "
              "every name. Assumed: open, str, re, os.path behave as Python's own; float is a function of the text.")
TECHNIQUE = ("contract-based deductive verification: symbolic execution of the loader on every data file with symbolic name and "
             "uninterpreted numbers; postconditions of an independent reading; refusals discharged for every name")
ASSUMPTIONS = ["the files read are those of the repository",
               "float(text) is a function of the text without surrounding blanks",
               "lower/upper/capitalize of a spelling of a name are those of the name (ASCII letters)"]
ROOT = os.environ.get("BFIT_REPO", "/repo")
DATA = os.path.join(ROOT, "bfit", "data")
KINDS = {"neutral": (".slater", {}, 0), "anion": (".an", {"anion": True}, -1), "cation": (".cat", {"cation": True}, 1)}
ANION = ("ag al as b br c cl co cr cu f fe ga ge h i in k li mn mo n na nb ni o p pd rb rh ru s sb sc se si sn tc te ti v y zr").split()
CATION = ("ag al ar as b be br c ca cd cl co cr cs cu f fe ga ge i in k kr li mg mn mo n na nb ne ni o p pd rb rh ru s sb sc "
          "se si sn sr tc te ti v xe y zn zr").split()
LOAD, ATOM = "bfit._slater.load_slater_wfn", "bfit.density.SlaterAtoms"
SKIP = {("cation", "cs")}


def no_file(h):
    def f(it, path):
        raise ObligationFailed("a file is opened")
    h.it.files = f


def distinct(text, seed):
    """The same layout, all numbers different: sign, number of digits and the rest of the line are kept."""
    rng, seen = random.Random(seed), set()

    def new(m):
        for _ in range(1000):
            t = "".join(rng.choice("123456789") if c.isdigit() else c for c in m.group(0))
            if t not in seen:
                seen.add(t)
                return t
        raise RuntimeError("no further number like %s" % m.group(0))
    head, rest = text.split("\n", 1)
    return head + "\n" + re.sub(r"\d+\.\d+", new, rest)


def value(s):
    return tm.mk("app", ("number", strconst(s.strip())), R)


def request(h, kind, name, text, sym="element"):
    want = os.path.realpath(os.path.join(DATA, kind, name + KINDS[kind][0]))
    known = getattr(h, "texts", {})
    h.texts = dict(known, **{want: text})

    def files(it, path):
        p = os.path.realpath(path) if isinstance(path, str) else None
        if p not in h.texts:
            raise PyRaise("FileNotFoundError", "%r" % (path,))
        return h.texts[p]
    h.it.files = files
    h.it.read_number = lambda s, v: value(s)
    e = SymStr(app(sym, sort=U))
    h.it.spelling[e.t] = name
    h.assume(tm.mk("app", ("isalpha", e.t), B))
    return e


def yes(h, what, c):
    h.holds(what, tm.TRUE if c else tm.FALSE)


def column(h, what, got, want):
    if not isinstance(got, Arr):
        yes(h, what + ": an array", False)
        return
    sh = [tm.val(x) if tm.isnum(x) else None for x in got.shape]
    yes(h, what + ": a column of %d" % len(want), sh == [len(want), 1])
    if sh == [len(want), 1]:
        h.holds(what, tm.and_(*[tm.eq(got.get((num(i), Z)), w) for i, w in enumerate(want)]))


def names(h, v):
    out = h.it.concrete_items(v)
    return [x if isinstance(x, str) else None for x in out]


def compare(h, get, r, q, el):
    orbs = r["orbitals"]
    yes(h, "orbitals in the order of the file", names(h, get("orbitals")) == orbs)
    column(h, "orbital energies", get("orbitals_energy"), [r["energy"][x] for x in orbs])
    occ = [r["occ"].get(x, 0) for x in orbs]
    yes(h, "the file gives as many electrons as the ion has", sum(occ) == sf.Z[el] - q)
    column(h, "occupations as in the configuration", get("orbitals_occupation"), [num(x) for x in occ])
    column(h, "cusp values", get("orbitals_cusp"), [r["cusp"][x] for x in orbs if x in r["cusp"]])
    for what, k in (("energy", "E"), ("kinetic_energy", "T"), ("potential_energy", "V")):
        v = get(what)
        yes(h, what + " is a number", is_scalar(v))
        if is_scalar(v):
            h.holds(what, tm.eq(tv(v), r[k]))
    d = {k: get(k) for k in ("orbitals_exp", "basis_numbers", "orbitals_basis", "orbitals_coeff")}
    yes(h, "dictionaries by shell and by orbital", all(isinstance(v, PDict) and v.items is not None for v in d.values()))
    if not all(isinstance(v, PDict) and v.items is not None for v in d.values()):
        return
    for k in ("orbitals_exp", "basis_numbers"):
        yes(h, k + " has the shells of the file", set(d[k].items) == set(r["exps"]))
    yes(h, "coefficients for the orbitals of the file", set(d["orbitals_coeff"].items) == set(orbs))
    for s in r["exps"]:
        if s in d["orbitals_exp"].items:
            column(h, "exponents of shell " + s, d["orbitals_exp"].items[s], r["exps"][s])
        if s in d["basis_numbers"].items:
            column(h, "quantum numbers of shell " + s, d["basis_numbers"].items[s], [num(int(x[0])) for x in r["labels"][s]])
        yes(h, "labels of shell " + s, s in d["orbitals_basis"].items and names(h, d["orbitals_basis"].items[s]) == r["labels"][s])
    for x in orbs:
        if x in d["orbitals_coeff"].items:
            column(h, "coefficients of orbital " + x, d["orbitals_coeff"].items[x], r["coeff"][x])


def spoil(v, seen=None):
    """The caller does what he likes with what he was given."""
    seen = set() if seen is None else seen
    if id(v) in seen:
        return
    seen.add(id(v))
    if isinstance(v, Arr):
        v.buf.fn = lambda ix: app("spoilt", *ix, sort=I if v.dtype == "i" else R)
    elif isinstance(v, PList) and v.items is not None:
        for x in v.items:
            spoil(x, seen)
        v.items.append("9Z")
    elif isinstance(v, PDict) and v.items is not None:
        for x in list(v.items.values()):
            spoil(x, seen)
        v.items.clear()
    elif isinstance(v, PObj):
        for x in list(v.attrs.values()):
            spoil(x, seen)


def shipped(kind, name, text, tier):
    def make(label, body, t=None):
        t = t or distinct(text, name + kind)

        @group("%s %s%s" % (kind, name, label), bounds=[{}], tier=tier, timeout=120)
        def g(h):
            e = request(h, kind, name, t)
            body(h, e, sf.parse(t, name, float=value), KINDS[kind][2])
        GROUPS.append(g)
    kw = KINDS[kind][1]

    def once(h, e, r, q):
        def post(v):
            yes(h, "a dictionary", isinstance(v, PDict) and v.items is not None)
            if isinstance(v, PDict) and v.items is not None:
                compare(h, lambda k: v.items.get(k), r, q, name)
        h.run("loader", lambda: h.call(LOAD, e, **kw), post)

    def atom(h, e, r, q):
        def post(v):
            compare(h, lambda k: h.attr(v, k), r, q, name)
        h.run("SlaterAtoms", lambda: h.call(ATOM, e, **kw), post)
    def again(h, e, r, q):
        """after a load of another atom and one of the same, with what they delivered overwritten"""
        o = request(h, "neutral", "be" if name != "be" else "c", distinct(FILES["neutral", "be" if name != "be" else "c"][0], "o"), "other")
        m = request(h, kind, name, h.texts[os.path.realpath(os.path.join(DATA, kind, name + KINDS[kind][0]))], "earlier")

        def calls():
            spoil(h.call(LOAD, o))
            spoil(h.call(LOAD, m, **kw))
            spoil(h.call(ATOM, m, **kw))
            return h.call(LOAD, e, **kw)

        def post(v):
            yes(h, "a dictionary", isinstance(v, PDict) and v.items is not None)
            if isinstance(v, PDict) and v.items is not None:
                compare(h, lambda k: v.items.get(k), r, q, name)
        h.run("loader", calls, post)
    make("", once, text)
    make(" with other digits", once)
    make(" after earlier loads", again)
    make(" through SlaterAtoms", atom)


def files():
    out = {}
    for kind, (ext, _, _) in KINDS.items():
        d = os.path.join(DATA, kind)
        for f in sorted(os.listdir(d)):
            n = f[:-len(ext)]
            if f.endswith(ext) and n in sf.Z and (kind, n) not in SKIP:
                with open(os.path.join(d, f), encoding="utf8") as x:
                    out[kind, n] = x.read(), "quick"
    tar = os.path.join(DATA, "data.tar")
    if os.path.exists(tar):
        with tarfile.open(tar) as t:
            for m in t.getmembers():
                p = m.name.replace("./", "", 1).split("/")
                if m.isfile() and len(p) == 2 and p[0] in KINDS and p[1].endswith(KINDS[p[0]][0]):
                    k = p[0], p[1][:-len(KINDS[p[0]][0])]
                    b = t.extractfile(m).read()
                    if k[1] in sf.Z and k not in out and k not in SKIP and b"\0" not in b:
                        out[k] = b.decode("utf8").replace("\r\n", "\n"), "quick"
    return out


FILES = files()
for (_k, _n), (_t, _tier) in sorted(FILES.items()):
    shipped(_k, _n, _t, _tier)


@group("caesium cation", bounds=[{}])
def caesium(h):
    with open(os.path.join(DATA, "cation", "cs.cat"), encoding="utf8") as x:
        e = request(h, "cation", "cs", x.read())
    h.refused("caesium cation", lambda: h.call(LOAD, e, cation=True))
    h.refused("atom of the caesium cation", lambda: h.call(ATOM, e, cation=True))


if os.path.exists(os.path.join(DATA, "cation", "cs.cat")):
    GROUPS.append(caesium)


def refuse(nm, has):
    @group("no data for the %s" % nm, bounds=[{}])
    def g(h):
        e = SymStr(app("element", sort=U))
        low = tm.mk("app", ("lower", e.t), U)
        for x in has:
            h.assume(tm.not_(tm.eq(low, tm.mk("app", ('"%s"' % x,), U))))
        no_file(h)
        h.refused("element without %s data" % nm, lambda: h.call(LOAD, e, **{nm: True}))
        h.assume(tm.mk("app", ("isalpha", e.t), B))
        h.refused("atom without %s data" % nm, lambda: h.call(ATOM, e, **{nm: True}))
    GROUPS.append(g)


refuse("anion", ANION)
refuse("cation", CATION)


@group("malformed requests", bounds=[{}])
def malformed(h):
    e = SymStr(app("element", sort=U))
    no_file(h)
    h.refused("both charge states", lambda: h.call(ATOM, e, anion=True, cation=True))
    h.refused("number instead of a name", lambda: h.call(ATOM, h.real("z")))
    h.assume(tm.not_(tm.mk("app", ("isalpha", e.t), B)))
    h.refused("name with other characters", lambda: h.call(ATOM, e))


GROUPS.append(malformed)
