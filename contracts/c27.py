"""UGBS look-up.  The loop over the file is executed symbolically on the shipped file, the requested name being a symbolic
string: one group per listed element, for every spelling of its name, and one for all other names.  The number that a text
denotes is left uninterpreted: the texts are moved to the right place whatever they say."""
import os
import re

from contracts.common import *

GROUPS = []
LEVEL = "proof"
LEVEL_NOTE = ("For the shipped file (concrete text, read afresh on every run), every spelling of every listed name and every name that is no word of the file: the returned lists are those of an "
              "independent reading of the file by pairs of lines. Assumed: the behaviour of open, str.split/strip/lower and float "
              "(uninterpreted) and that lower/upper/capitalize of a spelling of a name are those of the name (ASCII letters).")
TECHNIQUE = ("contract-based deductive verification: symbolic execution of the look-up on the shipped file with a symbolic name, "
             "postconditions discharged for every element and every spelling")
ASSUMPTIONS = ["the file read is bfit/data/ygbs as it lies in the repository", "float(text) is a function of the text"]
ROOT = os.environ.get("BFIT_REPO", "/repo")
SHELLS = "SPDF"


def text():
    with open(os.path.join(ROOT, "bfit/data/ygbs"), encoding="utf8") as f:
        return f.read()


def table():
    """element -> shell -> texts of the exponents: a head line 'El Shell' followed by a line 'exponent 1.0000000'."""
    out, head = {}, None
    for ln in text().split("\n"):
        m = re.fullmatch(r"\s*([A-Z][a-z]?)\s+([SPDF])\s*", ln)
        if m:
            head = (m.group(1).lower(), m.group(2))
            continue
        m = re.fullmatch(r"\s*(\d+\.\d+(?:[ED][-+]\d+)?)\s+1\.0+\s*", ln)
        if m and head:
            out.setdefault(head[0], {x: [] for x in SHELLS})[head[1]].append(m.group(1))
        head = None
    return out


def value(s):
    return tm.mk("app", ("number", strconst(s)), R)


def setup(h):
    want = os.path.realpath(os.path.join(ROOT, "bfit/data/ygbs"))

    def files(it, path):
        if not isinstance(path, str) or os.path.realpath(path) != want:
            raise PyRaise("FileNotFoundError", "%r" % (path,))
        return text()
    h.it.files = files
    h.it.read_number = lambda s, v: value(s)
    return SymStr(app("element", sort=U))


def compare(h, v, ref):
    h.holds("a dictionary of lists", tm.TRUE if isinstance(v, PDict) else tm.FALSE)
    if not isinstance(v, PDict):
        return
    h.holds("four shells", tm.TRUE if sorted(map(str, v.items)) == sorted(SHELLS) else tm.FALSE)
    for x in SHELLS:
        got = v.items.get(x)
        if got is None:
            continue
        got = h.it.concrete_items(got)
        h.holds("number of exponents of shell " + x, tm.TRUE if len(got) == len(ref[x]) else tm.FALSE)
        same = len(got) == len(ref[x]) and all(is_scalar(a) and tv(a) is value(s) for a, s in zip(got, ref[x]))
        h.holds("exponents of shell %s in file order" % x, tm.TRUE if same else tm.FALSE)


def listed(name, ref):
    @group("listed element " + name, bounds=[{}])
    def g(h):
        e = setup(h)
        h.it.spelling[e.t] = name
        h.run("look-up of " + name, lambda: h.call("bfit.parse_ugbs.get_ugbs_exponents", e), lambda v: compare(h, v, ref))
    GROUPS.append(g)


TABLE = table()
for _n, _r in TABLE.items():
    listed(_n, _r)


@group("name that is not listed", bounds=[{}])
def unlisted(h):
    e = setup(h)
    for x in TABLE:
        h.assume(tm.not_(tm.eq(e.t, strconst(x))))
        for how in ("lower", "upper", "casefold", "capitalize", "title"):
            h.assume(tm.not_(tm.eq(tm.mk("app", (how, e.t), U), strconst(getattr(x, how)()))))
    # not a word of the comments either ("basis" is not the name of an element)
    for x in {w.lower() for w in text().split()} - set(TABLE):
        h.assume(tm.not_(tm.eq(tm.mk("app", ("lower", e.t), U), strconst(x))))
    h.run("look-up", lambda: h.call("bfit.parse_ugbs.get_ugbs_exponents", e), lambda v: compare(h, v, {x: [] for x in SHELLS}))


@group("not a string", bounds=[{}])
def bad(h):
    h.refused("number", lambda: h.call("bfit.parse_ugbs.get_ugbs_exponents", h.real("z")))
    h.refused("nothing", lambda: h.call("bfit.parse_ugbs.get_ugbs_exponents", None))


GROUPS += [unlisted, bad]
