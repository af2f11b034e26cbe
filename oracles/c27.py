"""All elements of the shipped basis-set file in several spellings, and all other elements: the look-up against an
independent reading of the file by pairs of lines."""
import os
import re
import numpy as np
import bfit
from bfit.parse_ugbs import get_ugbs_exponents
from slaterfile import NAMES


def read():
    out, head = {}, None
    for ln in open(os.path.join(os.path.dirname(bfit.__file__), "data", "ygbs"), encoding="utf8"):
        m = re.fullmatch(r"\s*([A-Z][a-z]?)\s+([SPDF])\s*", ln)
        if m:
            head = (m.group(1).lower(), m.group(2))
            continue
        m = re.fullmatch(r"\s*(\d+\.\d+(?:[ED][-+]\d+)?)\s+1\.0+\s*", ln)
        if m and head:
            out.setdefault(head[0], {x: [] for x in "SPDF"})[head[1]].append(float(m.group(1)))
        head = None
    return out


def run(o):
    ref = read()
    todo = list(ref) + [x for x in NAMES if x not in ref] + ["uue", "zz", "x"] + [x + y for x, y in (("h", "x"), ("he", "x"), ("li", "li"), ("c", "h"), ("n", "n"), ("u", "x"), ("ar", "g"))]
    for turn in o.rounds(3):
        for i in o.rng.permutation(len(todo)):
            el = todo[i]
            want = ref.get(el, {x: [] for x in "SPDF"})
            for name in {el, el.capitalize(), el.upper(), el[0] + el[1:].upper()}:
                inp = {"element": name}
                o.last = name
                if turn == 0 and o.rng.random() < 0.3:
                    g = o.call("look-up", lambda: get_ugbs_exponents(name), inp)
                    for v in (g or {}).values():
                        v.append(-1.0)
                g = o.call("look-up", lambda: get_ugbs_exponents(name), inp)
                if g is None:
                    continue
                o.ok("four shells", sorted(g) == sorted("SPDF"), inp, sorted(g))
                for x in "SPDF":
                    o.ok("exponents of shell " + x, [float(v) for v in g.get(x, [None])] == want[x], inp, {"got": g.get(x), "expected": want[x]})
        for bad in (6, None, 1.0):
            o.refused("not a string", lambda: get_ugbs_exponents(bad), {"element": bad})
