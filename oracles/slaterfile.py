"""Independent reader of Slater files: tokens of every line, orbitals by their position in the header line."""
import re

NAMES = ("h he li be b c n o f ne na mg al si p s cl ar k ca sc ti v cr mn fe co ni cu zn ga ge as se br kr rb sr y zr nb mo "
         "tc ru rh pd ag cd in sn sb te i xe cs ba la ce pr nd pm sm eu gd tb dy ho er tm yb lu hf ta w re os ir pt au hg tl "
         "pb bi po at rn fr ra ac th pa u np pu am cm bk cf es fm md no lr").split()
Z = {s: i + 1 for i, s in enumerate(NAMES)}
CLOSED = {"K": {"1S": 2}, "L": {"2S": 2, "2P": 6}, "M": {"3S": 2, "3P": 6, "3D": 10}, "N": {"4S": 2, "4P": 6, "4D": 10, "4F": 14}}
XE = dict(CLOSED["K"], **CLOSED["L"], **CLOSED["M"], **{"4S": 2, "4P": 6, "4D": 10, "5S": 2, "5P": 6})
RN = dict(XE, **{"4F": 14, "5D": 10, "6S": 2, "6P": 6})
CORES = {"[HE]": CLOSED["K"], "[XE]": XE, "[RN]": RN}


def occupations(text):
    out = {}
    m = re.match(r"\[[A-Z]+\]", text)
    if m:
        out.update(CORES[m.group(0)])
        text = text[m.end():]
    pos = 0
    for m in re.finditer(r"([KLMN]|\d[SPDF])\((\d+)\)", text):
        if m.start() != pos:
            raise ValueError("configuration %r" % text)
        pos = m.end()
        if m.group(1) in CLOSED:
            if sum(CLOSED[m.group(1)].values()) != int(m.group(2)):
                raise ValueError("configuration %r" % text)
            out.update(CLOSED[m.group(1)])
        else:
            out[m.group(1)] = int(m.group(2))
    if pos != len(text):
        raise ValueError("configuration %r" % text)
    return {k: v for k, v in out.items() if v}


def read(path):
    with open(path, encoding="utf8") as f:
        return parse(f.read(), path)


def parse(text, path="", float=float):
    lines = text.split("\n")
    conf = lines[0].split()[1].rstrip(",")
    out = dict(conf=conf, occ=occupations(conf), orbitals=[], energy={}, coeff={}, exps={}, labels={}, cusp={})
    i = 0
    for ln in lines:
        m = re.match(r"\s*E\s*=\s*(-?\d+\.\d+)", ln)
        if m:
            out["E"] = float(m.group(1))
        m = re.match(r"\s*T\s*=\s*(-?\d+\.\d+)\s+V\s*=\s*(-?\d+\.\d+)", ln)
        if m:
            out["T"], out["V"] = float(m.group(1)), float(m.group(2))
    while i < len(lines):
        w = lines[i].split()
        if len(w) > 1 and w[0] in "SPDF" and len(w[0]) == 1 and all(re.fullmatch(r"\d" + w[0], x) for x in w[1:]):
            sh, orbs = w[0], w[1:]
            if sh in out["exps"]:
                raise ValueError("shell %s twice in %s" % (sh, path))
            out["orbitals"] += orbs
            out["exps"][sh], out["labels"][sh] = [], []
            for o in orbs:
                out["coeff"][o] = []
            i += 1
            while i < len(lines) and lines[i].split():
                w = lines[i].split()
                if "ENERGY" in lines[i]:
                    for o, x in zip(orbs, w[-len(orbs):]):
                        out["energy"][o] = float(x)
                elif w[0] == "CUSP":
                    for o, x in zip(orbs, w[1:]):
                        out["cusp"][o] = float(x)
                elif re.fullmatch(r"\d" + sh, w[0]) and not re.fullmatch(r"\d[SPDF]", w[1]):
                    if len(w) != 2 + len(orbs):
                        raise ValueError("row %r in %s" % (lines[i], path))
                    out["labels"][sh].append(w[0])
                    out["exps"][sh].append(float(w[1]))
                    for o, x in zip(orbs, w[2:]):
                        out["coeff"][o].append(float(x))
                else:
                    break
                i += 1
        else:
            i += 1
    return out
