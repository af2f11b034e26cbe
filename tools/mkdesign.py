"""Rewrites the generated parts of DESIGN.md (defects, planted bugs): tools/mkdesign.py [output of seedcheck.py]"""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = HERE + "/DESIGN.md"
s = open(path).read()


def put(tag, text):
    global s
    a, b = "<!--%s-->" % tag, "<!--/%s-->" % tag
    assert a in s and b in s, tag
    s = s[:s.index(a) + len(a)] + "\n" + text.rstrip() + "\n" + s[s.index(b):]


rows = []
for line in open(HERE + "/known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", line)
    if m:
        rows.append("| %s | `%s` | %s |" % m.groups())
put("fixed", "| property | commit | what failed |\n|---|---|---|\n" + "\n".join(rows))
how = {}
for f in sys.argv[1:]:
    for line in open(f):
        sid, _, r = line.partition(" -> ")
        if r.startswith("exit"):
            m = re.search(r"inputs=(\d+) obligations=(\d+)", r)
            i, o = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
            how[sid] = "not caught" if r.startswith("exit 0") else " + ".join(
                ["failed obligation"] * (o > 0) + ["failing input"] * (i > 0))
old = dict(re.findall(r"^\| (c\d\d-\S+) \|.*\| ([^|]*) \|$", s[s.index("<!--seeds-->"):s.index("<!--/seeds-->")], re.M))
rows = []
for sid in sorted(os.listdir(HERE + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (HERE, sid)))
    rows.append("| %s | %s | %s | %s |" % (sid, m["property"], m["what_it_breaks"].replace("|", "/").replace("\n", " "),
                                          how.get(sid) or old.get(sid, "")))
put("seeds", "| id | check | what it breaks | caught by |\n|---|---|---|---|\n" + "\n".join(rows))
open(path, "w").write(s)
