"""Debug: run one group of a property: run1.py c03 <index or name part> [sizes-index]"""
import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from vc import harness
m = importlib.import_module("contracts." + sys.argv[1])
cut = int(os.environ.get("CUT", "500"))
for g in m.GROUPS:
    if len(sys.argv) > 2 and sys.argv[2] not in g.name:
        continue
    szs = ([None] if g.unbounded else g.bounds) if len(sys.argv) < 4 else [g.bounds[int(sys.argv[3])]]
    for s in szs:
        r = harness.run_one(g, s)
        bad = [o for o in r["obl"] if o[1] != "discharged"]
        print("==", g.name, s or "", "%d/%d" % (len(r["obl"]) - len(bad), len(r["obl"])), "paths", r["paths"], "%.1fs" % r["secs"], "err:", r["error"] and (r["error"][0], r["error"][1][-1800:]))
        for o in bad[:int(os.environ.get("NBAD", "6"))]:
            print("   FAIL", o[0], "|", o[4][:cut].replace("\n", "\n      "))
