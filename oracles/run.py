"""oracles/run.py <id> --seed S --tier T --budget B --out FILE"""
import argparse
import importlib
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get("BFIT_REPO", "/repo"))
from lib import Oracle, Stop          # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--budget", type=float, default=25)
    ap.add_argument("--out", default="/dev/stdout")
    a = ap.parse_args()
    o = Oracle(a.seed, a.tier, a.budget)
    crashed = None
    try:
        m = importlib.import_module(a.pid.lower())
        o.rule = (m.__doc__ or "").strip()
        m.run(o)
    except Stop:
        pass
    except Exception:
        tb = traceback.format_exc()
        repo = os.environ.get("BFIT_REPO", "/repo").rstrip("/")
        # an exception out of the code under test on an input of the contract's domain
        if '"%s/bfit/' % repo in tb.split("\n  File")[-1] or repo + "/bfit/" in tb:
            o.failures.append({"what": "exception on well-formed input", "input": getattr(o, "last", None),
                               "observed": tb[-1500:], "key": "exception"})
        else:
            crashed = tb
    out = {"evaluations": o.n, "distinct_nontrivial": o.n, "rule": o.rule, "samples": o.samples,
           "failures": o.failures, "contracts": o.kinds}
    if crashed:
        out["crashed"] = crashed
    with open(a.out, "w") as f:
        json.dump(out, f, indent=1, default=str)


main()
