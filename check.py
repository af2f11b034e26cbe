#!/usr/bin/env python3-vt
"""Check one property:  check.py C05 [--tier quick|thorough]"""
import argparse
import hashlib
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.chdir(HERE)
REPO = os.environ.get("BFIT_REPO", "/repo")
REALPY = "/opt/venv/bin/python"
if not os.path.exists(REALPY):
    REALPY = sys.executable


def real_env():
    e = dict(os.environ)
    e.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", BFIT_REPO=REPO)
    return e


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                key, _, what = line.split("key=", 1)[1].partition(" ")
                out.append((key, what))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--no-oracle", action="store_true")
    ap.add_argument("--no-proof", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid = a.pid.upper()
    t0 = time.time()
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    budget = 25 if a.tier == "quick" else 240
    orc = None
    opath = os.path.join(HERE, "oracles", pid.lower() + ".py")
    oout = os.path.join(evdir, ".%s.oracle.json" % pid)
    olog = os.path.join(evdir, ".%s.oracle.log" % pid)
    if os.path.exists(opath) and not a.no_oracle:
        if os.path.exists(oout):
            os.remove(oout)
        orc = subprocess.Popen([REALPY, os.path.join(HERE, "oracles", "run.py"), pid.lower(),
                                "--seed", str(a.seed), "--tier", a.tier, "--budget", str(budget),
                                "--out", oout], env=real_env(), cwd=HERE,
                               stdout=open(olog, "w"), stderr=subprocess.STDOUT)
    violations = []      # (text, concrete)
    results, mod = [], None
    if os.path.exists(os.path.join(HERE, "contracts", pid.lower() + ".py")) and not a.no_proof:
        from vc import harness
        mod, results = harness.run_property("contracts." + pid.lower(), a.tier, procs=7)
    obl = disch = bounded = 0
    failed, fallback_groups, undecided = [], [], []
    called, models, backends = set(), set(), {}
    z3c, z3t = 0, 0.0
    for r in results:
        called |= set(r["called"])
        models |= set(r["models"])
        z3c += r["z3_calls"]
        z3t += r["z3_time"]
        g = mod.GROUPS[r["index"]]
        isb = r["kind"] != "unbounded"
        if r.get("superseded"):
            fallback_groups.append("%s: %s: %s" % (g.name, r["error"][0], r["error"][1][:300]))
            continue
        for name, st, be, secs, detail in r["obl"]:
            if isb:
                bounded += 1
            else:
                obl += 1
                if st == "discharged":
                    disch += 1
                    backends[be] = backends.get(be, 0) + 1
            if st != "discharged":
                failed.append({"obligation": "%s / %s / %s" % (pid, g.name, name), "sizes": r["sizes"],
                               "status": st, "detail": detail})
        if r["error"] is not None:
            # a limit of the verifier, not a refuted obligation: undecided, the bounded contracts stand in
            undecided.append("%s%s: %s: %s" % (g.name, " %s" % r["sizes"] if r["sizes"] else "",
                                               r["error"][0], r["error"][1][-400:]))
            if not isb:
                obl += 1
    oracle = None
    if orc is not None:
        try:
            orc.wait(timeout=budget * 3 + 200)
        except subprocess.TimeoutExpired:
            orc.kill()
            orc.wait()
        if os.path.exists(oout):
            oracle = json.load(open(oout))
        else:
            oracle = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [],
                      "failures": [], "crashed": open(olog).read()[-3000:]}
    # ------------------------------------------------------------- verdict
    known = known_findings(pid)
    concrete, seen_known = [], set()
    if oracle:
        for f in oracle.get("failures", []):
            for key, what in known:
                if f.get("key") == key:
                    seen_known.add((key, what))
                    break
            else:
                concrete.append(f)
        if oracle.get("crashed"):
            failed.append({"obligation": "%s / runtime contracts" % pid, "sizes": None, "status": "crashed",
                           "detail": oracle["crashed"]})
    for key, what in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    replay = os.path.join(evdir, "%s.replay.json" % pid)
    status = 0
    if concrete or failed:
        status = 1
        json.dump({"property": pid, "failing_inputs": concrete[:20], "failed_obligations": failed[:60],
                   "how_to_replay": "%s oracles/run.py %s --seed %d --tier %s --out /dev/stdout (with PYTHONPATH=%s)"
                                    % (REALPY, pid.lower(), a.seed, a.tier, REPO)},
                  open(replay, "w"), indent=1, default=str)
        for f in failed[:12]:
            print("FAILED-OBLIGATION %s [%s] sizes=%s\n    %s" % (
                f["obligation"], f["status"], f["sizes"], str(f["detail"])[:400]))
        for f in concrete[:5]:
            print("FAILING-INPUT %s" % json.dumps(f, default=str)[:600])
        print("VIOLATION property=%s replay=%s%s" % (
            pid, replay, "" if concrete else " no-failing-input-found"))
    elif os.path.exists(replay):
        os.remove(replay)
    for u in (fallback_groups + undecided)[:12]:
        print("UNDECIDED %s / %s (bounded contracts stand in)" % (pid, u[:400].replace("\n", " ")))
    if undecided and not status and not (oracle and oracle["evaluations"] > 0):
        print("%s: undecided and nothing stands in" % pid)
        return 4
    if not results and not oracle:
        print("no machinery for", pid)
        return 3
    # ------------------------------------------------------------- evidence
    level = getattr(mod, "LEVEL", "proof") if mod else "exploration"
    if level == "proof" and obl == 0:
        level = "other"
    trusted = ["Python front end of vc/interp.py (parses /repo/bfit on every run)",
               "normal-form prover vc/prover.py", "z3 %s" % _z3v()]
    trusted += ["assumed contract: " + m for m in sorted(models)]
    cov = {"obligations": obl, "discharged": disch,
           "checker_cmd": "python3-vt check.py %s --tier %s" % (pid, a.tier),
           "trusted_base": trusted,
           "bounded_obligations": bounded,
           "groups_that_fell_back_to_bounded": fallback_groups, "undecided": undecided,
           "functions_under_contract": sorted(called),
           "discharged_by": backends, "solver_calls": z3c, "solver_time_s": round(z3t, 2),
           "paths": sum(r["paths"] for r in results)}
    if oracle:
        cov.update(evaluations=oracle["evaluations"], distinct_nontrivial=oracle["distinct_nontrivial"],
                   rule=oracle["rule"], samples=oracle["samples"][:8])
    if level == "other":
        cov["explanation"] = getattr(mod, "EXPLANATION", "bounded contracts only")
    ass = ["floating-point arithmetic is treated as exact real arithmetic in the proof; the runtime "
           "contracts compare with tolerances"]
    ass += getattr(mod, "ASSUMPTIONS", []) if mod else []
    for r in results:
        for n in r["notes"]:
            if n not in ass:
                ass.append(n)
    ev = {"property": pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed,
          "level": level, "coverage": cov, "assumptions": ass, "wall_s": round(time.time() - t0, 2),
          "violations": len(concrete) + len(failed)}
    json.dump(ev, open(os.path.join(evdir, pid + ".json"), "w"), indent=1, default=str)
    if a.v:
        for r in results:
            print("  %-40s %-9s %3d obligations %5.1fs %s %s" % (
                mod.GROUPS[r["index"]].name, r["kind"], len(r["obl"]), r["secs"], r["sizes"] or "",
                r["error"] or ""))
    print("%s: %s; %d/%d obligations discharged, %d bounded, %s runtime evaluations, %.1f s" % (
        pid, "held" if status == 0 else "VIOLATED", disch, obl, bounded,
        oracle["evaluations"] if oracle else 0, time.time() - t0))
    return status


def _z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return "?"


if __name__ == "__main__":
    sys.exit(main())
