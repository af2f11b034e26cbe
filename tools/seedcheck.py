"""Which planted changes does the check of their property catch?  seedcheck.py [id...] [--all-props]"""
import glob, json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(HERE + "/seeded"))


def one(sid):
    d = "%s/seeded/%s" % (HERE, sid)
    pid = json.load(open(d + "/meta.json"))["property"]
    r, v = "/tmp/sc_r_" + sid, "/tmp/sc_v_" + sid
    for p in (r, v):
        shutil.rmtree(p, ignore_errors=True)
    shutil.copytree("/repo", r, symlinks=True)
    shutil.copytree(HERE, v, symlinks=True, ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
    try:
        p = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=r, capture_output=True, text=True)
        if p.returncode:
            return "does not apply " + p.stderr
        e = dict(os.environ, BFIT_REPO=r, VERIF_SEED="1", VERIF_TIER="quick")
        p = subprocess.run(["python3-vt", "check.py", pid], cwd=v, env=e, capture_output=True, text=True)
        ev = json.load(open("%s/evidence/%s.json" % (v, pid)))
        lines = [x for x in p.stdout.split("\n") if x.startswith(("VIOLATION", "UNDECIDED"))]
        rep = []
        for x in lines:
            if "replay=" in x:
                f = x.split("replay=")[1].split()[0]
                f = f if os.path.isabs(f) else v + "/" + f
                try:
                    j = json.load(open(f))
                    rep.append("inputs=%d obligations=%d " % (len(j["failing_inputs"]), len(j["failed_obligations"])) + json.dumps(j)[:300])
                except Exception:
                    rep.append(open(f).read()[:300] if os.path.exists(f) else "no replay " + f)
        return "exit %d %s %s" % (p.returncode, " | ".join(x[:130] for x in lines[:3]), rep[:1])
    finally:
        for p in (r, v):
            shutil.rmtree(p, ignore_errors=True)


with ThreadPoolExecutor(3) as ex:
    for sid, r in zip(ids, ex.map(one, ids)):
        print(sid, "->", r, flush=True)
