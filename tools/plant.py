"""Builds seeded/<id>/ from a plan file: confirms the change keeps the tests passing and the demo tells the two apart.
plant.py PLAN.py [id...]   PLAN defines SEEDS = {id: dict(prop, needs, breaks, edits=[(file, old, new)], demo)}"""
import json, os, runpy, shutil, subprocess, sys
V = "/verif/seeded"
seeds = runpy.run_path(sys.argv[1])["SEEDS"]
todo = sys.argv[2:] or [s for s in seeds if not os.path.exists("%s/%s" % (V, s))]
base = json.load(open("/opt/vp/BASELINE.json"))
PY = "/opt/venv/bin/python"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def one(sid):
    s = seeds[sid]
    w = "/tmp/plant_" + sid
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w, symlinks=True)
    d = "/tmp/plantd_" + sid
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        open(d + "/demo.py", "w").write(s["demo"].lstrip())
        open(d + "/demo.sh", "w").write(
            '#!/bin/bash\n# exit 0 when the property holds on these inputs\n'
            'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg\n'
            'PY=/opt/venv/bin/python\n[ -x "$PY" ] || PY=python3\n'
            'exec "$PY" "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        r = sh("bash %s/demo.sh" % d, cwd=w)
        if r.returncode:
            return "demo fails on the unchanged tree: " + r.stderr[-600:]
        for f, old, new in s["edits"]:
            t = open(w + "/" + f).read()
            if t.count(old) != 1:
                return "edit matches %d times: %s" % (t.count(old), old)
            open(w + "/" + f, "w").write(t.replace(old, new))
        r = sh("bash %s/demo.sh" % d, cwd=w)
        if not r.returncode:
            return "demo passes with the change"
        demo = (r.stdout + r.stderr).strip().split("\n")[-1]
        e = dict(os.environ, PYTHONPATH=w, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg")
        r = sh(PY + " -m pytest -q -x -n 2 --no-cov --randomly-seed=1 --randomly-dont-reorganize -o cache_dir=%s/.cache bfit/test 2>&1 | tail -8" % d, cwd=w, env=e)
        if "127 passed" not in r.stdout:
            return "tests: " + r.stdout[-600:]
        diff = sh("git diff", cwd=w).stdout
        out = V + "/" + sid
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(out + "/meta.json", "w"), indent=1)
        r = sh("git apply --check %s/patch.diff" % out, cwd="/repo")
        return "planted (%s) %s" % (demo[:100], r.stderr)
    finally:
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)


from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(6) as ex:
    for sid, r in zip(todo, ex.map(one, todo)):
        print(sid, "->", r)
