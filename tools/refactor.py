"""Do the contracts stay quiet on behaviour-preserving edits?  refactor.py PLAN.py [bundle...] [--props C01,C02]
PLAN defines BUNDLES = {name: [(file, old, new)...]}.  Each bundle is applied to a copy of /repo, the tests run,
and then the contracts of every property; anything but ok is printed."""
import os, runpy, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
props = [a[8:].split(",") for a in sys.argv[1:] if a.startswith("--props=")]
props = props[0] if props else ["C%02d" % i for i in range(1, 30)]
bundles = runpy.run_path(args[0])["BUNDLES"]
notest = "--notest" in sys.argv


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def edit(t, old, new):
    """Replace old by new; blank and comment lines of the source between the lines of old are skipped."""
    import re
    if t.count(old) == 1:
        return t.replace(old, new)
    lines = [x for x in old.split("\n") if x.strip() and not x.strip().startswith("#")]
    pat = r"(?:[ \t]*(?:#[^\n]*)?\n)*".join(re.escape(x) + r"[ \t]*(?:  #[^\n]*)?\n" for x in lines)
    m = list(re.finditer(pat, t))
    if len(m) != 1:
        raise SystemExit("edit matches %d times: %s" % (len(m), old))
    return t[:m[0].start()] + new + t[m[0].end():]


def prepare(b):
    w = "/tmp/rf_" + b
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w, symlinks=True)
    for f, old, new in bundles[b]:
        p = w + "/bfit/" + f
        t = open(p).read()
        open(p, "w").write(edit(t, old, new))
    if not notest:
        e = dict(os.environ, PYTHONPATH=w, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg")
        r = sh("/opt/venv/bin/python -m pytest -q -n 4 --no-cov -o cache_dir=%s/.cache bfit/test 2>&1 | tail -8" % w, cwd=w, env=e)
        print(b, "tests:", r.stdout.strip().split("\n")[-1], flush=True)
    return w


def one(job):
    b, p = job
    e = dict(os.environ, BFIT_REPO="/tmp/rf_" + b)
    r = sh("timeout 880 python3-vt tools/run1.py %s" % p.lower(), cwd=HERE, env=e)
    out = r.stdout + r.stderr
    open("/tmp/rf_%s_%s.txt" % (b, p), "w").write(out)
    return b, p, r.returncode, out


names = args[1:] or list(bundles)
for b in names:
    prepare(b)
order = sorted(props, key=lambda p: -{"C21": 9, "C20": 8, "C16": 7, "C14": 6, "C28": 6, "C29": 5, "C19": 5, "C12": 4}.get(p, 0))
with ThreadPoolExecutor(8) as ex:
    from concurrent.futures import as_completed
    for fu in as_completed([ex.submit(one, (b, p)) for b in names for p in order]):
        b, p, rc, out = fu.result()
        bad = [x for x in out.split("\n") if "FAIL" in x or "Unsupported" in x or "err: (" in x or "Traceback" in x
               or ("ok " not in x and "undecided" in x.lower())]
        print(b, p, "rc", rc, "quiet" if not bad and rc == 0 else "", flush=True)
        for x in bad[:6]:
            print("     ", x[:300], flush=True)
for b in names:
    shutil.rmtree("/tmp/rf_" + b, ignore_errors=True)
