"""Writes MANIFEST.json from properties.jsonl and the contract modules that exist."""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NA = {}
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    has = os.path.exists("%s/contracts/%s.py" % (HERE, pid.lower()))
    orc = os.path.exists("%s/oracles/%s.py" % (HERE, pid.lower()))
    if not has:
        na.append({"property": pid, "reason": NA.get(pid, "no contract check is registered for it yet")})
        continue
    m = importlib.import_module("contracts." + pid.lower())
    level = getattr(m, "LEVEL", "proof")
    tech = getattr(m, "TECHNIQUE", "contract-based deductive verification: postconditions on the functions of "
                   "/repo, obligations generated from the parsed source and discharged for all sizes by the "
                   "normal-form prover and z3; runtime contracts on the real code supply failing inputs")
    note = getattr(m, "LEVEL_NOTE", "Every obligation discharged unbounded over array sizes and values; floats "
                   "are treated as reals; numpy/scipy primitives enter as assumed contracts (listed in the evidence); "
                   "the runtime contracts are bounded sampling and not counted as proved.")
    checks.append({"property": pid, "quick_cmd": "python3-vt check.py %s --tier quick" % pid,
                   "thorough_cmd": "python3-vt check.py %s --tier thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": tech, "level": level,
                   "level_note": note})
out = {"version": 1, "setup_cmd": "python3-vt -c \"import z3, numpy\" && /opt/venv/bin/python -c \"import numpy, scipy\"",
       "checks": checks, "not_applicable": na,
       "notes": "Contracts are sidecar Python modules (contracts/) checked by vc/ against the source of /repo/bfit "
                "parsed on every run; oracles/ holds the runtime contracts. No hooks are needed in /repo."}
json.dump(out, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
