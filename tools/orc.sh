#!/bin/bash
# tools/orc.sh <id> [tier] [budget] [seed]: run one oracle against /repo
cd "$(dirname "$0")/../oracles" && PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg \
 /opt/venv/bin/python run.py $1 --tier ${2:-quick} --budget ${3:-25} --seed ${4:-1} --out /tmp/orc_$1.json
python3 - <<P
import json
d=json.load(open("/tmp/orc_$1.json"))
print("$1", d["evaluations"], len(d["failures"]), d.get("crashed","")[-1500:])
for f in d["failures"][:4]: print("  ", str(f)[:700])
for k,v in d["contracts"].items(): print("     ",v,k)
P
