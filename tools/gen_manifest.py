"""Writes MANIFEST.json from the check modules that exist."""
import ast
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib.runner import read_meta

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(V, "checks", pid.lower() + ".py")):
        m = read_meta(pid)
        checks.append(dict(
            property=pid, quick_cmd="./run_check.py %s --tier quick" % pid,
            thorough_cmd="./run_check.py %s --tier thorough" % pid,
            evidence_file="evidence/%s.json" % pid,
            technique=m.get("TECHNIQUE", "runtime monitoring: reference-model oracle over generated executions of the real code"),
            level=m.get("LEVEL", "exploration"),
            level_note=m.get("NOTE", "Held on the executions generated by the seed; independent reference semantics in vlib/ "
                             "(and numpy/cvxopt) are trusted; says nothing about inputs not generated.")))
    else:
        na.append(dict(property=pid, reason="check not built yet"))
man = dict(version=1, setup_cmd="/opt/venv/bin/python -W ignore vlib/build.py && /opt/venv/bin/python -W ignore vlib/build.py --san",
           checks=checks, not_applicable=na,
           notes="No hooks in /repo: the monitors wrap public objects (models, solvers) from the harness process.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", len(na), "not claimed")
