"""Writes MANIFEST.json from the registry."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "harness"))
from registry import CHECKS, NOTES  # noqa: E402

T_LIB = "TLA+ specification; TLC validates recorded traces of the real code step by step"
T_MC = "TLA+ specification explored exhaustively by TLC; recorded traces and spec-generated behaviours checked against it"
checks = []
for p in sorted(CHECKS):
    c = CHECKS[p]
    checks.append(dict(property=p, quick_cmd=f"python3 harness/run.py {p} quick",
                       thorough_cmd=f"python3 harness/run.py {p} thorough",
                       technique=T_MC if c.get("models") else T_LIB, level="model_checking",
                       level_note=NOTES.get(p, "Holds on every executed scenario, judged by TLC against the specification; ") +
                       " Assumes: " + "; ".join(c["assumptions"]) + "."))
props = [json.loads(x)["id"] for x in open(os.path.join(VERIF, "properties.jsonl"))]
na = [dict(property=p, reason="check not built yet") for p in props if p not in CHECKS]
json.dump(dict(version=1, setup_cmd="python3 harness/setup.py", checks=checks, not_applicable=na,
               notes="No hooks in /repo: all observation is at public functions, the command line and written files."),
          open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
