#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/spec.py (one check per module)."""
import json
import sys
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
from spec import P      # noqa: E402

V = HERE.parent
ready = [k for k in sorted(P) if (V / "props" / f"{k.lower()}.py").exists()]
with open(V / "properties.jsonl", "w") as f:
    for k in ready:
        f.write(json.dumps({a: b for a, b in P[k].items() if a != "note"}) + "\n")
TRUST = (" Bounded, solver-decided: every claim holds for all values of its symbolic inputs "
         "within the bounds in the evidence file; doubles are treated as reals; trusts the "
         "numpy model (symx/sym.py) and z3; counterexamples are replayed on the real code.")
man = {"version": 1,
       "setup_cmd": "/opt/venv/bin/python check.py --selftest",
       "checks": [{"property": k, "quick_cmd": f"./check.py {k}",
                   "thorough_cmd": f"VERIF_TIER=thorough ./check.py {k}",
                   "technique": "symbolic execution of the real Python code + SMT (z3)",
                   "level": "model_checking", "level_note": P[k]["note"] + TRUST}
                  for k in ready],
       "not_applicable": []}
(V / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
print(len(ready), "properties")
