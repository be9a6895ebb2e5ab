#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
FPV = "deductive verification (contracts, floating point): symbolic execution of the LLVM IR rustc emits from /repo on each run; every path obligation discharged by Taylor-model arithmetic with rounding-error bounds"
KANI = "deductive verification with Kani (CBMC): full-domain harnesses and contracts on the real code, bit-exact"
# id: (technique, level, note)
C = {}
exec(open(os.path.join(V, "tools", "claims.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = [{"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
           "evidence_file": f"evidence/{i}.json", "technique": C[i][0], "level": C[i][1], "level_note": C[i][2]} for i in ids if i in C]
na = [{"property": i, "reason": NA.get(i, "no check is built for it yet")} for i in ids if i not in C]
m = {"version": 1, "setup_cmd": "./check.sh build",
     "hooks": HOOKS, "checks": checks, "not_applicable": na, "notes": "Each check builds fpv and the harness from /verif and /repo's current tree, offline."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
