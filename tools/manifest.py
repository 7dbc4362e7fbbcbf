#!/usr/bin/env python3-vt
"""Regenerates MANIFEST.json from the contract modules and tools/na.json."""
import importlib, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
na = json.load(open(os.path.join(H, "tools", "na.json")))
checks = []; nal = []
for i in ids:
    try: m = importlib.import_module("contracts." + i.lower())
    except ModuleNotFoundError: m = None
    if m is None or getattr(m, "UNCLAIMED", None):
        nal.append({"property": i, "reason": (m.UNCLAIMED if m else None) or na.get(i, "no check built yet")}); continue
    checks.append({"property": i, "quick_cmd": "python3-vt check.py " + i, "thorough_cmd": "python3-vt check.py %s --thorough" % i,
                   "technique": getattr(m, "TECHNIQUE", "contract-based deductive verification of the C++ functions (VC generation over clang's AST, z3/cvc5)"),
                   "level": getattr(m, "LEVEL", "proof"), "level_note": m.NOTE})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": nal,
           "notes": "No hooks in /repo: contracts live in /verif/contracts and are checked against clang's AST of /repo/src on every run."}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(nal), "not applicable")
