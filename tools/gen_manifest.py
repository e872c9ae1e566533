#!/usr/bin/env python3
"""Writes MANIFEST.json from cases.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import cases
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks = []
for p in ids:
    if p in cases.PROPS:
        checks.append({
            "property": p,
            "quick_cmd": "python3 check.py %s quick" % p,
            "thorough_cmd": "python3 check.py %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": "symbolic execution of the LLVM IR of the real code, assertions decided by z3 within stated bounds, counterexamples replayed natively",
            "level": "model_checking",
            "level_note": "Every value within the bounds of the cases listed in the evidence is decided by the solver; nothing is claimed outside them (%s). Trusts rustc's IR, the engine's instruction semantics (cross-checked by native replay of path models) and z3." % cases.PROPS[p]["outside"],
        })
na = [{"property": p, "reason": NA.get(p, "its check is not built yet")} for p in ids if p not in cases.PROPS]
m = {"version": 1, "setup_cmd": "python3 check.py --build",
     "hooks": {"guard": "cfg(nanvm_verif)", "enable": "RUSTFLAGS='--cfg nanvm_verif' when check.py builds the harness crate (harness/) with its path dependency on /repo/nanvm-lib",
               "source_commits": ["a7ba2da"]},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
