#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from specs.py."""
import json
from specs import SPECS, NA
TECH = "symbolic execution of the crate's LLVM bitcode with Z3 (vsym); counterexamples replayed natively"
with open("properties.jsonl", "w") as f:
    for pid, s in SPECS.items():
        f.write(json.dumps({"id": pid, "title": s["title"], "statement": s["statement"], "quantifier": {"over": s["over"], "text": s["quant"]}, "why_tests_cant": s["why"],
            "anchors": {"files": s["files"], "mechanism": [{"name": n, "where": w} for n, w in s["mech"]], "observe_at": s.get("observe", ["HTTP response", "storage calls / files under the root"]), "hook_needed": None}}) + "\n")
    for s in NA: f.write(json.dumps(s["prop"]) + "\n")
json.dump({"version": 1, "setup_cmd": "bash setup.sh",
    "checks": [{"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p, "evidence_file": "evidence/%s.json" % p, "technique": TECH, "level": "model_checking",
        "level_note": "Bounded: " + s["bounds"] + " Every path within the bounds is explored and each assertion is decided by Z3 for all values on the path. " + ("Outside: " + s["outside"] + " " if s.get("outside") else "") + "Trusts rustc's bitcode, the executor (its path models are replayed natively on every run), Z3, and the in-memory model of the C library's file calls; hash compression functions are collision-free functions."} for p, s in SPECS.items()],
    "not_applicable": [{"property": s["prop"]["id"], "reason": s["reason"]} for s in NA],
    "notes": "No hooks in /repo: the harness crate /verif/harness uses the public API only. 'fix:' commits and known findings are listed in known_findings.json."}, open("MANIFEST.json", "w"), indent=1)
