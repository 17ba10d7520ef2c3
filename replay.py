#!/usr/bin/env python3
"""replay.py FILE: runs the counterexample in FILE natively against /repo's current crate; exit 1 if it still violates."""
import json, sys, vlib
from specs import SPECS
r = json.load(open(sys.argv[1]))
with vlib.Lock():
    vlib.freshen(); b = vlib.build_native(SPECS[r["property"]].get("features", ""))
rc, lines = vlib.native(b, r["entry"], r["stdin"])
print("property %s, entry %s, inputs %s, choices %s" % (r["property"], r["entry"], r["inputs"], r["choices"]))
print("\n".join(lines))
bad = vlib.reproduces({"id": r["assertion"]}, rc, lines)
print(("VIOLATED: " if bad else "holds: ") + r["assertion"])
sys.exit(1 if bad else 0)
