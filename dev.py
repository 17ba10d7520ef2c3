#!/usr/bin/env python3
"""dev.py [-n] [-o k=v]... ENTRY...: build, explore entries, replay violations natively (development aid)."""
import sys, json, vlib, tempfile, os, time
from concurrent.futures import ThreadPoolExecutor
a = sys.argv[1:]
opts = dict(jobs=8, secs=120, witnesses=24, query_ms=60000); nat = True; feat = ""; show = 6; forks = 0
while a and a[0].startswith("-"):
    f = a.pop(0)
    if f == "-n": nat = False
    elif f == "-o": k, v = a.pop(0).split("="); opts[k] = v
    elif f == "-s": show = int(a.pop(0))
    elif f == "-p": feat = "server"
    elif f == "-f": forks = int(a.pop(0))
t = time.time()
with vlib.Lock():
    with ThreadPoolExecutor(2) as ex:
        x = ex.submit(vlib.build_bitcode, feat); y = ex.submit(vlib.build_native, feat) if nat else None
        libs = x.result(); binr = y.result() if nat else None
print("build %.1f s" % (time.time() - t))
for e in a:
    o = tempfile.mktemp()
    d, _ = vlib.symex(libs, e, opts, o); os.remove(o); os.remove(o + ".libs")
    m = vlib.merge(d)
    print("== %s wall %.1f s" % (e, d["wall_ms"] / 1e3), {k: m.get(k) for k in ("paths", "steps", "asserts", "asserts_sym", "queries", "sat", "unsat", "unary", "by_model", "cached")}, "solver %.1f s" % (m.get("solver_us", 0) / 1e6), "maxq %.1f" % (m.get("solver_max_us", 0) / 1e6))
    print("   ends", m.get("ends"), "reached", m.get("reached"), "INCOMPLETE" if m.get("incomplete") else "", m.get("incomplete") or "", "VIOL", m.get("viol_count"))
    if forks:
        fk = {}
        for p in d["parts"]:
            for k, v in p.get("forks", []): fk[k] = fk.get(k, 0) + v
        for k, v in sorted(fk.items(), key=lambda x: -x[1])[:forks]: print("   fork", v, k)
    seen = {}
    for v in m.get("violations", []):
        k = (v["id"], v["detail"])
        seen[k] = seen.get(k, 0) + 1
        if seen[k] > 2 or sum(1 for _ in seen) > show: continue
        r = ""
        if nat:
            rc, lines = vlib.native(binr, e, vlib.replay_text(v)); r = "REPRODUCES" if vlib.reproduces(v, rc, lines) else "NOT REPRODUCED " + str(lines[-6:])
        print("   V", v["id"], v["detail"], [(n, vlib.show(h)) for n, h in v["inputs"]], v["choices"], v["known"], r)
    ok = bad = 0
    if nat:
        for w in m.get("witnesses", []):
            if w["end"] == "assume": continue
            rc, lines = vlib.native(binr, e, vlib.replay_text(w))
            if vlib.agrees(w, rc, lines): ok += 1
            else:
                bad += 1
                if bad == 1: print("   DISAGREE", vlib.replay_text(w)[:500], w["end"], w["notes"], lines[-6:])
        print("   witnesses ok %d bad %d (of %d)" % (ok, bad, len(m.get("witnesses", []))))
    if show > 6:
        for w in m.get("witnesses", [])[:show]: print("   W", w["end"], [(n, vlib.show(h)) for n, h in w["inputs"]], w["choices"], [(n, vlib.show(h)) for n, h in w["notes"]])
