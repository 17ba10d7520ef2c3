#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's current working tree."""
import json, os, sys, time, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from specs import SPECS

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    spec = SPECS[pid]
    t0 = time.time()
    known = {}
    for k in json.load(open(os.path.join(vlib.V, "known_findings.json")))["known"]:
        if k["property"] == pid: known[(k["tag"], k["assertion"])] = k
    with vlib.Lock():
        vlib.freshen()
        if not os.path.exists(vlib.VSYM): vlib.build_engine()
        with ThreadPoolExecutor(2) as ex:
            a, b = ex.submit(vlib.build_bitcode, spec.get("features", "")), ex.submit(vlib.build_native, spec.get("features", ""))
            libs, replay = a.result(), b.result()
        t_build = time.time() - t0
        tmp = tempfile.mkdtemp(prefix="vsym-")
        # private copies: another check may rebuild while this one runs
        keep = os.path.join(tmp, "replay"); shutil.copy2(replay, keep)
        cp = []
        for i, l in enumerate(libs):
            if vlib.H in l and i < 1 or "libs3_server" in l or "libvserver" in l: d = os.path.join(tmp, "%d-%s" % (i, os.path.basename(l))); shutil.copy2(l, d); cp.append(d)
            else: cp.append(l)
    try: run(pid, tier, spec, known, cp, keep, tmp, t0, t_build)
    finally: shutil.rmtree(tmp, ignore_errors=True)

def run(pid, tier, spec, known, libs, replay, tmp, t0, t_build):
    ents, errors, partial, new, knownhits = [], [], [], [], {}
    limit = 780 if tier == "quick" else 6 * 3600
    tot = {"paths": 0, "steps": 0, "asserts": 0, "asserts_sym": 0, "queries": 0, "sat": 0, "unsat": 0, "cached": 0, "unary": 0, "by_model": 0, "solver_us": 0, "validated": 0}
    funcs, samples, cmds = set(), [], []
    for e in spec["entries"]:
        o = dict(jobs=8, secs=spec.get("secs", 600), witnesses=24, query_ms=60000)
        o.update(e.get("opts", {}))
        entry = e["entry"]
        if tier == "thorough":
            o.update(e.get("thorough", {}))
            if e.get("thorough_entry"): entry = e["thorough_entry"]
        elif e.get("thorough_only"): continue
        o["secs"] = max(10, min(int(o["secs"]), int(limit - (time.time() - t0))))
        d, cmd = vlib.symex(libs, entry, o, os.path.join(tmp, entry + ".json"))
        m = vlib.merge(d)
        cmds.append(cmd)
        for k in tot: tot[k] += m.get(k, 0)
        funcs |= set(m.get("functions", []))
        if m.get("incomplete"): partial.append("%s: exploration incomplete: %s" % (entry, m["incomplete"]))
        for r in e.get("reach", []):
            if not m.get("reached", {}).get(r): errors.append("%s: never reached '%s' (vacuous)" % (entry, r))
        for v in m.get("violations", []):
            tags = [t for t in v["known"] if (t, v["id"]) in known]
            if tags: knownhits.setdefault((tags[0], v["id"]), (entry, v)); continue
            new.append((entry, v))
        if new: limit = min(limit, time.time() - t0 + 150)  # it is clear that something is wrong
        ok = bad = 0
        ws = [w for w in m.get("witnesses", []) if w["end"] != "assume"]
        ws = ws[::(len(ws) + 63) // 64] if len(ws) > 64 else ws
        for w in ws:
            rc, lines = vlib.native(replay, entry, vlib.replay_text(w))
            if vlib.agrees(w, rc, lines): ok += 1
            else:
                bad += 1
                if bad == 1: errors.append("%s: native run disagrees with the executor on inputs %s: predicted %s %s, got %s" % (entry, vlib.replay_text(w), w["end"], w["notes"], lines[-6:]))
        tot["validated"] += ok
        for w in m.get("witnesses", [])[:2]: samples.append({"entry": entry, "inputs": {n + "#%d" % i: vlib.show(h) for i, (n, h) in enumerate(w["inputs"])}, "choices": w["choices"], "ends": w["end"]})
        ents.append({"entry": entry, "paths": m.get("paths", 0), "ends": m.get("ends", {}), "reached": m.get("reached", {}), "assertions": m.get("assert_ids", {}), "instructions": m.get("steps", 0), "queries": m.get("queries", 0), "solver_s": m.get("solver_us", 0) / 1e6, "wall_s": d["wall_ms"] / 1e3, "witness_replays": ok})
    viols = 0
    # a listed finding has to reproduce natively too
    for (tag, aid), (entry, v) in sorted(knownhits.items()):
        rc, lines = vlib.native(replay, entry, vlib.replay_text(v))
        k = known[(tag, aid)]
        if vlib.reproduces(v, rc, lines): print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        else: errors.append("known finding %s does not reproduce natively: %s" % (tag, lines[-4:]))
    rd = os.path.join(vlib.V, "replays", pid)
    shutil.rmtree(rd, ignore_errors=True)
    seen, tried = set(), {}
    for entry, v in new:
        if (entry, v["id"]) in seen or tried.get((entry, v["id"]), 0) >= 12: continue
        tried[(entry, v["id"])] = tried.get((entry, v["id"]), 0) + 1
        rc, lines = vlib.native(replay, entry, vlib.replay_text(v))
        if not vlib.reproduces(v, rc, lines):
            errors.append("counterexample to '%s' (%s) in %s does not reproduce natively: %s -> %s" % (v["id"], v["detail"], entry, vlib.replay_text(v), lines[-6:]))
            continue
        seen.add((entry, v["id"]))
        os.makedirs(rd, exist_ok=True)
        f = os.path.join(rd, "%d.json" % viols)
        json.dump({"property": pid, "entry": entry, "assertion": v["id"], "detail": v["detail"], "stdin": vlib.replay_text(v), "inputs": {n + "#%d" % i: vlib.show(h) for i, (n, h) in enumerate(v["inputs"])}, "choices": v["choices"], "native_output": lines[-40:], "how": "python3 /verif/replay.py " + f}, open(f, "w"), indent=1)
        viols += 1
        print("violated: %s %s in %s; inputs %s choices %s" % (v["id"], v["detail"], entry, [(n, vlib.show(h)) for n, h in v["inputs"]], v["choices"]))
        print("VIOLATION property=%s replay=%s" % (pid, f), flush=True)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": {"states": tot["paths"], "transitions": tot["steps"], "traces_validated_against_impl": tot["validated"], "samples": samples[:12],
                       "explanation": "states: symbolic paths (path conditions) explored to their end; transitions: LLVM instructions executed symbolically; traces_validated_against_impl: solver models of paths replayed against the natively compiled crate with the same notes and ending",
                       "entries": ents, "assertions_checked": tot["asserts"], "assertions_over_symbolic_values": tot["asserts_sym"],
                       "smt_queries": tot["queries"], "smt_sat": tot["sat"], "smt_unsat": tot["unsat"], "queries_answered_from_cache": tot["cached"], "single_byte_decisions": tot["unary"], "answered_by_current_model": tot["by_model"], "solver_s": tot["solver_us"] / 1e6,
                       "functions_encoded": sorted(funcs), "functions_encoded_count": len(funcs), "bounds": spec["bounds"], "outside": spec.get("outside", ""), "build_s": round(t_build, 1), "commands": cmds, "exhaustive": not partial, "not_explored": partial},
          "assumptions": spec.get("assumptions", []) + COMMON, "wall_s": round(time.time() - t0, 1), "violations": viols}
    os.makedirs(os.path.join(vlib.V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(vlib.V, "evidence", pid + ".json"), "w"), indent=1)
    for e in partial: print("WARNING: " + e[:3000])
    for e in errors: print("ERROR: " + e[:3000])
    print("%s %s: %d paths, %d instructions, %d SMT queries (%.1f s in the solver), %d native replays, %.1f s" % (pid, tier, tot["paths"], tot["steps"], tot["queries"], tot["solver_us"] / 1e6, tot["validated"], time.time() - t0), flush=True)
    sys.exit(1 if viols else 2 if errors else 0)

COMMON = ["the LLVM bitcode rustc emits for the crate and its dependencies means what the machine code does; vsym interprets it faithfully (its path models are replayed natively on every run)",
          "SHA-256 and MD5 compression are treated as collision-free functions", "async-fs runs inline (stub of the blocking crate), the C library's file calls act on an in-memory file system without symbolic links",
          "memory allocation succeeds", "Z3 answers correctly"]
main()
