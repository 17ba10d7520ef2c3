"""Shared machinery of the checks: build, run the symbolic executor, replay, report."""
import fcntl, json, os, subprocess, sys, time, shutil

V = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(V, "harness")
TRIPLE = "x86_64-unknown-linux-gnu"
VSYM = os.path.join(V, "engine/target/release/vsym")
TC = "stable-x86_64-unknown-linux-gnu"

def env(native=False):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUSTC_WRAPPER="")
    e["RUSTFLAGS"] = "--cap-lints warn" if native else "--cap-lints warn -Clinker-plugin-lto -Cno-vectorize-loops -Cno-vectorize-slp"
    for k in list(e):
        if k.startswith("CARGO_PROFILE_") or k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"): del e[k]
    return e

def fail(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)

def cargo(args, native):
    p = subprocess.run(["cargo"] + args, cwd=H, env=env(native), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        errs = []
        for l in p.stdout.splitlines():
            try: m = json.loads(l)
            except ValueError: continue
            if m.get("reason") == "compiler-message" and m["message"]["level"] == "error": errs.append(m["message"]["rendered"])
        fail("the build of the harness against /repo failed:\n" + "\n".join(errs)[-3000:] + p.stderr[-3000:])
    return p.stdout

def build_engine():
    e = env(True); e["RUSTFLAGS"] = ""
    p = subprocess.run(["cargo", "build", "--release", "--offline"], cwd=os.path.join(V, "engine"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0: fail("the build of the engine failed:\n" + p.stdout[-3000:])

class Lock:
    def __enter__(self):
        os.makedirs(os.path.join(H, "target"), exist_ok=True)
        self.f = open(os.path.join(H, "target/.vlock"), "w"); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

def freshen():
    """Forces a rebuild of the crate when its sources differ from those last built here, whatever their time stamps."""
    import hashlib
    h = hashlib.sha256()
    for top in ("/repo/src", "/repo/Cargo.toml", os.path.join(H, "src"), os.path.join(H, "Cargo.toml")):
        fs = [top] if os.path.isfile(top) else sorted(os.path.join(d, f) for d, _, ff in os.walk(top) for f in ff)
        for f in fs: h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    stamp = os.path.join(H, "target/.src-hash")
    if os.path.exists(stamp) and open(stamp).read() == h.hexdigest(): return
    for d in (os.path.join(H, "target", TRIPLE, "release/.fingerprint"), os.path.join(H, "target/nat", TRIPLE, "native/.fingerprint")):
        if os.path.isdir(d):
            for n in os.listdir(d):
                if n.startswith(("s3-server-", "vharness-", "vserver-")): shutil.rmtree(os.path.join(d, n), ignore_errors=True)
    open(stamp, "w").write(h.hexdigest())

def build_bitcode(features=""):
    """Compiles /repo's crate, its dependencies and the harness to bitcode; returns the list of archives, harness first."""
    out = cargo(["build", "--offline", "--lib", "--release", "--features", features, "--target", TRIPLE, "--message-format=json"], False)
    libs, mine = [], None
    for l in out.splitlines():
        try: m = json.loads(l)
        except ValueError: continue
        if m.get("reason") != "compiler-artifact": continue
        for f in m["filenames"]:
            if f.endswith(".rlib") and "/" + TRIPLE + "/" in f:
                if m["target"]["name"] == "vharness": mine = f
                else: libs.append(f)
    d = os.path.join(H, "target", TRIPLE, "release", "deps")
    out = []
    for f in [mine] + libs:
        # cargo lists the uplifted copy of the root crate
        out.append(f)
    sr = subprocess.run(["rustc", "--print", "sysroot"], env=env(), stdout=subprocess.PIPE, text=True).stdout.strip()
    s = os.path.join(sr, "lib/rustlib", TRIPLE, "lib")
    out += sorted(os.path.join(s, f) for f in os.listdir(s) if f.endswith(".rlib"))
    return out

def build_native(features=""):
    cargo(["build", "--offline", "--bin", "replay", "--features", "native " + features, "--profile", "native", "--target", TRIPLE, "--target-dir", os.path.join(H, "target/nat"), "--message-format=json"], True)
    return os.path.join(H, "target/nat", TRIPLE, "native/replay")

def symex(libs, entry, opts, outfile):
    lst = outfile + ".libs"
    open(lst, "w").write("\n".join(libs) + "\n")
    cmd = [VSYM, "--entry", entry, "--out", outfile, "--focus", "s3_server"]
    for k, v in opts.items(): cmd += ["--" + k.replace("_", "-"), str(v)]
    cmd.append("@" + lst)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(os.environ, RUST_BACKTRACE="0"))
    if p.returncode != 0 or not os.path.exists(outfile): fail("vsym failed on %s: %s" % (entry, (p.stdout + p.stderr)[-2000:]))
    return json.load(open(outfile)), " ".join(cmd[:-1]) + " @<archives>"

def merge(d):
    t = {}
    for p in d["parts"]:
        for k, v in p.items():
            if isinstance(v, bool): continue
            if isinstance(v, int):
                if k in ("max_steps", "solver_max_us", "modules", "functions_total"): t[k] = max(t.get(k, 0), v)
                else: t[k] = t.get(k, 0) + v
            elif isinstance(v, dict):
                e = t.setdefault(k, {})
                for a, b in v.items(): e[a] = e.get(a, 0) + b
            elif isinstance(v, list) and k in ("violations", "witnesses"): t.setdefault(k, []).extend(v)
            elif isinstance(v, list) and k == "functions": t[k] = sorted(set(t.get(k, [])) | set(v))
    return t

def replay_text(x):
    return "".join("I\t%s\t%s\n" % (n, h) for n, h in x["inputs"]) + "".join("C\t%s\t%d\n" % (n, k) for n, k in x["choices"])

def native(binary, entry, text):
    try: p = subprocess.run([binary, entry], input=text, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60)
    except subprocess.TimeoutExpired: return 99, ["TIMEOUT"]
    return p.returncode, p.stdout.splitlines()

def reproduces(v, rc, lines):
    if v["id"] == "panic": return any(l.startswith("PANIC") for l in lines) or rc < 0
    return ("FAIL " + v["id"]) in lines

def agrees(w, rc, lines):
    """Does the native run of a path's inputs follow the path the executor predicted?"""
    if any(l.startswith("MISMATCH") for l in lines): return False
    e = w["end"]
    if e == "panic": return any(l.startswith("PANIC") for l in lines)
    if e.startswith("assert:"): return ("FAIL " + e[7:]) in lines
    if e == "assume": return "ASSUME" in lines
    got = [l.split(" ", 2)[1:] for l in lines if l.startswith("NOTE ")]
    got = [(a[0], a[1] if len(a) > 1 else "") for a in got]
    return "END" in lines and got == [(a, b) for a, b in w["notes"]]

def show(hexs):
    b = bytes.fromhex(hexs)
    if len(b) > 96: return show(hexs[:160]) + "...(%d bytes)" % len(b)
    return b.decode("latin-1").encode("unicode_escape").decode()
