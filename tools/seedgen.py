#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in seeds.py.  Usage: seedgen.py [ID...]
Run by hand; no check uses it."""
import json, os, pathlib, subprocess, sys, tempfile
here = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(here))
from seeds import SEEDS
DEMO = r'''#!/bin/bash
# exit 0: the server behaves; otherwise it does not.  Works on a copy, data in a scratch directory.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 2
trap 'rm -rf -- "$work"' EXIT
mkdir -p "$work/pkg/tests/common" "$work/data"
cp -r "$repo/Cargo.toml" "$repo/Cargo.lock" "$repo/src" "$work/pkg/"
cp "$here/demo.rs" "$work/pkg/tests/demo.rs"
cp "$here/common.rs" "$work/pkg/tests/common/mod.rs"
export PATH=/usr/local/bin:/usr/bin:/bin:${PATH:-}
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only
export CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS="--cap-lints warn"
export CARGO_TARGET_DIR="${DEMO_TARGET:-$repo/target}" DEMO_ROOT="$work/data"
cd "$work/pkg" || exit 2
timeout 280 cargo test --offline --all-features --test demo -- --test-threads=1
'''
def main():
    for sid, s in SEEDS.items():
        if sys.argv[1:] and sid not in sys.argv[1:]: continue
        d = here.parent / "seeded" / sid
        d.mkdir(parents=True, exist_ok=True)
        with tempfile.TemporaryDirectory() as t:
            subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
            subprocess.run("git -C /repo archive HEAD src | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % (t, t), shell=True, check=True)
            for f, old, new in s["edits"]:
                n, tup = 1, isinstance(old, tuple)
                if tup: old, n = old
                p = pathlib.Path(t, f); x = p.read_text()
                parts = x.split(old)
                assert len(parts) > n and (tup or len(parts) == 2), (sid, f, len(parts) - 1, old)
                p.write_text(old.join(parts[:n]) + new + old.join(parts[n:]))
            diff = subprocess.run(["git", "diff"], cwd=t, capture_output=True, text=True, check=True).stdout
        (d / "patch.diff").write_text(diff)
        (d / "demo.sh").write_text(DEMO); (d / "demo.sh").chmod(0o755)
        (d / "common.rs").write_text((here / "common.rs").read_text())
        (d / "demo.rs").write_text("mod common;\nuse common::*;\n\n" + s["demo"].strip() + "\n")
        (d / "meta.json").write_text(json.dumps({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
main()
