#!/usr/bin/env python3
"""seed.py [ID...]: (re)build /verif/seeded/<id> from tools/seeds.py, confirming each in a scratch copy of /repo."""
import sys, os, json, subprocess, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS
SC = "/tmp/sc"
def sh(c, cwd=None):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
DEMO = r'''#!/bin/bash
# cwd: the repository under test.  Builds demo.rs against it in a scratch directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
work="$(mktemp -d)"; trap 'rm -rf "$work"' EXIT
mkdir "$work/src"; cp "$here/demo.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
static-math = { path = "$repo" }
num = { version = "0.4", default-features = false }
[workspace]
T
cp "$repo/Cargo.lock" "$work/" 2>/dev/null
cd "$work" && CARGO_TARGET_DIR="$work/t" cargo run -q --offline
'''
PRE = '''#![allow(unused)]
use static_math::*;
use static_math::traits::LinearAlgebra;
use static_math::utils::*;
use static_math::transformations::*;
fn near(a: f64, b: f64) -> bool { (a - b).abs() < 1e-9 }
fn close(d: f64, t: f64) -> bool { d.abs() < t }
'''
def main():
    want = sys.argv[1:]
    for s in SEEDS:
        if want and s["id"] not in want: continue
        sid = s["id"]
        sh(f"rm -rf {SC}; cp -a /repo {SC}; cd {SC} && git checkout -q -- . ")
        for f, old, new in s["edits"]:
            p = f"{SC}/src/{f}"; t = open(p).read()
            n = t.count(old)
            if n != 1: print(sid, "EDIT MATCHES", n, repr(old)); break
            open(p, "w").write(t.replace(old, new))
        else:
            out = f"/tmp/seedout/{sid}"; sh(f"rm -rf {out}; mkdir -p {out}")
            open(f"{out}/patch.diff", "w").write(sh("git diff", SC).stdout)
            dep = 'static-math = { path = "$repo" }'
            open(f"{out}/demo.sh", "w").write(DEMO.replace(dep, s.get("dep") or dep).replace("num = { version = \"0.4\", default-features = false }\n", "" if s.get("dep") else "num = { version = \"0.4\", default-features = false }\n"))
            open(f"{out}/demo.rs", "w").write(s.get("pre", PRE) + s["demo"])
            json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["what"]), open(f"{out}/meta.json", "w"), indent=1)
            r = sh(f"cargo test --workspace --no-fail-fast --offline 2>&1 | grep -E 'test result|FAILED|^error' ", SC)
            bad = [l for l in r.stdout.splitlines() if "FAILED" in l or "error" in l]
            d1 = sh(f"bash {out}/demo.sh", SC)
            d0 = sh(f"bash {out}/demo.sh", "/repo")
            ok = not bad and d0.returncode == 0 and d1.returncode != 0 and ("could not compile" not in d1.stdout or s["prop"] == "C32")
            print(sid, "OK" if ok else "REJECTED", bad[:3], "clean", d0.returncode, "bug", d1.returncode)
            if not ok: print("  clean:", d0.stdout[-600:], "\n  bug:", d1.stdout[-600:])
            if ok:
                sh(f"mkdir -p /verif/seeded; rm -rf /verif/seeded/{sid}; cp -r {out} /verif/seeded/{sid}")
    sh(f"rm -rf {SC} /tmp/seedout; git -C /repo status --short")
main()
