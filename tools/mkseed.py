#!/usr/bin/env python3
"""mkseed.py FILE.py: writes /verif/seeded/<id>/ for each planted bug in FILE (list SEEDS of dicts: id, property, edits [(file, old, new)], demo (rust main body), needs, breaks),
   after checking in a scratch copy of /repo that it builds, passes the stable tests, and that the demo tells the two apart."""
import sys, os, json, subprocess, shutil, tempfile
ns = {}; exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
DEMO = """#!/bin/bash
# cwd: the repository; exit 0 when the behaviour is right
set -e
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
t=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"; cp "$here/demo.rs" "$t/src/main.rs"
printf '[package]\\nname = "demo"\\nversion = "0.0.0"\\nedition = "2021"\\n[dependencies]\\npuruspe = { path = "%s" }\\n[workspace]\\n' "$repo" > "$t/Cargo.toml"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cd "$t" && CARGO_TARGET_DIR="$t/target" timeout 250 cargo run --offline -q --release
"""
PRE = """#![allow(unused)]
use puruspe::*;
fn close(a: f64, b: f64, rel: f64) { assert!((a - b).abs() <= rel * b.abs(), "{a} is not {b}"); }
fn main() {
%s
}
"""
OUT = "/verif/seeded"
base = json.load(open("/opt/vp/BASELINE.json"))
def sh(c, cwd, **k): return subprocess.run(c, cwd=cwd, capture_output=True, text=True, **k)
for s in ns["SEEDS"]:
    if only and s["id"] not in only: continue
    d = os.path.join(OUT, s["id"])
    w = "/tmp/seedrepo"; shutil.rmtree(w, ignore_errors=True); sh(["cp", "-a", "/repo", w], "/")
    sh(["git", "checkout", "-q", "--", "."], w)
    os.makedirs(d, exist_ok=True)
    if "demo" in s: open(os.path.join(d, "demo.rs"), "w").write(PRE % s["demo"].strip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(s.get("demo_sh") or DEMO); os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    ok = True; msg = []
    r = sh(["bash", os.path.join(d, "demo.sh")], w)
    if r.returncode != 0: ok = False; msg.append("demo fails on the clean tree: " + r.stderr[-400:])
    for f, old, new in s["edits"]:
        p = os.path.join(w, f); t = open(p).read()
        if t.count(old) != 1: ok = False; msg.append("%d matches of %r" % (t.count(old), old)); continue
        open(p, "w").write(t.replace(old, new))
    diff = sh(["git", "diff"], w).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    r = sh(["timeout", "120", "cargo", "test", "--offline", "-q", "--no-fail-fast"], w)
    if r.returncode == 124 or "test result: FAILED" in r.stdout or "error" in r.stderr.lower(): ok = False; msg.append("tests: " + r.stdout[-600:] + r.stderr[-300:])
    r = sh(["bash", os.path.join(d, "demo.sh")], w)
    if r.returncode == 0: ok = False; msg.append("demo passes with the patch")
    print(s["id"], "ok" if ok else "BAD", *msg, flush=True)
    if not ok and not os.environ.get("KEEP"): shutil.rmtree(d)
    shutil.rmtree(w, ignore_errors=True)
