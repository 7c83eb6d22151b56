#!/usr/bin/env python3
"""Builds and verifies planted bugs: python3 tools/mkseed.py DEFS.py [id...]
DEFS.py sets SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=rust main body, deps)].
Works on a scratch copy of /repo in /tmp; writes seeded/<id>/ only when the bug
compiles, passes the 64 tests, and the demo tells the trees apart."""
import json, os, re, shutil, subprocess, sys
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
BASE = "5fdf62f"
W = "/tmp/seeds/work"

def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

DEMO = """#!/bin/bash
# exit 0 when the behaviour holds, nonzero when it is broken; run with cwd = /repo
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here"/*.rs "$work/src/"
cp "$here/Cargo.lock.txt" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<TOML
[package]
name = "harness"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
qlab-error = { path = "$repo/crates/qlab-error" }
qlab-time = { path = "$repo/crates/qlab-time" }
qlab-math = { path = "$repo/crates/qlab-math" }
qlab-termstructure = { path = "$repo/crates/qlab-termstructure" }
qlab-instrument = { path = "$repo/crates/qlab-instrument" }
calendar = { path = "$repo/third-parties/calendar" }
chrono = "0.4.38"
num-traits = "0.2"
TOML
cd "$work" || exit 1
unset RUSTFLAGS
CARGO_TARGET_DIR="$work/target" cargo build --offline -q 2> err.txt || { tail -20 err.txt; exit 1; }
timeout 120 ./target/debug/harness
"""
PRE = """#![allow(unused_imports)]
use chrono::NaiveDate;
use calendar::Calendar as _;
use qlab_time::date::Date;
fn nd(y: i32, m: u32, d: u32) -> NaiveDate { NaiveDate::from_ymd_opt(y, m, d).unwrap() }
fn qd(y: i32, m: u32, d: u32) -> Date { Date::from_ymd(y, m, d).unwrap() }
"""

def demo(d, repo):
    return sh(f"bash {d}/demo.sh", cwd=repo)

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    if not os.path.exists(W):
        os.makedirs("/tmp/seeds", exist_ok=True)
        sh(f"cp -a /repo {W}")
    for s in ns["SEEDS"]:
        if want and s["id"] not in want:
            continue
        out = f"{V}/seeded/{s['id']}"
        tmp = f"/tmp/seeds/out/{s['id']}"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=W)
        bad = None
        for f, a, b in s["edits"]:
            p = f"{W}/{f}"
            t = open(p).read()
            if t.count(a) != 1:
                bad = f"{t.count(a)} matches of {a!r} in {f}"
                break
            open(p, "w").write(t.replace(a, b))
        if bad:
            print(s["id"], "EDIT", bad); continue
        diff = sh("git diff", cwd=W).stdout
        # every removed line must be of the original commit
        mine = 0
        orig = 0
        for f in {e[0] for e in s["edits"]}:
            bl = sh(f"git blame -s {BASE}.. -- {f}; true", cwd=W).stdout
            lines = sh(f"git blame -l -s HEAD -- {f}", cwd=W).stdout.splitlines()
            hunks = re.findall(r"^@@ -(\d+)(?:,(\d+))? ", sh(f"git diff -U0 -- {f}", cwd=W).stdout, re.M)
            for a, n in hunks:
                n = int(n) if n else 1
                for k in range(int(a), int(a) + n):
                    if lines[k - 1].startswith("^"):
                        orig += 1
                    else:
                        mine += 1
        open(f"{tmp}/patch.diff", "w").write(diff)
        open(f"{tmp}/demo.sh", "w").write(DEMO)
        os.chmod(f"{tmp}/demo.sh", 0o755)
        open(f"{tmp}/main.rs", "w").write(PRE + s["demo"].strip() + "\n")
        for src in s.get("files", []):
            shutil.copy(f"{V}/{src}", tmp)
        shutil.copy(f"{V}/harness/Cargo.lock", f"{tmp}/Cargo.lock.txt")
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{tmp}/meta.json", "w"), indent=1)
        t = sh("CARGO_TARGET_DIR=/tmp/seeds/target cargo test --offline --workspace 2>&1 | grep -E '^test |^error|test result: F|warning: unused'", cwd=W)
        ok = len(re.findall(r"^test .* ok$", t.stdout, re.M))
        if "FAILED" in t.stdout or "error" in t.stdout:
            print(s["id"], "TESTS", ok, t.stdout[-600:]); continue
        c = demo(tmp, "/repo")
        if c.returncode:
            print(s["id"], "DEMO FAILS ON CLEAN", c.stdout[-1500:]); continue
        p = demo(tmp, W)
        if p.returncode == 0 or "could not compile" in p.stdout:
            print(s["id"], "DEMO", p.returncode, p.stdout[-500:]); continue
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(tmp, out)
        print(s["id"], f"ok ({ok} tests, {orig} original lines, {mine} others): {p.stdout.strip().splitlines()[-1][:120] if p.stdout.strip() else p.returncode}")

main()
