#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the list below (patch.diff against /repo's HEAD, demo.sh, main.rs, meta.json)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
DEMO = r'''#!/bin/bash
# run in the repository after the build; exits 0 when the property holds for the inputs of main.rs
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\npuruspe = { path = "%s" }\n[workspace]\n' "$R" >"$T/Cargo.toml"
cp "$R/Cargo.lock" "$T/Cargo.lock" 2>/dev/null || true
cd "$T" && CARGO_TARGET_DIR="$T/target" cargo run --offline --quiet 2>&1
'''
SEEDS = []
def seed(id, prop, file, subs, needs, breaks, main):
    SEEDS.append((id, prop, file, subs, needs, breaks, main))
exec(open(os.path.join(V, "tools", "seeds.py")).read())
HEAD = '''#![allow(unused)]
use puruspe::*;
fn rel(name: &str, got: f64, want: f64, tol: f64) {
    if !((got - want).abs() <= tol * want.abs()) {
        println!("{name} = {got:e}, expected {want:e}");
        std::process::exit(1);
    }
}
fn abs(name: &str, got: f64, want: f64, tol: f64) {
    if !((got - want).abs() <= tol) {
        println!("{name} = {got:e}, expected {want:e}");
        std::process::exit(1);
    }
}
fn ok(name: &str, c: bool) {
    if !c {
        println!("{name} fails");
        std::process::exit(1);
    }
}
'''
only = sys.argv[1:]
for id, prop, file, subs, needs, breaks, main in SEEDS:
    if only and id not in only:
        continue
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    s = open("/repo/" + file).read()
    t = s
    for a, b in subs:
        assert t.count(a) == 1, (id, a, t.count(a))
        t = t.replace(a, b)
    with tempfile.TemporaryDirectory() as tmp:
        for n, x in (("a", s), ("b", t)):
            p = os.path.join(tmp, n, file)
            os.makedirs(os.path.dirname(p))
            open(p, "w").write(x)
        r = subprocess.run(["diff", "-u", "a/" + file, "b/" + file], cwd=tmp, capture_output=True, text=True).stdout
    lines = r.splitlines(keepends=True)
    lines[0], lines[1] = f"--- a/{file}\n", f"+++ b/{file}\n"
    open(os.path.join(d, "patch.diff"), "w").write("".join(lines))
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "main.rs"), "w").write(HEAD + "fn main() {\n" + main.strip("\n") + "\n}\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
