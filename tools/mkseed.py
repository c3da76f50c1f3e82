#!/usr/bin/env python3
"""mkseed.py SPEC.py: spec defines id, property, needs, breaks, edits=[(file, old, new)], main (rust source of the demonstration)"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
algebraics = { path = "$repo" }
num-bigint = "0.4"
num-rational = "0.4"
num-integer = "0.1"
num-traits = "0.2"
T
cd "$d" && CARGO_TARGET_DIR="$d/target" cargo run --offline -q
'''
def make(sp):
    for (f, o, n) in sp["edits"]:
        p = "/repo/" + f
        t = open(p).read()
        assert t.count(o) == 1, (sp["id"], f, t.count(o))
        open(p, "w").write(t.replace(o, n))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    d = os.path.join(V, "seeded", sp["id"])
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/main.rs", "w").write(sp["main"])
    json.dump({"property": sp["property"], "needs": sp["needs"], "what_it_breaks": sp["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print("made", sp["id"])
for f in sys.argv[1:]:
    g = {}
    exec(open(f).read(), g)
    for sp in g["SEEDS"]:
        make(sp)
