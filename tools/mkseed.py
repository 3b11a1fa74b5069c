#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE  <<'X' : development tool. stdin: JSON {subs:[[file,old,new]..], needs, breaks, demo}; writes seeded/ID."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# cwd: the repository. Compiles the crate and demo.rs (beside this file) into a scratch directory and runs it.
set -e
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
flags="%s"
rustc --edition 2021 -A warnings -O -C debug-assertions=off $flags --crate-type rlib --crate-name vers_vecs src/lib.rs -o "$scratch/libvers_vecs.rlib"
rustc --edition 2021 -A warnings -O $flags "$here/demo.rs" --extern vers_vecs="$scratch/libvers_vecs.rlib" -o "$scratch/demo"
timeout 120 "$scratch/demo"
'''
def make(id, prop, subs, needs, breaks, demo, flags=""):
    d = V + "/seeded/" + id
    os.makedirs(d, exist_ok=True)
    assert subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout == ""
    try:
        for f, a, b in subs:
            p = "/repo/" + f
            s = open(p).read()
            assert s.count(a) == 1, (id, f, s.count(a), a)
            open(p, "w").write(s.replace(a, b))
        diff = subprocess.run("git -C /repo diff", shell=True, capture_output=True, text=True).stdout
    finally:
        subprocess.run("git -C /repo checkout -- .", shell=True, capture_output=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO % flags)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.rs", "w").write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
