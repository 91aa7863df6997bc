#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ (patch.diff, demo.sh, demo.rs, meta.json) from the table of planted
changes in seeded_table.py. Usage: gen_seeded.py [ID...]"""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(__file__))
from seeded_table import BUGS, PREAMBLE

OUT = "/verif/seeded"

DEMO = r'''#!/bin/bash
# Builds CRATE of the current directory's tree, with demo.rs as its only integration test, in a
# scratch directory, and runs it. Exit 0 when the demonstration passes.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
crate=@CRATE@
export HOME=/root PATH=/root/.cargo/bin:$PATH
if [ -f /opt/vp/common.sh ]; then . /opt/vp/common.sh; fi
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
for d in "$repo"/*/; do
    d=$(basename "$d")
    mkdir -p "$work/$d"
    (cd "$repo/$d" && tar -cf - --exclude=./target .) | tar -xf - -C "$work/$d" || exit 2
done
cd "$work/$crate" || exit 2
locked=--locked
if grep -qE '^[A-Za-z0-9_-]+ *= *\{ *git *=' Cargo.toml; then
    sed -i -E '/^[A-Za-z0-9_-]+ *= *\{ *git *=/d' Cargo.toml
    locked=
fi
sed -i -E 's/^crate-type = \["cdylib"\]/crate-type = ["cdylib", "rlib"]/' Cargo.toml
if [ $crate = state-manipulation ]; then # its sandbox test needs the network
    sed -i '/^\[dev-dependencies\]/,/^$/d' Cargo.toml
    locked=
fi
rm -rf tests; mkdir -p tests; cp "$here/demo.rs" tests/vp_demo.rs
timeout 280 cargo test --offline $locked --test vp_demo -- --test-threads 1
'''

def main():
    want = sys.argv[1:]
    work = tempfile.mkdtemp()
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "list"], stdout=subprocess.DEVNULL)
        subprocess.check_call(f"git -C /repo archive HEAD | tar -xf - -C {work}", shell=True)
        subprocess.check_call("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm base",
                              shell=True, cwd=work)
        for b in BUGS:
            if want and b["id"] not in want:
                continue
            for path, old, new in b["edits"]:
                p = os.path.join(work, path)
                s = open(p).read()
                if s.count(old) != 1:
                    raise SystemExit(f"{b['id']}: {path}: {s.count(old)} matches for {old!r}")
                open(p, "w").write(s.replace(old, new))
            diff = subprocess.check_output(["git", "diff"], cwd=work)
            subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=work)
            d = os.path.join(OUT, b["id"])
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            open(d + "/patch.diff", "wb").write(diff)
            open(d + "/demo.sh", "w").write(DEMO.replace("@CRATE@", b["crate"]))
            os.chmod(d + "/demo.sh", 0o755)
            pre = PREAMBLE[b.get("pre", b["crate"])]
            open(d + "/demo.rs", "w").write(pre + "\n" + b["demo"].strip("\n") + "\n")
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]},
                      open(d + "/meta.json", "w"), indent=1)
            print(b["id"])
    finally:
        shutil.rmtree(work)
main()
