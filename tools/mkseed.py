#!/usr/bin/env python3
"""Development aid: makes /verif/seeded/<id>/ from a textual replacement, after confirming in a scratch copy that the
change builds, passes the stable tests, and that the demonstration tells the two trees apart.
usage: mkseed.py SPEC.json   (id, property, file, old, new, needs, what_it_breaks, demo = Rust main body)"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# builds demo.rs against the crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export RUSTUP_TOOLCHAIN=nightly-2026-08-21-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
t=$(mktemp -d)
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
stroke = { path = "$repo" }
X
CARGO_TARGET_DIR="$t/target" timeout 250 cargo run --offline -q --manifest-path "$t/Cargo.toml"
rc=$?
rm -rf "$t"
exit $rc
'''


def main():
    s = json.load(open(sys.argv[1]))
    d = os.path.join(V, "seeded", s["id"])
    w = tempfile.mkdtemp(prefix="seed_")
    r = os.path.join(w, "repo")
    subprocess.check_call(["git", "clone", "-q", "/repo", r])
    shutil.copy("/repo/Cargo.lock", r)
    for f, old, new in s.get("edits", [[s.get("file"), s.get("old"), s.get("new")]]):
        p = os.path.join(r, f)
        t = open(p).read()
        if t.count(old) != 1:
            print("FAIL: old text occurs", t.count(old), "times"); shutil.rmtree(w); sys.exit(1)
        open(p, "w").write(t.replace(old, new))
    patch = subprocess.check_output(["git", "-C", r, "diff"], text=True)
    blame_ok(r, patch)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.rs"), "w").write(s["demo"])
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["what_it_breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    env = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-2026-08-21-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR="/tmp/seed_target")
    p = subprocess.run(["cargo", "test", "--offline", "--lib"], cwd=r, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    ok = "25 passed; 0 failed" in p.stdout
    a = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    b = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    good = ok and a.returncode == 0 and b.returncode != 0 and "panicked" in b.stdout or s.get("nopanic")
    print(s["id"], "tests", ok, "clean", a.returncode, "patched", b.returncode, "OK" if good else "NOT KEPT")
    if not good:
        print(p.stdout[-1500:] if not ok else "", a.stdout[-1500:], b.stdout[-800:])
        shutil.rmtree(d)
    shutil.rmtree(w)


def blame_ok(r, patch):
    base = subprocess.check_output(["git", "-C", r, "rev-parse", "649c5a1"], text=True).strip()
    f = None
    n = 0
    for l in patch.split("\n"):
        if l.startswith("--- a/"):
            f = l[6:]
        elif l.startswith("@@"):
            n = int(l.split()[1].split(",")[0][1:])
        elif l.startswith("-") and not l.startswith("---"):
            b = subprocess.check_output(["git", "-C", r, "blame", "-l", "-s", "-L", f"{n},{n}", "HEAD", "--", f], text=True)
            if not b.lstrip("^").startswith(base[:39]):
                print("warning: line of a fix commit:", l)
            n += 1
        elif l.startswith(" "):
            n += 1


main()
