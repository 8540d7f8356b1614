#!/usr/bin/env python3
"""Create a seeded change: mkseed.py SPEC.py  (SPEC defines ID, PROPERTY, NEEDS, BREAKS, DEPS, MAIN, EDITS).

EDITS = [(file, old, new), ...] is applied to a scratch worktree of /repo and the diff is stored with a demonstration.
"""
import os, subprocess, sys, shutil, json, tempfile
spec = {}
exec(open(sys.argv[1]).read(), spec)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(V, "seeded", spec["ID"])
os.makedirs(d, exist_ok=True)
wt = tempfile.mkdtemp(prefix="seedwt")
subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", wt + "/r", "HEAD"])
try:
    for f, old, new in spec["EDITS"]:
        p = os.path.join(wt, "r", f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", wt + "/r", "diff"]).decode()
finally:
    subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", wt + "/r"])
    shutil.rmtree(wt)
open(d + "/patch.diff", "w").write(diff)
json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
open(d + "/main.rs", "w").write(spec["MAIN"])
deps = "".join('printf \'%s = { path = "%%s/crates/%s" }\\n\' "$R" >> "$D/Cargo.toml"\n' % (x, x) for x in spec["DEPS"])
open(d + "/demo.sh", "w").write('''#!/bin/bash
# cwd: the repository. Builds the program beside this file against its crates and runs it.
set -e
H=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
mkdir -p "$D/src"
cp "$H/main.rs" "$D/src/main.rs"
cp "$R/Cargo.lock" "$D/Cargo.lock"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[workspace]\\n[profile.dev]\\ndebug = 0\\n[dependencies]\\n' > "$D/Cargo.toml"
%s
cd "$D"
export PATH=/root/.cargo/bin:$PATH
unset RUSTFLAGS
CARGO_TARGET_DIR="$D/target" cargo run -q --offline
''' % deps.strip())
os.chmod(d + "/demo.sh", 0o755)
print("wrote", d)
