#!/usr/bin/env python3
"""Development tool for planted changes: writes /verif/seeded/<id>/ from tools/seeds.py and confirms each one.

  seed.py make ID..    write the folder, confirm in a scratch copy: builds, stable tests pass, demo 0 / nonzero
  seed.py check ID..   apply to /repo, run the property's check, undo, report
No check reads any of this.
"""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seeds import SEEDS
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")
WT = "/tmp/seedwt/repo"

DEMO_SH = """#!/bin/bash
# Exit 0 when the property holds on the tree in the current directory, nonzero when it does not.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
work="$(mktemp -d)"
trap 'rm -r -f "$work"' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cp "$here/demo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
kzg = { path = "$repo/kzg" }
plonk = { path = "$repo/plonk" }
fri = { path = "$repo/fri" }
nova = { path = "$repo/nova" }
ark-ff = "0.4.2"
ark-ec = "0.4.2"
ark-poly = "0.4.2"
ark-bls12-381 = "0.4.0"
ark-serialize = "0.4.2"
ark-std = "0.4.0"
rand = "0.8.5"
sha2 = "0.10"
sha2_fri = { package = "sha2", version = "0.11.0-pre.3" }
digest = "0.10"
[profile.dev]
opt-level = 1
debug = 0
TOML
cd "$work"
export CARGO_TARGET_DIR="$work/target" RUSTFLAGS="--cfg zkp_verif -Awarnings" RUST_BACKTRACE=0
cargo build --offline --quiet 2> "$work/log" || { cat "$work/log"; exit 3; }
timeout 200 "$work/target/debug/demo" > "$work/out" 2>&1 && rc=0 || rc=$?
tail -n 5 "$work/out"
exit $rc
"""

def run(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def lock():
    t = open("/verif/harness/Cargo.lock").read()
    a, b = t.split('name = "harness"', 1)
    body, rest = b.split("]", 1)
    body = "\n".join(l for l in body.split("\n") if "serde_json" not in l)
    return a + 'name = "demo"' + body + "]" + rest

def make(id):
    s = SEEDS[id]
    d = os.path.join(SEEDED, id)
    os.makedirs("/tmp/seedwt", exist_ok=True)
    if not os.path.isdir(WT):
        run("cp -a /repo " + WT)
    run("git checkout -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=WT)
    for f, old, new in s["edits"]:
        p = os.path.join(WT, f)
        t = open(p).read()
        if t.count(old) != 1:
            print(id, "edit not unique/absent in", f, t.count(old)); return False
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run("git diff", shell=True, cwd=WT, stdout=subprocess.PIPE, text=True).stdout
    # lines removed or changed must be of the original repository
    cur = None
    for l in diff.split("\n"):
        if l.startswith("--- a/"): cur = subprocess.run(["git", "-C", "/repo", "show", "3af3ece:" + l[6:]], stdout=subprocess.PIPE, text=True).stdout.split("\n")
        elif l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] not in cur: print(id, "not an original line:", l)
    pass
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO_SH); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/main.rs", "w").write(s["demo"].lstrip("\n"))
    open(d + "/demo.lock", "w").write(lock())
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    ok = True
    t0 = time.time()
    r = run(f"bash {d}/demo.sh", cwd=WT); t1 = time.time()
    if r.returncode in (0, 3): print(id, "demo on the changed tree: exit", r.returncode, r.stdout[-1500:]); ok = False
    else: print(id, "changed:", r.stdout.strip().split("\n")[-2:])
    r = run(". /opt/vp/env.sh; CARGO_TARGET_DIR=/tmp/seedwt/target cargo test --workspace --no-fail-fast --offline -- --test-threads 8", cwd=WT)
    passed = {l.split()[1] for l in r.stdout.split("\n") if l.startswith("test ") and l.rstrip().endswith("... ok")}
    failed = [l for l in r.stdout.split("\n") if l.startswith("test ") and "FAILED" in l]
    if failed or len(passed) < 30: print(id, "tests:", len(passed), failed, r.stdout[-800:] if len(passed) < 30 else ""); ok = False
    run("git checkout -- .", cwd=WT)
    r = run(f"bash {d}/demo.sh", cwd=WT)
    if r.returncode != 0: print(id, "demo on the unchanged tree: exit", r.returncode, r.stdout[-1500:]); ok = False
    print(id, "OK" if ok else "NOT OK", "%.0fs" % (t1 - t0), flush=True)
    return ok

def check(id, prop=None):
    s = SEEDS[id]
    p = prop or s["prop"]
    d = os.path.join(SEEDED, id)
    r = run(f"git -C /repo apply {d}/patch.diff")
    if r.returncode: print(id, "does not apply", r.stdout); return
    t0 = time.time()
    try:
        r = run(f"python3 /verif/bin/check.py {p}", timeout=900)
    finally:
        run("git -C /repo checkout -- .")
    v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
    print(id, p, "exit", r.returncode, "CAUGHT" if r.returncode == 1 and any("property=" + p in l for l in v) else "MISSED", "%.0fs" % (time.time() - t0), v[:1], flush=True)
    if r.returncode not in (0, 1): print(r.stdout[-1500:])

if __name__ == "__main__":
    ids = sys.argv[2:] or sorted(SEEDS)
    if ids[0] == "-n": ids = [i for i in sorted(SEEDS) if not os.path.isdir(os.path.join(SEEDED, i))]
    for i in ids: make(i) if sys.argv[1] == "make" else check(i)
