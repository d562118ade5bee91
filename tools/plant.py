#!/usr/bin/env python3
"""Writes and verifies the planted bugs of /verif/seeded (see tools/plants/*.py).

  plant.py make [ID...]    verify in a scratch copy of /repo, keep those that count
  plant.py try  [ID...]    apply to /repo, run the check of the property, undo
"""
import importlib.util, json, os, shutil, subprocess, sys, glob, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "crates/mapping-algorithms/src/"
PLANTS = {}
for f in sorted(glob.glob(os.path.join(ROOT, "tools/plants/*.py"))):
    spec = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    for p in m.PLANTS: PLANTS[p["id"]] = p

DEMO_SH = r'''#!/bin/bash
# Run with the repository as the working directory: exit 0 if the property held.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH="$PATH:/root/.cargo/bin" CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
t=$(mktemp -d) || exit 1
trap 'find "$t" -delete' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
mapping-algorithms = { path = "$repo/crates/mapping-algorithms"@FEATURES@ }
nalgebra = { version = "0.33", default-features = false, features = ["libm"] }
@DEPS@
[profile.dev]
debug = 0
incremental = false
EOF
cd "$t" || exit 1
CARGO_TARGET_DIR="$t/target" timeout 280 cargo run --offline --quiet
'''

def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)

def edit(repo, p):
    for (f, old, new) in p["edits"]:
        path = os.path.join(repo, SRC + f)
        s = open(path).read()
        if s.count(old) != p.get("times", 1):
            raise SystemExit(f"{p['id']}: {s.count(old)} matches of {old!r}")
        open(path, "w").write(s.replace(old, new))

def make(ids):
    scratch = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    repo = scratch + "/repo"
    sh(["cp", "-a", "/repo", repo])
    baseline = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if False else None
    bad = []
    for i in ids:
        p = PLANTS[i]
        d = f"{ROOT}/seeded/{i}"
        os.makedirs(d, exist_ok=True)
        sh("git checkout -- .", repo)
        edit(repo, p)
        open(d + "/patch.diff", "w").write(sh("git diff", repo).stdout)
        body = DEMO_SH.replace("@FEATURES@", p.get("features", "")).replace("@DEPS@", p.get("deps", ""))
        open(d + "/demo.sh", "w").write(p.get("demo_sh", body)); os.chmod(d + "/demo.sh", 0o755)
        if "demo" in p: open(d + "/demo.rs", "w").write(p["demo"].lstrip())
        json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        env = dict(os.environ, CARGO_TARGET_DIR=repo + "/target", CARGO_NET_OFFLINE="true")
        t = sh("cargo test --workspace --all-features --offline -- --test-threads 8", repo, env=env)
        passed = sum(1 for l in t.stdout.splitlines() if l.startswith("test ") and l.endswith("ok"))
        why = []
        if t.returncode: why.append("tests: " + "; ".join(l for l in t.stdout.splitlines() if "FAILED" in l or l.startswith("error"))[:600])
        if not why:
            r = sh(f"bash {d}/demo.sh", repo)
            if r.returncode == 0: why.append("demo passes with the bug")
            elif "error: could not compile" in r.stdout and not p.get("compile"): why.append("demo does not compile: " + r.stdout[-1500:])
            else: msg = [l for l in r.stdout.splitlines() if l.strip()][:3]
            sh("git checkout -- .", repo)
            r = sh(f"bash {d}/demo.sh", repo)
            if r.returncode: why.append("demo fails without the bug: " + r.stdout[-1500:])
        if why:
            bad.append(i)
            print(f"-- {i}: NO  {why}", flush=True)
            for f in os.listdir(d): os.remove(d + "/" + f)
            os.rmdir(d)
        else:
            print(f"-- {i}: ok  {passed} tests  {msg}", flush=True)
    sh(["find", scratch, "-delete"])
    return bad

def attempt(ids, tier="quick"):
    assert not sh("git status --porcelain", "/repo").stdout.strip()
    man = {c["property"]: c for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"]}
    for i in ids:
        meta = json.load(open(f"{ROOT}/seeded/{i}/meta.json"))
        props = meta["property"]
        try:
            r = sh(f"git apply {ROOT}/seeded/{i}/patch.diff", "/repo")
            if r.returncode: print(f"-- {i}: does not apply"); continue
            c = man[props]
            cmd = c[tier + "_cmd"] if tier + "_cmd" in c else c["commands"][tier]
            r = sh(cmd, ROOT, env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER=tier))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(f"-- {i} ({props}): {'CAUGHT' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode}  {v[:1]}", flush=True)
            if r.returncode not in (0, 1): print(r.stdout[-1500:])
        finally:
            sh("git checkout -- .", "/repo")

if __name__ == "__main__":
    ids = sys.argv[2:] or list(PLANTS)
    if sys.argv[1] == "make": make(ids)
    elif sys.argv[1] == "try":
        attempt([i for i in ids if os.path.isdir(f"{ROOT}/seeded/{i}")], os.environ.get("TIER", "quick"))
