#!/usr/bin/env python3
"""Make the seeded changes: tools/plants/*.py hold entries (edits + demo); this confirms each one in a
scratch copy of /repo (builds, the stable tests pass, the demo passes without it and fails with it) and
writes /verif/seeded/<id>/.  Never run by a check.

  plant.py [ID ...]        (default: every entry that has no folder yet)
  plant.py --rediff        rewrite every patch.diff against /repo's HEAD, without confirming
"""
import glob, json, os, shutil, subprocess, sys, runpy, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SCR = "/tmp/plant"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")

DEMO = '''#!/bin/bash
# Runs main.rs against the crate in the current directory; exit 0 when the property holds on it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
vecmat = { path = "$repo", features = ["std", "rand", "approx"] }
num-traits = "0.2"
num-complex = "0.4"
num-integer = "0.1"
rand_ = { package = "rand", version = "0.8" }
approx = "0.5"
[profile.dev]
debug = 0
TOML
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target"
cd "$work" && timeout 280 cargo run --offline -q 2>&1
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), env=ENV, capture_output=True, text=True, **kw)

def entries():
    out = {}
    for f in sorted(glob.glob(HERE + "/plants/*.py")):
        for e in runpy.run_path(f)["PLANTS"]:
            assert e["id"] not in out, e["id"]
            out[e["id"]] = e
    return out

def apply(e, root):
    for f, old, new in e["edits"]:
        p = os.path.join(root, f)
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            raise SystemExit(f"{e['id']}: {n} matches in {f} for {old[:60]!r}")
        open(p, "w").write(s.replace(old, new))

def confirm(e):
    repo = SCR + "/repo"
    os.makedirs(SCR, exist_ok=True)
    if not os.path.exists(repo):
        subprocess.check_call(["cp", "-a", "/repo", repo])
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", repo)
    d = f"{VERIF}/seeded/{e['id']}"
    tmp = tempfile.mkdtemp(dir=SCR)
    open(tmp + "/demo.sh", "w").write(DEMO)
    os.chmod(tmp + "/demo.sh", 0o755)
    open(tmp + "/main.rs", "w").write(e["demo"].lstrip("\n"))
    r = sh(["bash", tmp + "/demo.sh"], repo)
    if r.returncode != 0:
        return "demo fails on the clean tree: " + (r.stdout + r.stderr)[-1500:]
    apply(e, repo)
    diff = sh("git diff", repo).stdout
    r = sh(["bash", tmp + "/demo.sh"], repo)
    if r.returncode == 0:
        return "demo does not notice the change"
    note = (r.stdout + r.stderr)[-600:]
    if "error: could not compile" in note or "error[E" in note:
        return "does not compile: " + (r.stdout + r.stderr)[-1500:]
    for s in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + s).read().replace("cd /repo", "cd " + repo)
        open(f"{tmp}/{s}", "w").write(t)
    r = sh(["bash", tmp + "/build.sh"], repo)
    if r.returncode != 0:
        return "build: " + r.stderr[-1500:]
    sh(["bash", tmp + "/test.sh", tmp + "/o.json"], repo)
    got = json.load(open(tmp + "/o.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    want, have = set(base["stable"]), set(got["passed"])
    if want - have:
        return "tests notice it: " + ", ".join(sorted(want - have))
    sh("git checkout -q -- .", repo)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    shutil.copy(tmp + "/demo.sh", d)
    shutil.copy(tmp + "/main.rs", d)
    json.dump({"property": e["property"], "needs": e["needs"], "what_it_breaks": e["what"]},
              open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(tmp)
    return None, note

def main():
    es = entries()
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or \
          [i for i in es if not os.path.exists(f"{VERIF}/seeded/{i}/patch.diff")]
    if "--rediff" in sys.argv:
        ids = list(es)
    for i in ids:
        r = confirm(es[i])
        if isinstance(r, tuple):
            print(i, "OK ::", " ".join(r[1].split())[-160:], flush=True)
        else:
            print(i, "REJECTED:", r, flush=True)
main()
