#!/usr/bin/env python3
"""Builds and confirms the planted bugs described in tools/seeds*.py, in a scratch copy of /repo.

usage: seed.py [ID...]   (all without arguments; confirmed ones end up in /verif/seeded/<id>/)
       seed.py --check [ID...]   run the property's quick check against each (applies to /repo and undoes)
"""
import json, os, subprocess, sys, shutil, glob, importlib.util, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = "/repo"; W = "/tmp/seedwork"
BUGS = {}
def bug(id, property, edits, needs, breaks, demo, features=("base64", "client", "serde"), deps=""):
    BUGS[id] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, features=list(features), deps=deps)
for f in sorted(glob.glob(V + "/tools/seeds*.py")):
    exec(compile(open(f).read(), f, "exec"), dict(bug=bug))
DEMO_SH = r'''#!/bin/bash
# exit 0: the property held on this demonstration; nonzero: it did not (or it could not be built)
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src" && cp "$here/demo.rs" "$t/src/main.rs" || exit 3
cat > "$t/Cargo.toml" <<E
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
vinezombie = { path = "$repo", default-features = false, features = [@FEATS@] }
@DEPS@
E
cp "$repo/Cargo.lock" "$t/Cargo.lock" 2>/dev/null
cd "$t" && CARGO_TARGET_DIR="$t/target" timeout 280 cargo run --offline --quiet
'''
def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
def make_patch(b):
    """patch text from edits against /repo HEAD"""
    sh(f"git checkout -q -- .", W)
    for path, old, new in b["edits"]:
        p = os.path.join(W, path); s = open(p).read()
        n = s.count(old)
        if n != 1: return None, f"{path}: old text occurs {n} times"
        open(p, "w").write(s.replace(old, new))
    r = sh("git diff", W)
    return r.stdout, None
def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    ids = args or list(BUGS)
    if "--check" in sys.argv:
        return check(ids)
    if not os.path.isdir(W + "/.git"):
        shutil.rmtree(W, ignore_errors=True)
        sh(f"git clone -q {R} {W}"); 
    sh(f"git fetch -q origin && git reset -q --hard $(git -C {R} rev-parse HEAD)", W)
    base = json.load(open("/opt/vp/BASELINE.json"))
    for id in ids:
        b = BUGS[id]; d = f"{V}/seeded/{id}"
        patch, err = make_patch(b)
        if err: print(id, "FAIL", err); continue
        meta = {"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}
        if os.path.isdir(d) and open(d + "/patch.diff").read() == patch and os.path.exists(d + "/demo.rs") and open(d + "/demo.rs").read() == b["demo"]:
            json.dump(meta, open(d + "/meta.json", "w"), indent=1)
            continue
        t0 = time.time()
        stage = f"/tmp/seedstage"; shutil.rmtree(stage, ignore_errors=True); os.makedirs(stage)
        open(stage + "/demo.rs", "w").write(b["demo"])
        feats = ", ".join(f'"{f}"' for f in b["features"])
        open(stage + "/demo.sh", "w").write(DEMO_SH.replace("@FEATS@", feats).replace("@DEPS@", b["deps"]))
        r = sh("cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8", W, {"CARGO_TARGET_DIR": "/tmp/seedtarget"})
        fails = [l for l in r.stdout.splitlines() if l.startswith("test ") and l.endswith("FAILED")]
        oks = sum(l.startswith("test ") and " ... ok" in l for l in r.stdout.splitlines())
        if "error: could not compile" in r.stdout or "error[" in r.stdout:
            print(id, "FAIL does not compile\n", r.stdout[-1500:]); continue
        if fails or oks < 50:
            print(id, "FAIL tests", fails, oks); continue
        for c in ("cargo check --offline", "cargo check --offline --no-default-features", "cargo check --offline --no-default-features --features client"):
            r = sh(c, W, {"CARGO_TARGET_DIR": "/tmp/seedtarget"})
            if r.returncode: print(id, "FAIL", c, r.stdout[-800:]); break
        else:
            bad = sh(f"bash {stage}/demo.sh", W)
            sh("git checkout -q -- .", W)
            good = sh(f"bash {stage}/demo.sh", W)
            if good.returncode != 0: print(id, "FAIL demo fails on the clean tree\n", good.stdout[-1500:]); continue
            if bad.returncode == 0: print(id, "FAIL demo passes with the bug"); continue
            if "panicked" not in bad.stdout and "VIOLATED" not in bad.stdout and bad.returncode < 128:
                print(id, "FAIL? demo output with bug:\n", bad.stdout[-1500:]); continue
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            for f in ("demo.rs", "demo.sh"): shutil.copy(f"{stage}/{f}", d)
            open(d + "/patch.diff", "w").write(patch)
            json.dump(meta, open(d + "/meta.json", "w"), indent=1)
            print(f"{id} confirmed ({time.time()-t0:.0f}s): {[l for l in bad.stdout.splitlines() if 'panicked' in l or 'VIOL' in l or 'left' in l or 'right' in l][:4]}", flush=True)
def check(ids):
    for id in ids:
        d = f"{V}/seeded/{id}"
        if not os.path.isdir(d): print(id, "not confirmed"); continue
        prop = json.load(open(d + "/meta.json"))["property"]
        extra = [a[2:] for a in sys.argv[1:] if a.startswith("--C")]
        for p in extra or [prop]:
            if sh("git status --porcelain --untracked-files=no", R).stdout.strip(): print("repo not clean"); return 1
            r = sh(f"git apply {d}/patch.diff", R)
            if r.returncode: print(id, "patch does not apply"); continue
            try:
                t0 = time.time()
                r = sh(f"VERIF_SEED=1 VERIF_TIER=quick python3 {V}/check.py {p}", V)
                hit = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                print(f"{id} [{p}] rc={r.returncode} {'CAUGHT' if r.returncode == 1 and hit else 'MISSED'} {time.time()-t0:.0f}s", flush=True)
                if r.returncode not in (0, 1): print(r.stdout[-1500:])
            finally:
                sh("git checkout -- .", R)
sys.exit(main())
