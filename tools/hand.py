#!/usr/bin/env python3
"""Runs hand-written changes through their property's native monitor (a development aid; no check uses it).

usage: hand.py LIST.py [-w WORKERS] [-o OUT] [NAME...]   LIST.py calls h(name, properties, [(file, old, new), ...])
"""
import os, sys, json, re, threading, subprocess, time, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import plan
args = sys.argv[1:]; W = 4; OUT = None; names = []
while args:
    a = args.pop(0)
    if a == "-w": W = int(args.pop(0))
    elif a == "-o": OUT = args.pop(0)
    else: names.append(a)
L = []
def h(name, props, edits): L.append((name, props.split(), edits))
exec(compile(open(names[0]).read(), names[0], "exec"))
L = [x for x in L if len(names) == 1 or x[0] in names[1:]]
B = os.environ.get("HANDDIR", "/tmp/hand")
def sh(c, cwd, t=900): return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
def setup(w):
    d = f"{B}/w{w}"
    if not os.path.isdir(d + "/repo"):
        os.makedirs(d, exist_ok=True); sh(f"git clone -q /repo {d}/repo", "/")
    sh("git checkout -q -- . && git pull -q", d + "/repo")
    os.makedirs(d + "/h", exist_ok=True)
    sh(f"rm -rf {d}/h/src && cp -a {V}/harness/src {V}/harness/Cargo.toml {V}/harness/Cargo.lock {V}/harness/pki {d}/h/", "/")
    t = open(f"{d}/h/Cargo.toml").read().replace('path = "/repo"', f'path = "{d}/repo"')
    t = t.replace("opt-level = 2\ndebug = 1", "opt-level = 1\ndebug = 0\nincremental = true\ncodegen-units = 64")
    open(f"{d}/h/Cargo.toml", "w").write(t)
    return d
lock = threading.Lock(); it = iter(L)
def say(*a):
    with lock:
        print(*a, flush=True)
        if OUT: open(OUT, "a").write(" ".join(map(str, a)) + "\n")
def work(w):
    d = setup(w)
    while True:
        with lock: x = next(it, None)
        if x is None: return
        name, props, edits = x
        sh("git checkout -q -- .", d + "/repo"); bad = None
        for f, old, new in edits:
            p = f"{d}/repo/{f}"; s = open(p).read()
            if s.count(old) != 1: bad = f"{f}: old text occurs {s.count(old)} times"; break
            open(p, "w").write(s.replace(old, new))
        if bad: say(name, "BAD", bad); continue
        t0 = time.time()
        feats = "--features tls" if "C28" in props else ""
        r = sh(f"RUSTFLAGS=-Awarnings cargo build --offline --release {feats} -j 3 -q", d + "/h")
        if r.returncode: say(name, "NOBUILD", r.stdout[-600:]); continue
        for p in props:
            st = plan.PLAN[p]["stages"]; st = st.get("native") or st.get("tls") or {}
            sc = st.get("scale", {}).get("quick", 1.0)
            ps = [subprocess.Popen([f"{d}/h/target/release/vzmon", p, "--seed", "1", "--tier", "quick", "--shard", f"{i}/8", "--scale", str(sc), "--out", f"{d}/o{i}"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT) for i in range(2)]
            got = None
            for i, q in enumerate(ps):
                try: o = q.communicate(timeout=400)[0]
                except subprocess.TimeoutExpired: q.kill(); got = "timeout"; continue
                if q.returncode:
                    try: v = json.load(open(f"{d}/o{i}"))["violations"]; got = v[0]["sig"] if v else f"exit {q.returncode}"
                    except Exception: got = f"exit {q.returncode} {o[-100:]}"
            if got is None:
                # All of it.
                ps = [subprocess.Popen([f"{d}/h/target/release/vzmon", p, "--seed", "1", "--tier", "quick", "--shard", f"{i}/8", "--scale", str(sc), "--out", f"{d}/o{i}"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT) for i in range(2, 8)]
                for i, q in enumerate(ps):
                    try: o = q.communicate(timeout=400)[0]
                    except subprocess.TimeoutExpired: q.kill(); got = "timeout"; continue
                    if q.returncode:
                        try: v = json.load(open(f"{d}/o{i+2}"))["violations"]; got = "late " + (v[0]["sig"] if v else f"exit {q.returncode}")
                        except Exception: got = f"late exit {q.returncode} {o[-100:]}"
            if got: break
        say(name, f"[{' '.join(props)}]", f"caught by {p}: {got}" if got else "MISSED", f"{time.time()-t0:.0f}s")
    sh("git checkout -q -- .", d + "/repo")
ts = [threading.Thread(target=work, args=(w,)) for w in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
