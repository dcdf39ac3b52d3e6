#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's working tree.

usage: check.py <ID> [--tier quick|thorough] [--seed N]
exit 0: held on everything observed; 1: VIOLATION; 2: the check could not decide.
"""
import argparse, json, os, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(VERIF, "harness")
sys.path.insert(0, os.path.join(VERIF, "tools"))
import plan  # per-property stages, budgets and descriptions

T0 = time.time()
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "MIRIFLAGS"):
    ENV.pop(k, None)

class Inconclusive(Exception):
    pass

def sh(cmd, env=None, timeout=None, cwd=H):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          timeout=timeout, start_new_session=True)

def build(kind):
    """Returns the path of the built monitor binary (or None for Miri)."""
    env = dict(ENV)
    tgt = os.path.join(H, "target")
    if kind == "native":
        cmd = ["cargo", "build", "--offline", "--release"]
        binp = f"{tgt}/release/vzmon"
    elif kind == "tls":
        cmd = ["cargo", "build", "--offline", "--release", "--features", "tls", "--target-dir", f"{tgt}/tls"]
        binp = f"{tgt}/tls/release/vzmon"
    elif kind == "asan":
        env["RUSTFLAGS"] = "-Zsanitizer=address"
        cmd = ["cargo", "+nightly", "build", "--offline", "--release", "--no-default-features",
               "--target", "x86_64-unknown-linux-gnu", "--target-dir", f"{tgt}/asan"]
        binp = f"{tgt}/asan/x86_64-unknown-linux-gnu/release/vzmon"
    else:
        raise AssertionError(kind)
    r = sh(cmd, env)
    if r.returncode != 0:
        t = r.stdout.decode(errors="replace")
        sys.stdout.write("\n\n".join([b for b in t.split("\n\n") if "error" in b][:8])[:5000] + "\n")
        raise Inconclusive(f"{kind} build failed")
    return binp

class Result:
    def __init__(self):
        self.evals = 0; self.nontrivial = 0; self.counters = {}; self.samples = []
        self.viols = []; self.required = {}; self.distinct = set(); self.stages = []; self.problems = []

def load(res, path, stage):
    with open(path) as f:
        j = json.load(f)
    res.evals += j["evals"]; res.nontrivial += j["nontrivial"]
    for k, v in j["counters"].items():
        res.counters[k] = res.counters.get(k, 0) + v
    for s in j["samples"]:
        if len(res.samples) < 12: res.samples.append(s)
    for v in j["violations"]:
        res.viols.append(dict(v, stage=stage))
    for k, n in j["required"]:
        res.required[k] = n
    try:
        b = open(path + ".distinct", "rb").read()
        import array
        a = array.array("Q"); a.frombytes(b[:len(b) // 8 * 8]); res.distinct.update(a)
    except FileNotFoundError:
        pass

SIGV = {signal.SIGSEGV: "SIGSEGV", signal.SIGABRT: "SIGABRT", signal.SIGBUS: "SIGBUS", signal.SIGILL: "SIGILL", signal.SIGTRAP: "SIGTRAP", signal.SIGFPE: "SIGFPE"}

def crumb_of(out):
    try:
        a = open(out + ".crumb").read().split()
        return a[0], int(a[1])
    except Exception:
        return "?", 0

def run_shards(res, prop, stage, binp, seed, tier, st, outdir):
    n = st.get("shards", 8)
    scale = st.get("scale", {}).get(tier, 1.0)
    env = dict(ENV)
    if stage == "asan":
        env["ASAN_OPTIONS"] = "detect_leaks=1:abort_on_error=0:exitcode=66:allocator_may_return_null=1"
    limit = st.get("timeout", {}).get(tier, 420 if tier == "quick" else 5400)
    def one(i):
        out = f"{outdir}/{stage}.{i}.json"
        cmd = [binp, prop, "--seed", str(seed), "--tier", tier, "--shard", f"{i}/{n}", "--scale", str(scale), "--out", out]
        if st.get("args"): cmd += st["args"]
        with open(out + ".log", "wb") as lf:
            p = subprocess.Popen(cmd, cwd=outdir, env=env, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
            try:
                rc = p.wait(limit)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL); p.wait(); rc = "timeout"
        return i, out, rc
    with ThreadPoolExecutor(n) as ex:
        for i, out, rc in ex.map(one, range(n)):
            log = open(out + ".log", "rb").read().decode(errors="replace")
            if rc in (0, 1, 3) and os.path.exists(out):
                load(res, out, stage)
                if rc != 0 and not json.load(open(out))["violations"]:
                    res.problems.append(f"{stage} shard {i}: exit {rc} without a report")
            elif stage == "asan" and rc == 66 or (isinstance(rc, int) and rc < 0 and -rc in [s.value for s in SIGV]):
                s, c = crumb_of(out)
                what = log_sig(log, rc)
                res.viols.append(dict(sig=what, stream=s, case=c, stage=stage, detail=log[-3000:]))
                if rc == 66 and os.path.exists(out):
                    load(res, out, stage)
            else:
                res.problems.append(f"{stage} shard {i}: ended with {rc}: {log[-400:]}")
    res.stages.append(dict(stage=stage, shards=n, scale=scale))

def log_sig(log, rc):
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", log)
    if m: return "asan:" + m.group(1)
    if "LeakSanitizer" in log: return "asan:leak"
    if isinstance(rc, int) and rc < 0: return "crash:" + SIGV[signal.Signals(-rc)]
    return f"exit:{rc}"

def run_miri(res, prop, seed, tier, st, outdir):
    """One Miri process per (seed, slice). Each slice is one shard of the case list."""
    n = st["procs"][tier]
    scale = st.get("scale", {}).get(tier, 1.0)
    limit = st.get("timeout", {}).get(tier, 600 if tier == "quick" else 5400)
    base = ["cargo", "+nightly", "miri", "run", "--offline", "--no-default-features", "--target-dir", f"{H}/target/miri", "-q", "--"]
    env = dict(ENV); env["MIRIFLAGS"] = "-Zmiri-disable-isolation"
    r = sh(["cargo", "+nightly", "miri", "run", "--offline", "--no-default-features", "--target-dir", f"{H}/target/miri", "-q", "--", prop, "--scale", "0"], env, 880)
    if r.returncode != 0:
        t = r.stdout.decode(errors="replace")
        if "could not compile" in t or "error: failed" in t or "error: no matching" in t or "error: aborting due to" in t:
            sys.stdout.write("\n\n".join([b for b in t.split("\n\n") if "error" in b][:8])[:5000] + "\n"); raise Inconclusive("Miri build failed")
    def one(i):
        out = f"{outdir}/miri.{i}.json"
        e = dict(env)
        flags = ["-Zmiri-disable-isolation", f"-Zmiri-seed={(seed * 1000 + i) & 0xffffffff}"] + st.get("flags", [])
        if st.get("rotate"): flags += st["rotate"][i % len(st["rotate"])]
        e["MIRIFLAGS"] = " ".join(flags); e["VZ_CRUMB"] = "1"
        cmd = base + [prop, "--seed", str(seed + 7919 * (i // st.get("slices", n))), "--tier", tier, "--shard", f"{i % st.get('slices', n)}/{st.get('slices', n)}", "--scale", str(scale), "--out", out]
        with open(out + ".log", "wb") as lf:
            p = subprocess.Popen(cmd, cwd=H, env=e, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
            try:
                rc = p.wait(limit)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL); p.wait(); rc = "timeout"
        return i, out, rc
    with ThreadPoolExecutor(st.get("par", 8)) as ex:
        for i, out, rc in ex.map(one, range(n)):
            log = open(out + ".log", "rb").read().decode(errors="replace")
            if os.path.exists(out) and rc in (0, 1) and "error: Undefined Behavior" not in log:
                load(res, out, "miri")
                if rc == 1 and not json.load(open(out))["violations"]:
                    sig = miri_sig(log)
                    if sig: res.viols.append(dict(sig=sig, stream="miri-exit", case=i, stage="miri", detail=log[-3000:]))
                    else: res.problems.append(f"miri {i}: exit 1 without a report: {log[-400:]}")
                continue
            sig = miri_sig(log)
            if sig:
                c = re.findall(r"CRUMB (\S+) (\d+)", log)
                s, k = (c[-1][0], int(c[-1][1])) if c else ("?", 0)
                d = log[log.find("error:"):][:3500]
                res.viols.append(dict(sig=sig, stream=s, case=k, stage=f"miri[{i}]", detail=d))
            else:
                res.problems.append(f"miri {i}: ended with {rc}: {log[-600:]}")
    res.stages.append(dict(stage="miri", processes=n, scale=scale))

def miri_sig(log):
    if "unsupported operation" in log: return None
    m = re.search(r"error: Undefined Behavior: (.*)", log)
    if m:
        t = m.group(1)
        for k, v in [("Data race", "data-race"), ("dangling", "dangling"), ("freed", "use-after-free"), ("out-of-bounds", "out-of-bounds"), ("uninitialized", "uninitialised"),
                     ("not valid UTF-8", "bad-utf8"), ("invalid value", "invalid-value"), ("retag", "aliasing"), ("borrow stack", "aliasing"), ("unreachable", "unreachable"), ("deallocat", "bad-dealloc")]:
            if k.lower() in t.lower(): return "miri:" + v
        return "miri:ub"
    if "memory leaked" in log: return "miri:leak"
    if "deadlock" in log: return "miri:deadlock"
    if "error: abnormal termination" in log: return "miri:abort"
    return None

def known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding:\s+property=(\S+)\s+sig=(\S+)\s*(.*)", l)
            if m: out.append(m.groups())
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--stages", default=None)
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    prop, seed = a.prop, a.seed
    pl = plan.PLAN[prop]
    outdir = os.path.join(VERIF, "out", prop)
    shutil.rmtree(outdir, ignore_errors=True); os.makedirs(outdir)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    res = Result(); err = None
    try:
        for stage, st in pl["stages"].items():
            if a.stages and stage not in a.stages.split(","): continue
            if stage == "miri":
                run_miri(res, prop, seed, tier, st, outdir)
            else:
                b = build(stage)
                tb = time.time() - T0
                run_shards(res, prop, stage, b, seed, tier, st, outdir)
                print(f"# {stage}: built by {tb:.0f}s, ran until {time.time()-T0:.0f}s")
            if res.viols: break
    except Inconclusive as e:
        err = str(e)
    except subprocess.TimeoutExpired as e:
        err = f"timed out: {e}"
    kn = known(); reported = {}; knownhit = {}
    for v in res.viols:
        hit = [k for k in kn if k[0] == prop and k[1] == v["sig"]]
        (knownhit if hit else reported).setdefault(v["sig"], []).append((v, hit))
    for sig, vs in knownhit.items():
        print(f"KNOWN-FINDING: property={prop} {sig} {vs[0][1][0][2]}")
    n = 0
    for sig, vs in reported.items():
        v = vs[0][0]; n += 1
        path = os.path.join(outdir, f"violation-{n}.json")
        tls = " --features tls --target-dir target/tls" if "tls" in pl["stages"] else ""
        with open(path, "w") as f:
            json.dump(dict(property=prop, seed=seed, tier=tier, signature=sig, stage=v["stage"], stream=v["stream"], case=v["case"], detail=v["detail"],
                others=[x[0]["detail"][:500] for x in vs[1:4]],
                replay=f"cd {H} && cargo build --offline --release{tls} && target/{'tls/' if tls else ''}release/vzmon {prop} --seed {seed} --tier {tier} --only '{v['stream']}#{v['case']}'"), f, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {sig} [{v['stage']} {v['stream']}#{v['case']}] {v['detail'][:700]}")
    missing = [] if res.viols or err or a.stages else [f"{k}: saw {res.counters.get(k,0)}, need {m}" for k, m in res.required.items() if res.counters.get(k, 0) < m]
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(evaluations=res.evals, distinct_nontrivial=len(res.distinct), rule=pl["rule"], samples=res.samples or ["(none)"],
            observations=res.nontrivial, events={k: v for k, v in sorted(res.counters.items()) if not k.startswith("cases:")}, stages=res.stages),
        assumptions=pl.get("assumptions", []), wall_s=round(time.time() - T0, 2), violations=n)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"# {prop} tier={tier} seed={seed}: {res.evals} cases, {len(res.distinct)} distinct observations, {n} violation(s), {time.time()-T0:.1f}s")
    if n: return 1
    if err or res.problems or missing:
        for m in [err] * bool(err) + res.problems[:4] + missing: print("INCONCLUSIVE:", m)
        return 2
    return 0

if __name__ == "__main__":
    sys.exit(main())
