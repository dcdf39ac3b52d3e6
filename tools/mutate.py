#!/usr/bin/env python3
"""Mutation testing of the monitors (a development aid; no check uses it).

usage: mutate.py OUT.jsonl [--n N] [--seed S] [--workers W] [--files REGEX]
Each mutant is one textual change to a source file of a scratch clone of /repo, built with a scratch copy of the
harness and run through the native monitors at reduced scale until one reports. Survivors are for reading.
"""
import argparse, json, os, random, re, shutil, subprocess, sys, threading, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__))))
HARN = os.environ.get("MUT_HARNESS", "/verif/harness")
BASE = "/tmp/mut"
OPS = [
 (r"(?<![<=>!-])<(?![<=])(?= )", ["<=", ">"]), (r"(?<= )<=(?= )", ["<", ">"]), (r"(?<= )>(?= )(?![^\n]*\{$)", [">=", "<"]), (r"(?<= )>=(?= )", [">", "<"]),
 (r"(?<= )==(?= )", ["!="]), (r"(?<= )!=(?= )", ["=="]), (r"&&", ["||"]), (r"(?<= )\|\|(?= )", ["&&"]),
 (r"(?<= )\+(?= )", ["-"]), (r"(?<= )-(?= )", ["+"]), (r"(?<= )\+=(?= )", ["-="]), (r"(?<= )-=(?= )", ["+="]),
 (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
 (r"(?<![\w.'\"])(\d+)(?![\w.'\"])", ["+1", "-1"]),
 (r"!(?=[a-z_]\w*[.(])", [""]), (r"(?<=if )(?=[a-z_.]+\()", ["!"]),
 (r"\.\.=", [".."]), (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r"cmp::max\(", ["cmp::min("]), (r"cmp::min\(", ["cmp::max("]),
 (r"\bcontinue\b(?=;)", ["break"]), (r"\|=", ["&=", "="]), (r"&=", ["|="]),
 (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]), (r"\.is_ok\(\)", [".is_err()"]), (r"\.is_err\(\)", [".is_ok()"]),
 (r"b'(.)'", ["b'\\x01'"]), (r"\bSome\((\w+)\)(?=,|$|;)", ["None"]), (r"\.rev\(\)", [""]), (r"\.next\(\)", [".next_back()"]), (r"\.first\(\)", [".last()"]), (r"\.last\(\)", [".first()"]),
 (r"saturating_sub", ["wrapping_sub"]), (r"Ordering::Release|Ordering::AcqRel|Ordering::Acquire", ["Ordering::Relaxed"]),
 (r"\bfinish\(|\bBreak\b", ["Continue"]), (r"unwrap_or\(true\)", ["unwrap_or(false)"]), (r"\.is_empty\(\)", [".is_empty() == false"]),
 (r"\"([^\"]{2,12})\"", ['"Q\\1"']),
]
DEL = re.compile(r"^\s+(?!let |return|use |pub |type |const |//|#|break|continue|\}|impl|fn )[^\n]*;$")
def mutants(files):
    out = []
    for f in files:
        src = open(f"/repo/{f}").read()
        lines = src.split("\n")
        end = next((i for i, l in enumerate(lines) if "#[cfg(test)]" in l and i + 1 < len(lines) and "mod " in lines[i + 1] and "{" in lines[i + 1]), len(lines))
        for i, l in enumerate(lines[:end]):
            s = l.strip()
            if not s or s.startswith("//") or s.startswith("#") or s.startswith("use ") or s.startswith("impl") or s.startswith("pub use") or "debug_assert" in s or "tracing" in s: continue
            code = l.split(" //")[0]
            for pat, reps in OPS:
                for m in re.finditer(pat, code):
                    for r in reps:
                        if r in ("+1", "-1") and pat.startswith("(?<![\\w"):
                            v = int(m.group(1)) + (1 if r == "+1" else -1)
                            if v < 0: continue
                            t = str(v)
                        else: t = m.expand(r) if "\\1" in r else r
                        out.append((f, i, code[:m.start()] + t + code[m.end():]))
            if DEL.match(code) and code.count("(") == code.count(")") and code.count("{") == code.count("}") and "=>" not in code:
                out.append((f, i, ""))
    return out
AFF = [("src/string/base64", "C15 C10 C09"), ("src/string/secretbuf", "C10 C07 C15"), ("src/string/serde", "C13"), ("src/string", "C05 C06 C16 C31 C07 C09 C10"),
       ("src/util", "C11 C12 C07 C01"), ("src/ircmsg/codec", "C04 C01 C03 C26"), ("src/ircmsg", "C01 C03 C11 C12 C31 C27 C25 C13"), ("src/names", "C27 C11 C14 C02"), ("src/state", "C14 C27"),
       ("src/client/queue", "C17"), ("src/client/auth", "C23 C22 C09 C10 C13"), ("src/client/nick", "C24 C22 C13"), ("src/client/register", "C22 C13"), ("src/client/conn", "C19 C18 C28 C31 C13"), ("src/client/tls", "C28"),
       ("src/client/handlers", "C25 C26 C18"), ("src/client/handler/channel", "C20 C21 C18"), ("src/client/handler", "C18 C19"), ("src/client/cap", "C29 C26 C22"), ("src/client", "C18 C30 C26 C22 C17"), ("src/owning", "C07 C09")]
ALL = [f"C{i:02}" for i in range(1, 32)]
import plan
def scale(p):
    st = plan.PLAN.get(p, {}).get("stages", {})
    st = st.get("native") or st.get("tls") or {}
    return max(st.get("scale", {}).get("quick", 1.0) / 12, 0.1)
def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def setup(w):
    d = f"{BASE}/w{w}"
    if not os.path.isdir(d):
        os.makedirs(d)
        sh(["git", "clone", "-q", "/repo", f"{d}/repo"])
        os.makedirs(f"{d}/h")
        for x in ("src", "Cargo.toml", "Cargo.lock", "pki"):
            if os.path.exists(f"{HARN}/{x}"):
                (shutil.copytree if os.path.isdir(f"{HARN}/{x}") else shutil.copy)(f"{HARN}/{x}", f"{d}/h/{x}")
        t = open(f"{d}/h/Cargo.toml").read().replace('path = "/repo"', f'path = "{d}/repo"')
        t = t.replace("opt-level = 2\ndebug = 1", "opt-level = 1\ndebug = 0\nincremental = true\ncodegen-units = 64")
        open(f"{d}/h/Cargo.toml", "w").write(t)
    return d
def build(d, jobs):
    return sh(["cargo", "build", "--offline", "--release", "--features", "tls", "-j", str(jobs), "-q"], cwd=f"{d}/h", env=dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings"))
def run(d, p, par):
    out = f"{d}/o.json"
    ps = []
    n = par * 4
    for i in range(par):
        ps.append(subprocess.Popen([f"{d}/h/target/release/vzmon", p, "--seed", "1", "--tier", "quick", "--shard", f"{i}/{n}", "--scale", str(scale(p) * 4), "--out", f"{out}.{i}"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
    bad = None
    t0 = time.time()
    for q in ps:
        try:
            o = q.communicate(timeout=max(1, 150 - (time.time() - t0)))[0]
        except subprocess.TimeoutExpired:
            q.kill(); q.communicate(); bad = "timeout"; continue
        if q.returncode != 0:
            try:
                v = json.load(open(f"{out}.{ps.index(q)}"))["violations"]
                bad = v[0]["sig"] if v else f"exit {q.returncode}"
            except Exception:
                bad = f"exit {q.returncode} {o[-150:]}"
    return bad
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out"); ap.add_argument("--n", type=int, default=400); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--workers", type=int, default=4); ap.add_argument("--files", default=".")
    a = ap.parse_args()
    files = [f for f in sh(["git", "-C", "/repo", "ls-files", "src"]).stdout.decode().split() if f.endswith(".rs") and not f.endswith("tests.rs") and "/tests/" not in f and re.search(a.files, f)]
    ms = mutants(files)
    random.Random(a.seed).shuffle(ms)
    seen = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            j = json.loads(l); seen.add((j["file"], j["line"] - 1, j["new"]))
    ms = [m for m in ms if m not in seen][: a.n]
    print(len(ms), "mutants", flush=True)
    lock = threading.Lock(); it = iter(ms); of = open(a.out, "a")
    def work(w):
        d = setup(w)
        r = build(d, 3)
        if r.returncode: print(r.stdout.decode()[-3000:]); return
        while True:
            with lock:
                m = next(it, None)
            if m is None: return
            f, i, new = m
            src = open(f"/repo/{f}").read(); lines = src.split("\n"); old = lines[i]; lines[i] = new
            open(f"{d}/repo/{f}", "w").write("\n".join(lines))
            t0 = time.time()
            res = dict(file=f, line=i + 1, old=old, new=new)
            r = build(d, 3)
            if r.returncode: res["result"] = "nobuild"
            else:
                res["tb"] = round(time.time() - t0)
                aff = next((p.split() for k, p in AFF if f.startswith(k)), [])
                res["result"] = "SURVIVED"
                for p in aff + [p for p in ALL if p not in aff]:
                    if p not in plan.PLAN and p not in ("C27", "C28"): continue
                    v = run(d, p, 2)
                    if v: res["result"] = "killed"; res["by"] = p; res["how"] = v; break
            res["t"] = round(time.time() - t0)
            open(f"{d}/repo/{f}", "w").write(src)
            with lock:
                of.write(json.dumps(res) + "\n"); of.flush()
    ts = [threading.Thread(target=work, args=(w,)) for w in range(a.workers)]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
