#!/usr/bin/env python3
"""Runs the check of one property: builds the harness from /repo's working tree, runs it, judges what it reports.
   check.py <ID> [--tier quick|thorough] [--only CASE] [--trace]      check.py --setup
Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Anything else: the check itself failed."""
import array, fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("VERIF_REPO", "/repo"); B = os.path.join(V, "_build")
sys.path.insert(0, os.path.join(V, "tools"))
from checks_table import CHECKS, HARNESS
ASAN = "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=0"
class Broken(Exception): pass

def tree_hash():
    h = hashlib.sha256()
    for root in [REPO, os.path.join(V, "harness"), os.path.join(V, "stubs"), os.path.join(V, "tools"), os.path.join(V, "py")]:
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in (".git", "_build", "build", "__pycache__", "evidence", "seeded"))
            for f in sorted(fs):
                if f.endswith((".h", ".hpp", ".cpp", ".py", ".msg", ".srv", ".xml", ".ui")) or "/scripts" in d:
                    p = os.path.join(d, f)
                    try: b = open(p, "rb").read()
                    except OSError: continue
                    h.update(os.path.relpath(p, root).encode() + b"\0" + hashlib.sha256(b).digest())
    return h.hexdigest()[:16]

def prepare():
    key = tree_hash(); d = os.path.join(B, key); os.makedirs(d, exist_ok=True)
    lock = open(os.path.join(B, "lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if not os.path.exists(os.path.join(d, "gen", "ok")):
            r = subprocess.run([sys.executable, os.path.join(V, "tools", "gen_ros.py"), REPO, os.path.join(d, "gen")], capture_output=True, text=True)
            if r.returncode: raise Broken("generating ROS stand-ins failed: " + r.stdout + r.stderr)
            open(os.path.join(d, "gen", "ok"), "w").close()
        os.utime(d)
        old = sorted((x for x in glob.glob(os.path.join(B, "*")) if os.path.isdir(x) and x != d), key=os.path.getmtime)
        for x in old[:-3]: shutil.rmtree(x, ignore_errors=True)
    finally: lock.close()
    return d

def includes(d): return ["-I" + os.path.join(d, "gen", "cpp"), "-I" + os.path.join(V, "stubs"), "-I" + os.path.join(V, "harness")] + ["-I" + p for p in sorted(glob.glob(REPO + "/*/include"))]

def build(d, name):
    h = HARNESS[name]; exe = os.path.join(d, name)
    lock = open(exe + ".lock", "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(exe): return exe
        flags = ["-std=c++14", "-g", "-DVERIF_HARNESS"] + h["flags"]; jobs = []
        srcs = [(os.path.join(V, "harness", s), h.get("harness_opt", ["-O0"]) + h.get("harness_flags", [])) for s in h["src"]]
        for pat in h.get("repo", []):
            m = sorted(glob.glob(os.path.join(REPO, pat)))
            if not m: raise Broken("no source matches " + pat)
            srcs += [(x, h.get("repo_opt", ["-O1"]) + h.get("repo_flags", [])) for x in m]
        tmp = exe + ".o.d"; os.makedirs(tmp, exist_ok=True)
        for i, (s, opt) in enumerate(srcs):
            o = os.path.join(tmp, "%d_%s.o" % (i, os.path.basename(s))); jobs.append((["g++"] + flags + opt + includes(d) + ["-w", "-c", s, "-o", o], o))
        def one(j):
            r = subprocess.run(j[0], capture_output=True, text=True); return r
        with ThreadPoolExecutor(8) as ex: rs = list(ex.map(one, jobs))
        for r, j in zip(rs, jobs):
            if r.returncode: raise Broken("compiling failed: %s\n%s" % (" ".join(j[0]), r.stderr[:6000]))
        r = subprocess.run(["g++"] + flags + [j[1] for j in jobs] + ["-o", exe + ".tmp"] + h.get("libs", []) + ["-lpthread", "-ldl"], capture_output=True, text=True)
        if r.returncode: raise Broken("linking failed: " + r.stderr[:6000])
        shutil.rmtree(tmp, ignore_errors=True); os.rename(exe + ".tmp", exe); return exe
    finally: lock.close()

def frame(err):
    """first stack frame or source location that lies in /repo, without line number"""
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):\d+", err):
        if m.group(2).startswith(REPO): return re.sub(r"\(.*", "", m.group(1)).strip()
    m = re.search(re.escape(REPO) + r"/(\S+?):\d+", err)
    return m.group(1) if m else "unknown"

def classify(rc, err):
    m = re.search(r"ERROR: (?:Address|Thread|Leak|Memory)Sanitizer:? ([\w-]+)", err)
    if m: return "sanitizer-%s:%s" % (m.group(1), frame(err))
    m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+?) \(", err)
    if m: return "tsan-%s:%s" % (m.group(1).replace(" ", "-"), frame(err))
    m = re.search(r"(\S+?):\d+:\d+: runtime error: ([^\n]{0,60})", err)
    if m: return "ubsan:%s:%s" % (re.sub(r"[0-9x.]+", "N", m.group(2))[:40], os.path.basename(m.group(1)))
    m = re.search(r"terminate called after throwing an instance of '([^']+)'", err)
    if m: return "uncaught:" + m.group(1)
    if "terminate called" in err: return "terminate"
    m = re.search(r"Assertion [`'](.{0,80}?)' failed", err)
    if m: return "assert:" + m.group(1)
    m = re.search(r"MONITOR: ([^\n]{0,80})", err)
    if m: return "monitor:" + m.group(1)
    return "signal-%d" % -rc if rc < 0 else "exit-%d" % rc

def run_one(cmd, env, limit, out, stall=None):
    t = time.time(); errp = out + ".err"
    with open(errp, "w") as ef, open(out + ".stdout", "w") as of:
        p = subprocess.Popen(cmd, env=env, stdout=of, stderr=ef, start_new_session=True, cwd=os.path.dirname(out))
        rc, last, since = None, -1, t   # ends after limit seconds, or after stall seconds within one and the same case
        while rc is None:
            try: rc = p.wait(0.05 if time.time() - t < 2 else 1)
            except subprocess.TimeoutExpired:
                now, c = time.time(), cur_case(out)
                if c != last: last, since = c, now
                if now - t > limit or (stall and c >= 0 and now - since > stall): os.killpg(p.pid, signal.SIGKILL); p.wait(); break
    with open(errp, errors="replace") as f: err = f.read(); err = err if len(err) < 400000 else err[:200000] + err[-200000:]
    return rc, err, time.time() - t

def cur_case(out):
    try: a = array.array("q"); a.frombytes(open(out + ".case", "rb").read(8)); return a[0]
    except Exception: return -1

def hashes(paths):
    s = set()
    for p in paths:
        try: b = open(p, "rb").read(); a = array.array("Q"); a.frombytes(b); s.update(a)
        except OSError: pass
    return len(s)

def run(prop, tier, seed, only=None, trace=False):
    c = CHECKS[prop]; d = prepare(); work = os.path.join(d, "run-%s-%d" % (prop, os.getpid())); os.makedirs(work, exist_ok=True)
    viol, reports, errors = [], [], []   # viol: (key, detail, harness, case)
    try:
        for hn in c["harness"]:
            h = HARNESS[hn]
            if h.get("python"): base = [sys.executable, os.path.join(V, "py", h["python"])]
            else: base = [build(d, hn)]
            env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "TMPDIR", "VH_OTHERS", "STUB_LOG")}
            env.update(ASAN_OPTIONS=ASAN, UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:abort_on_error=1", TSAN_OPTIONS="halt_on_error=1:abort_on_error=0:exitcode=66:detect_deadlocks=0:history_size=4", VERIF_GEN=os.path.join(d, "gen"), VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=str(seed % 4294967295))
            n = 1 if only is not None else h.get("shards", 8); limit = h.get("limit", {}).get(tier, 700 if tier == "quick" else 6 * 3600)
            def shard(i):
                out = os.path.join(work, "%s.%d.json" % (hn, i))
                args = ["--prop", prop, "--seed", str(seed), "--tier", tier, "--out", out] + (["--only", str(only)] if only is not None else ["--shard", "%d/%d" % (i, n)]) + (["--trace"] if trace else [])
                return out, args, run_one(base + args, env, limit, out, 150 if tier == "quick" else 900)
            with ThreadPoolExecutor(n) as ex: res = list(ex.map(shard, range(n)))
            kf = [k for p, k, w in known() if p == prop]
            for out, args, (rc, err, secs) in sorted(res, key=lambda x: x[2][0] is None):
                if trace: sys.stdout.write(open(out + ".stdout", errors="replace").read()); sys.stderr.write(err)
                case = cur_case(out)
                if rc is None:   # ran out of time: what it had found until then counts; otherwise a hang only if the same case hangs again on its own
                    for m in re.finditer(r"^violation (\S+) \(case (-?\d+)\): (.*)", err, re.M): viol.append((m.group(1), m.group(3), hn, int(m.group(2))))
                    if any(v[0] not in kf for v in viol): continue
                    rc2, err2, s2 = run_one(base + ["--prop", prop, "--seed", str(seed), "--tier", tier, "--out", out, "--only", str(case)], env, 100, out) if case >= 0 else (0, "", 0)
                    if rc2 is None: viol.append(("hang", "case %d does not terminate (killed after %d s, and again alone after 100 s)" % (case, secs), hn, case)); continue
                    errors.append("%s ran out of time (inconclusive)" % hn); continue
                if rc in (0, 1) and os.path.exists(out):
                    try: rep = json.load(open(out))
                    except ValueError: errors.append("unreadable report of %s" % hn); continue
                    rep["_out"] = out; reports.append((hn, rep))
                    for v in rep["violations"]: viol.append((v["key"], v["detail"], hn, v["case"]))
                    continue
                if rc == 3 or "HARNESS-ERROR" in err: errors.append("%s: %s" % (hn, "; ".join(l for l in err.splitlines() if "HARNESS-ERROR" in l)[:500] or err[-1500:])); continue
                if rc == -signal.SIGKILL: errors.append("%s was killed (memory?)" % hn); continue
                if h.get("python"): errors.append("%s failed: %s" % (hn, err[-3000:])); continue
                viol.append((classify(rc, err), "the code under test crashed in case %d (exit %s):\n%s" % (case, rc, err[:6000]), hn, case))
        # merge
        counts, need, samples, ev, rules = {}, {}, [], 0, []
        for hn, r in reports:
            ev += r["evaluations"]
            for k, n in r["counts"].items(): counts[k] = counts.get(k, 0) + n
            for k, n in r.get("need", {}).items(): need[k] = max(need.get(k, 0), n)
            for x in r["samples"]:
                if len(samples) < 6: samples.append(x)
            if r["rule"] and r["rule"] not in rules: rules.append(r["rule"])
        distinct = hashes([r["_out"] + ".distinct" for _, r in reports]) if all("distinct" in r for _, r in reports) else 0
        subs = sorted({s for _, r in reports for s in r.get("sub", [])})
        for s in subs: counts["distinct " + s] = hashes([r["_out"] + ".sub." + s for _, r in reports])
        if not viol and only is None:
            for k, n in need.items():
                if counts.get(k, 0) < n: errors.append("observed too little: %s = %d (needs %d)" % (k, counts.get(k, 0), n))
        return viol, errors, dict(evaluations=ev, distinct_nontrivial=min(distinct, ev), rule=" / ".join(rules), samples=samples, observed=counts)
    finally:
        if not os.environ.get("VERIF_KEEP"): shutil.rmtree(work, ignore_errors=True)

def known():
    out = []
    for l in open(os.path.join(V, "known-findings.txt")):
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
        if m: out.append(m.groups())
    return out

def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        r = subprocess.run(["g++", "--version"], capture_output=True); assert r.returncode == 0; json.load(open(os.path.join(V, "MANIFEST.json"))); print("ready"); return 0
    prop = a[0]; tier = os.environ.get("VERIF_TIER", "quick"); only = None; trace = "--trace" in a
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    if "--only" in a: only = int(a[a.index("--only") + 1])
    seed = int(os.environ.get("VERIF_SEED", "1") or "1"); t0 = time.time(); c = CHECKS[prop]
    try: viol, errors, cov = run(prop, tier, seed, only, trace)
    except Broken as e: print("CHECK-ERROR %s: %s" % (prop, e), file=sys.stderr); return 2
    kf = [(k, w) for p, k, w in known() if p == prop]; new = []; hit = set()
    for v in viol:
        m = [i for i, (k, w) in enumerate(kf) if k == v[0]]
        if m: hit.add(m[0])
        else: new.append(v)
    for k, w in kf: print("KNOWN-FINDING: property=%s %s %s" % (prop, k, w))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    if only is None:
        if not cov["samples"]: cov["samples"] = ["(none recorded)"]
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": c.get("level", "exploration"), "coverage": cov, "assumptions": c.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)},
                  open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    if new:
        rp = os.path.join(V, "evidence", prop + ".replay.json")
        json.dump({"property": prop, "seed": seed, "tier": tier, "violations": [{"key": k, "detail": dt, "harness": hn, "case": cs, "replay": "VERIF_SEED=%d python3 check.py %s --tier %s --only %d --trace" % (seed, prop, tier, cs)} for k, dt, hn, cs in new]}, open(rp, "w"), indent=1)
        for k, dt, hn, cs in new[:5]: print("%s: %s (case %d of %s)\n  %s" % (prop, k, cs, hn, dt[:2500]))
        print("VIOLATION property=%s replay=%s" % (prop, rp)); return 1
    if errors: print("CHECK-ERROR %s: %s" % (prop, "; ".join(errors)), file=sys.stderr); return 2
    print("OK %s: %d cases, %d distinct, %.1f s; %s" % (prop, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0, ", ".join("%s=%d" % x for x in sorted(cov["observed"].items()))[:1500]))
    return 0
if __name__ == "__main__": sys.exit(main())
