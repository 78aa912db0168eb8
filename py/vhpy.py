"""Case loop and report of the Python harness (same report format as harness/vh.h)."""
import array, hashlib, json, os, random, sys, traceback

class Skip(Exception): pass
class HarnessError(BaseException): pass

class Ck(object):
    def __init__(self, trace=False):
        self.counts, self.samples, self.viol, self.hashes, self.evals, self.case, self.trace = {}, [], [], set(), 0, -1, trace
        self.keys = {}
    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def fail(self, key, detail):
        self.count("violations")
        if self.trace: print("FAIL", key, detail)
        if self.keys.setdefault(key, 0) < 3:
            self.keys[key] += 1
            self.viol.append({"key": key, "detail": detail[:3000], "case": self.case})
    def ok(self, cond, key, detail):
        if not cond: self.fail(key, detail() if callable(detail) else detail)
        return cond
    def distinct(self, *what): self.hashes.add(int.from_bytes(hashlib.blake2b(repr(what).encode(), digest_size=8).digest(), "little"))
    def sample(self, s):
        if len(self.samples) < 3: self.samples.append(s[:600])
    def log(self, *a):
        if self.trace: print(*a)

def where(e, repo):
    """innermost function of the code under test in a traceback"""
    w = "?"
    for f in traceback.extract_tb(e.__traceback__):
        if f.filename.startswith(repo): w = f.name if f.name != "<module>" else os.path.basename(f.filename)
    return w

def main(props, repo, stuck=()):
    a = sys.argv[1:]; g = lambda n, d=None: a[a.index(n) + 1] if n in a else d
    prop, seed, tier, out = g("--prop"), int(g("--seed", "1")), g("--tier", "quick"), g("--out")
    only = g("--only"); sh, ns = (int(x) for x in g("--shard", "0/1").split("/")); ck = Ck("--trace" in a)
    p = props[prop]; n = p["cases"][0 if tier == "quick" else 1]
    rc = 0; casefd = os.open(out + ".case", os.O_RDWR | os.O_CREAT, 0o644)
    try:
        for i in ([int(only)] if only is not None else range(sh, n, ns)):
            ck.case = i; ck.evals += 1
            os.pwrite(casefd, array.array("q", [i]).tobytes(), 0)
            try: p["fn"](random.Random("%d/%s/%d" % (seed, prop, i)), ck)
            except Skip: ck.count("skipped")
            except stuck: ck.fail("no-progress", "the code under test goes on for ever:\n" + traceback.format_exc())
            except (Exception, KeyboardInterrupt):   # the code under test cannot be imported, or its results cannot be used as such
                ck.fail("bad-result", traceback.format_exc())
            if len(ck.viol) >= 12: break
    except HarnessError as e:
        sys.stderr.write("HARNESS-ERROR case %d: %r\n%s" % (ck.case, e, traceback.format_exc())); sys.exit(3)
    except BaseException:
        sys.stderr.write("HARNESS-ERROR case %d:\n%s" % (ck.case, traceback.format_exc())); sys.exit(3)
    with open(out + ".distinct", "wb") as f: f.write(array.array("Q", sorted(ck.hashes)).tobytes())
    json.dump({"complete": True, "evaluations": ck.evals, "distinct": len(ck.hashes), "rule": p["rule"], "counts": ck.counts,
               "need": p["need"] if only is None else {}, "sub": [], "samples": ck.samples, "violations": ck.viol}, open(out, "w"))
    sys.exit(1 if ck.viol else 0)
