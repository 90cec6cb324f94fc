#!/usr/bin/env python3
"""Runs the rule of one property (rules/<id>.py) over the facts of /repo's current source.

A rule is a function check(ctx).  It reports violations by a key (no line numbers) and a message that names the
construct, and it counts what it analysed.  A rule that finds none of what it looks for has to say so itself
(ctx.need): a rule that matches nothing must not pass.
"""
import importlib.util, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "rules"))
sys.setrecursionlimit(20000)


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.violations = {}
        self.counts = {}
        self.functions = set()
        self.samples = []
        self.rule = ""
        self.assumptions = []
        self._F = None

    @property
    def F(self):
        if self._F is None:
            import absint
            self._F = absint.load()
        return self._F

    def violation(self, key, message, where="", path=()):
        """key: stable name of the violated instance"""
        key = str(key)
        if key not in self.violations:
            self.violations[key] = {"key": key, "message": message, "where": where, "path": [str(x) for x in path]}

    def need(self, cond, key, message):
        """an anchor of the rule: when it is missing the property cannot be shown"""
        if not cond:
            self.violation("anchor:" + key, "cannot be shown: " + message)
        return bool(cond)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def saw(self, *fns):
        for f in fns:
            self.functions.add(f)


def plain(s):
    """one line of printable characters"""
    return "".join(c if c.isprintable() else "\\x%02x" % ord(c) for c in s)


def known(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return {}
    return {k["key"]: k for k in json.load(open(p))["findings"] if k["property"] == pid}


def main():
    if len(sys.argv) < 2:
        print("usage: check.sh <property id>")
        return 2
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    spec = importlib.util.spec_from_file_location("rule", os.path.join(HERE, "rules", pid + ".py"))
    mod = importlib.util.module_from_spec(spec)
    ctx = Ctx(pid)
    ctx.tier = tier
    spec.loader.exec_module(mod)
    ctx.rule = (mod.__doc__ or "").strip()
    try:
        mod.check(ctx)
    except SystemExit:
        raise
    except Exception as e:      # the rule met a program it cannot interpret: the property is not shown
        tb = traceback.format_exc()
        if os.environ.get("VERIF_DEBUG"):
            print(tb)
        last = traceback.extract_tb(e.__traceback__)[-1]
        ctx.violation("rule-failed", "cannot be shown: the analysis does not understand the program any more: %s: %s (%s:%s)"
                      % (type(e).__name__, e, os.path.basename(last.filename), last.name))
    kn = known(pid)
    new = [v for k, v in sorted(ctx.violations.items()) if k not in kn]
    old = [v for k, v in sorted(ctx.violations.items()) if k in kn]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    cov = {"explanation": ctx.rule + "  Functions interpreted or scanned: %d." % len(ctx.functions),
           "functions": sorted(ctx.functions)[:400], "functions_analysed": len(ctx.functions)}
    cov.update(ctx.counts)
    cov["samples"] = ctx.samples
    cov["known_findings_seen"] = [v["key"] for v in old]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": ctx.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for v in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[v["key"]]["what"]))
    if new:
        rp = os.path.join(HERE, "evidence", pid + ".violations.json")
        with open(rp, "w") as f:
            json.dump(new, f, indent=1)
        for v in new:
            print(plain("%s: [%s] %s %s" % (pid, v["key"], v["where"], v["message"])))
            for p in v["path"][:14]:
                print(plain("      " + p[:300]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("%s: holds on %s" % (pid, ", ".join("%s=%s" % (k, v) for k, v in sorted(ctx.counts.items()))))
    return 0


if __name__ == "__main__":
    sys.exit(main())
