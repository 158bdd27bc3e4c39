#!/usr/bin/env python3
"""python3 engine/check.py P18 [--thorough]

Decides one property of the code in /repo from its type-checked source (MIR).
exit 0: holds; exit 1: VIOLATION lines; 2: /repo does not type-check."""
import importlib, json, os, resource, signal, sys, time, traceback, re

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import dump as D
from mir import Prog
from interp import Unsupported

VERIF = D.VERIF
FINDINGS = os.path.join(VERIF, "known_findings.txt")


class Budget(Exception): pass


def arm(seconds):
    def stop(*_):
        signal.alarm(20)            # what follows gets little more
        raise Budget()
    signal.signal(signal.SIGALRM, stop)
    signal.alarm(seconds)


class Ctx:
    def __init__(self, pid, tier, prog):
        self.pid = pid; self.tier = tier; self.P = prog
        self.thorough = tier == "thorough"
        self.viol = []          # (key, message)
        self.cover = {}
        self.assume = []
        self.notes = []

    def violation(self, key, msg):
        """key: line-number free identity of the construct and what is wrong with it"""
        if all(k != key for k, _ in self.viol): self.viol.append((key, msg))

    def require(self, cond, key, msg):
        if not cond: self.violation(key, msg)
        return cond

    def count(self, name, n=1):
        self.cover[name] = self.cover.get(name, 0) + n

    def sample(self, x, limit=12):
        s = self.cover.setdefault("samples", [])
        if len(s) < limit: s.append(x)

    def floor(self, name, n, what):
        """fail closed when the analysis matched fewer instances than confirmed by hand"""
        have = self.cover.get(name, 0)
        if not isinstance(have, int): have = len(have)
        self.require(have >= n, "floor:%s" % name, "only %s %s analysed, expected at least %d" % (have, what, n))

    def guard(self, what, f, *a, **k):
        """run one obligation; an analysis that cannot decide reports the construct it stopped at"""
        try:
            return f(*a, **k)
        except Unsupported as e:
            self.violation("undecided:%s:%s" % (what, norm(str(e))), "cannot establish %s: %s" % (what, e))
        except (Budget, MemoryError):
            self.violation("undecided:%s:budget" % what, "cannot establish %s: the analysis exceeds its budget of time or memory" % what)
        except (KeyError, IndexError, TypeError, AttributeError, ValueError, RecursionError, AssertionError) as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            if os.environ.get("VERIF_DEBUG"): traceback.print_exc()
            self.violation("undecided:%s:%s" % (what, type(e).__name__), "cannot establish %s: construct outside the analysed forms (%s: %s at %s:%d)" % (what, type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
        return None


def norm(s):
    return re.sub(r"\d+", "#", s)[:200]


def findings(pid):
    out = {}
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)$", l.strip())
            if m and m.group(1) == pid: out[m.group(2)] = m.group(3)
    return out


def keyenc(k):
    return re.sub(r"\s+", "_", k)


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        d = D.dump()
    except D.DumpError as e:
        print(str(e)[-3000:])
        print("ERROR: the tree in %s does not type-check, nothing was analysed" % D.REPO)
        return 2
    P = Prog(d)
    ctx = Ctx(pid, tier, P)
    mod = importlib.import_module("checks." + pid.lower())
    arm(int(os.environ.get("VERIF_BUDGET", "700")))
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
    ctx.guard("the property", mod.run, ctx)
    signal.alarm(0)
    known = findings(pid)
    bad = []
    for k, m in ctx.viol:
        e = keyenc(k)
        if e in known: print("KNOWN-FINDING: property=%s %s" % (pid, known[e]))
        else: bad.append((k, m))
    cov = {k: v for k, v in ctx.cover.items() if not k.startswith("_")}
    cov.setdefault("explanation", getattr(mod, "EXPLANATION", mod.__doc__ or ""))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "other"), "coverage": cov,
          "assumptions": ctx.assume + list(getattr(mod, "ASSUMES", [])), "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    evd = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    with open(os.path.join(evd, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True, default=str)
    vd = os.path.join(evd, "violations")
    os.makedirs(vd, exist_ok=True)
    for f in os.listdir(vd):
        if f.startswith(pid + "-"): os.unlink(os.path.join(vd, f))
    for i, (k, m) in enumerate(bad):
        p = os.path.join(vd, "%s-%d.txt" % (pid, i + 1))
        with open(p, "w") as f: f.write("property: %s\nkey: %s\n%s\n" % (pid, keyenc(k), m))
        print("VIOLATION property=%s replay=%s" % (pid, p))
        print("  " + m.replace("\n", "\n  "))
        if i == 9:
            print("  ... and %d more" % (len(bad) - 10)); break
    if not bad:
        print("OK property=%s (%s) %.1fs" % (pid, ", ".join("%s=%s" % (k, v) for k, v in cov.items() if isinstance(v, int))[:300], time.time() - t0))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
