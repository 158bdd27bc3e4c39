#!/usr/bin/env python3
"""battery.py [-j N] [-c P01,P02] [-f grammar,format] [PATTERN...]
Self-test of the checks: every edit of tools/battery/*.py is applied to a scratch copy of /repo (under /tmp) and the checks run on
it.  `bug(checks, id, file, old, new)`: at least one of the checks must report; `same(id, file, old, new)`: none may."""
import glob, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
EDITS = []
TOP = "/tmp/battery/%d" % os.getpid()


FILE = [None]


def bug(checks, id, *edits): EDITS.append(("bug", checks.split(","), id, edits, FILE[0]))
def same(id, *edits): EDITS.append(("same", None, id, edits, FILE[0]))


def load():
    for f in sorted(glob.glob(HERE + "/battery/*.py")):
        FILE[0] = os.path.basename(f)[:-3]
        exec(compile(open(f).read(), f, "exec"), {"bug": bug, "same": same})


def norm(edits):
    if isinstance(edits[0], str): edits = [edits]
    return edits


def run(e, slot, only, allchecks):
    kind, checks, id, edits, _ = e
    d = "%s/%d" % (TOP, slot)
    shutil.rmtree(d + "/src", ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    shutil.copytree("/repo/src", d + "/src")
    for f in ("Cargo.toml", "Cargo.lock"):
        if os.path.exists("/repo/" + f): shutil.copy("/repo/" + f, d)
    for f in ("tests", "benches"):
        if not os.path.exists(d + "/" + f) and os.path.exists("/repo/" + f): shutil.copytree("/repo/" + f, d + "/" + f)
    for (f, old, new) in norm(edits):
        p = d + "/src/" + f
        s = open(p).read()
        if s.count(old) < 1: return id, "STALE", "text not found in %s" % f
        s = s.replace(old, new, 1)
        open(p, "w").write(s)
    env = dict(os.environ, VERIF_REPO=d, VERIF_EVID="%s/ev%d" % (TOP, slot), VERIF_BUDGET="300")
    env.pop("VERIF_MIR", None)
    r = subprocess.run(["python3", TOP + "/verif/engine/dump.py", d, d + "/mir.json"], env=env, capture_output=True, text=True)
    if r.returncode: return id, "BUILD", r.stdout[-1500:]
    env["VERIF_MIR"] = d + "/mir.json"
    todo = checks if kind == "bug" else allchecks
    if only: todo = [c for c in todo if c in only]
    res = {}
    out = ""
    for c in todo:
        r = subprocess.run(["python3", TOP + "/verif/engine/check.py", c], env=env, capture_output=True, text=True)
        res[c] = r.returncode
        if (r.returncode == 0) == (kind == "bug") or r.returncode == 2: out += "   %s %d %s\n" % (c, r.returncode, (r.stdout + r.stderr)[:700 if kind == "same" else 250])
        elif kind == "bug": out += "   %s %s\n" % (c, [l for l in r.stdout.split("\n") if l.startswith("  ")][:1])
    if 2 in res.values(): return id, "BUILD", out
    if kind == "bug":
        good = any(v == 1 for v in res.values())
        return id, ("ok" if good else "MISSED") if todo else "skip", out
    return id, "ok" if all(v == 0 for v in res.values()) else "ALARM", out


def main():
    load()
    a = sys.argv[1:]
    j = 6; only = None; pats = []; files = []; verbose = False
    while a:
        x = a.pop(0)
        if x == "-j": j = int(a.pop(0))
        elif x == "-c": only = a.pop(0).split(",")
        elif x == "-v": verbose = True
        elif x == "-f": files = a.pop(0).split(",")
        else: pats.append(x)
    man = json.load(open(VERIF + "/MANIFEST.json"))
    allchecks = [c["property"] for c in man["checks"]]
    if only: allchecks = only
    todo = [e for e in EDITS if not pats or any(re.search(p, e[2]) for p in pats)]
    if files: todo = [e for e in todo if e[4] in files]
    if only: todo = [e for e in todo if e[0] == "same" or set(e[1]) & set(only)]
    free = list(range(j))
    shutil.rmtree(TOP, ignore_errors=True)
    # a copy, so that work on the checks does not disturb a long run
    shutil.copytree(VERIF, TOP + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "__pycache__"), symlinks=True)
    bad = 0
    with ThreadPoolExecutor(j) as ex:
        def go(e):
            s = free.pop()
            try: return run(e, s, only, allchecks)
            finally: free.append(s)
        for (e, (id, st, out)) in zip(todo, ex.map(go, todo)):
            if st not in ("ok", "skip"): bad += 1
            if st != "ok" or verbose: print("%-6s %-4s %s\n%s" % (st, e[0], id, out), end="", flush=True)
    shutil.rmtree(TOP, ignore_errors=True)
    print("%d edits, %d not as expected" % (len(todo), bad))


main()
