#!/usr/bin/env python3
"""runseeds.py [-a] [ID...]  applies each /verif/seeded/*/patch.diff to a scratch copy and runs the check of its property (-a: all)."""
import glob, json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(a):
    id, every = a
    d = "/tmp/runseeds/" + id
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run("cd /repo && cp -r Cargo.toml Cargo.lock src tests benches %s/ && cd %s && git init -q . && git apply %s/seeded/%s/patch.diff" % (d, d, V, id), shell=True, check=True)
    meta = json.load(open(V + "/seeded/%s/meta.json" % id))
    env = dict(os.environ, VERIF_REPO=d, VERIF_EVID=d + "/ev")
    env.pop("VERIF_MIR", None)
    r = subprocess.run(["python3", V + "/engine/dump.py", d, d + "/mir.json"], env=env, capture_output=True, text=True)
    if r.returncode: return id, "BUILD " + r.stderr[-300:]
    env["VERIF_MIR"] = d + "/mir.json"
    m = json.load(open(V + "/MANIFEST.json"))
    todo = [c["property"] for c in m["checks"]] if every else [meta["property"]]
    out = []
    for c in todo:
        r = subprocess.run(["python3", V + "/engine/check.py", c], env=env, capture_output=True, text=True)
        if r.returncode: out.append("%s:%d %s" % (c, r.returncode, [l for l in r.stdout.split("\n") if l.startswith("  ")][:1] if c == meta["property"] else ""))
    shutil.rmtree(d, ignore_errors=True)
    return id, " ".join(out) or "MISSED"


ids = [a for a in sys.argv[1:] if a != "-a"] or sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(V + "/seeded/*/meta.json"))
with ThreadPoolExecutor(6) as ex:
    for id, o in ex.map(one, [(i, "-a" in sys.argv) for i in ids]): print("%-36s %s" % (id, o), flush=True)
shutil.rmtree("/tmp/runseeds", ignore_errors=True)
