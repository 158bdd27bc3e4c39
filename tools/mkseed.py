#!/usr/bin/env python3
"""mkseed.py [ID...]  builds /verif/seeded/<id> from tools/seeds/*.py (seed(id, property, edits, main, needs, breaks)) and confirms it
in a scratch copy: the patch applies, builds, passes the stable tests; the demonstration passes without it and fails with it."""
import glob, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
S = {}
DEMO = '''#!/bin/bash
# run in /repo: builds a small program against the crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here/main.rs" "$t/src/main.rs"
printf '[package]\\nname = "demo"\\nversion = "0.0.0"\\nedition = "2018"\\n[dependencies]\\ngraphql-parser = { path = "%s" }\\n[workspace]\\n' "$repo" > "$t/Cargo.toml"
[ -e "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cd "$t" && CARGO_TARGET_DIR="$t/target" cargo build -q --offline && timeout 60 "$t/target/debug/demo"
'''


def seed(id, prop, edits, main, needs, breaks):
    if isinstance(edits[0], str): edits = [edits]
    S[id] = (prop, edits, main, needs, breaks)


def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main():
    for f in sorted(glob.glob(HERE + "/seeds/*.py")): exec(compile(open(f).read(), f, "exec"), {"seed": seed})
    todo = sys.argv[1:] or [i for i in S if not os.path.exists(VERIF + "/seeded/%s/meta.json" % i)]
    w = "/tmp/mkseed"
    shutil.rmtree(w, ignore_errors=True)
    sh("cp -a /repo %s" % w)
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
    for id in todo:
        prop, edits, mainrs, needs, breaks = S[id]
        sh("git checkout -q -- . && git clean -fdq src", cwd=w)
        bad = None
        for (f, old, new) in edits:
            p = w + "/src/" + f; s = open(p).read()
            if old not in s: bad = "text not found in %s: %r" % (f, old[:60]); break
            open(p, "w").write(s.replace(old, new, 1))
        if bad: print(id, bad); continue
        d = VERIF + "/seeded/" + id
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(sh("git diff", cwd=w).stdout)
        open(d + "/main.rs", "w").write(mainrs)
        open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        r = sh("cargo test --workspace --lib --bins --tests --no-run --offline", cwd=w)
        if r.returncode: print(id, "BUILD", r.stderr[-800:]); shutil.rmtree(d); continue
        r = sh("cargo nextest run --workspace --lib --bins --tests --offline --no-fail-fast", cwd=w)
        r2 = sh("cargo test --workspace --doc --offline", cwd=w)
        if r.returncode or r2.returncode:
            print(id, "TESTS FAIL", "\n".join(l for l in (r.stdout + r.stderr + r2.stdout).split("\n") if "FAIL" in l)[:600]); shutil.rmtree(d); continue
        r = sh("bash %s/demo.sh" % d, cwd=w)
        if r.returncode == 0: print(id, "DEMO PASSES WITH THE BUG"); shutil.rmtree(d); continue
        msg = (r.stdout + r.stderr).strip().split("\n")
        sh("git checkout -q -- .", cwd=w)
        r = sh("bash %s/demo.sh" % d, cwd=w)
        if r.returncode: print(id, "DEMO FAILS UNCHANGED", r.stdout[-500:] + r.stderr[-900:]); shutil.rmtree(d); continue
        print(id, "ok:", [l for l in msg if "panicked" in l or "assert" in l or "left" in l][:2] or msg[-1:])
    shutil.rmtree(w, ignore_errors=True)


main()
