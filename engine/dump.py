"""Builds the MIR driver if needed and dumps the type-checked program of /repo (its current working tree)."""
import os, subprocess, json, fcntl, shutil, hashlib, sys, glob, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(VERIF, ".work")
DRIVER_DIR = os.path.join(VERIF, "engine", "driver")
CRATE = "graphql_parser"


class DumpError(Exception):
    pass


def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR",
              "CARGO_ENCODED_RUSTFLAGS", "RUSTC", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["HOME"] = e.get("HOME") or "/root"
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    return e


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def driver():
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(WORK, "driver-target")
    r = run(["cargo", "+nightly", "build", "--release", "--offline", "--manifest-path",
             os.path.join(DRIVER_DIR, "Cargo.toml")], env=e)
    p = os.path.join(WORK, "driver-target", "release", "mirdump")
    if r.returncode != 0 or not os.path.exists(p):
        raise DumpError("driver build failed:\n" + r.stdout[-4000:])
    return p


def dump(repo=None):
    repo = repo or REPO
    if os.environ.get("VERIF_MIR"):  # tools/battery.py: one dump of a scratch tree for all checks
        with open(os.environ["VERIF_MIR"]) as f: return json.load(f)
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = driver()
        e = env()
        sysroot = run(["rustc", "+nightly", "--print", "sysroot"], env=e).stdout.strip()
        e["LD_LIBRARY_PATH"] = sysroot + "/lib"
        tgt = os.path.join(WORK, "check-target")
        # cargo's freshness cache would skip the wrapper
        for p in glob.glob(os.path.join(tgt, "debug", ".fingerprint", "graphql-parser-*")) + glob.glob(os.path.join(tgt, "debug", "build", "graphql-parser*")):
            shutil.rmtree(p, ignore_errors=True)
        out = os.path.join(WORK, "mir.json")
        if os.path.exists(out):
            os.unlink(out)
        e["CARGO_TARGET_DIR"] = tgt
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        e["MIRDUMP_CRATE"] = CRATE
        e["MIRDUMP_OUT"] = out
        had_lock = os.path.exists(os.path.join(repo, "Cargo.lock"))
        if not had_lock and os.path.exists("/opt/vp/Cargo.lock"):
            shutil.copy("/opt/vp/Cargo.lock", os.path.join(repo, "Cargo.lock"))  # ignored by git there
        r = run(["cargo", "+nightly", "check", "--lib", "--offline", "--manifest-path",
                 os.path.join(repo, "Cargo.toml")], env=e)
        if r.returncode != 0 or not os.path.exists(out):
            raise DumpError("cannot type-check %s:\n%s" % (repo, r.stdout[-6000:]))
        with open(out) as f:
            return json.load(f)


if __name__ == "__main__":
    t = time.time()
    try: d = dump(sys.argv[1] if len(sys.argv) > 1 else None)
    except DumpError as x: print(x); sys.exit(1)
    if len(sys.argv) > 2: json.dump(d, open(sys.argv[2], "w"))
    print(len(d["fns"]), "bodies", len(d["types"]), "types", len(d["adts"]), "adts", "%.1fs" % (time.time() - t))
