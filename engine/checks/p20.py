"""Effect analysis over every MIR body of the crate (promoteds and closures included): each function value and each callee must
come from a side-effect free part of core/alloc/std/combine/thiserror or be analysed itself; no static is mutable or has interior
mutability; no pointer becomes a number or text; hash tables are never iterated; every field type reachable from the public
types is free of raw pointers, non-atomic sharing, interior mutability and trait objects that are not Send + Sync."""
import re

LEVEL = "other"
ASSUMES = ["functions of core, alloc, std, combine and thiserror outside the listed effectful modules have no effect but on their arguments",
           "a Text implementation supplied by a user of the crate is itself pure"]
CRATES = ("std", "core", "alloc", "combine", "thiserror", "graphql_parser")
DENY = [
    (r"^(std|core|alloc)::(fs|env|io|net|os|process|thread|time|random|backtrace|panic|panicking::(set_hook|take_hook)|ffi|arch|intrinsics::volatile|task|future)(::|$)", "effect outside the arguments"),
    (r"^std::sync::(?!Arc)", "shared state"), (r"^(std|core)::sync::atomic", "shared state"),
    (r"ptr::(addr_|fn_addr_)?eq$|LocalKey|thread_local|LazyCell|LazyLock|OnceLock|OnceCell", "state that outlives the call"),
    (r"(read|write)_volatile|black_box", "volatile access"),
    (r"Argument::.*new_pointer|fmt::Pointer|::expose_provenance|::expose_addr|ptr::.*::addr$|with_exposed_provenance|hash::RandomState|DefaultHasher|std::any::|type_name|Location::.*caller", "result depends on addresses, types or call sites"),
    (r"^combine::stream::(read|buf_reader|decoder)", "reads from outside"),
    (r"mem::(uninitialized|zeroed)|MaybeUninit|alloc::(alloc|dealloc|realloc)$|Box::.*::leak|String::.*leak|Vec::.*leak|from_raw|forget", "raw memory"),
    (r"slice::.*::align_to|str::.*from_utf8_unchecked|get_unchecked", "unchecked access"),
]
ITER = {"iter", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values", "drain", "retain", "into_iter", "fmt", "extract_if", "union", "intersection", "difference", "symmetric_difference"}
HASH = re.compile(r"hash(_map|_set)?::(map::|set::)?|HashMap|HashSet")
BADTY = {"Rc": "not Send", "Cell": "interior mutability", "RefCell": "interior mutability", "UnsafeCell": "interior mutability", "OnceCell": "interior mutability",
         "Mutex": "shared state", "RwLock": "shared state", "OnceLock": "shared state", "LazyLock": "shared state", "LazyCell": "interior mutability", "NonNull": "raw pointer", "Weak": "not Send",
         "HashMap": "iteration order is random", "HashSet": "iteration order is random", "ManuallyDrop": "raw memory", "MaybeUninit": "raw memory", "SyncUnsafeCell": "interior mutability", "Exclusive": "not shared"}


def walk(o, f):
    if isinstance(o, dict):
        f(o)
        for v in o.values(): walk(v, f)
    elif isinstance(o, list):
        for v in o: walk(v, f)


def run(ctx):
    P = ctx.P
    for it in P.D["items"]:
        if it["kind"] != "static": continue
        ctx.count("statics")
        ctx.require(not it["mut"] and it["freeze"], "static:" + it["raw"], "static %s (%s:%s) can change between calls: %s" % (
            it["raw"], it["at"][0], it["at"][1], "static mut" if it["mut"] else "interior mutability"))
    for raw, f in sorted(P.fns.items()):
        ctx.count("bodies")
        for bi, b in enumerate([f["body"]] + list(f["promoted"])):
            body(ctx, raw, f, b)
    ctx.floor("bodies", 300, "function bodies")
    ctx.floor("call sites", 1000, "call sites")
    ctx.floor("external functions", 100, "external functions")
    # sharing
    seen = set()
    for it in P.D["items"]:
        if it["kind"] != "adt" or not it.get("reachable"): continue
        a = P.adts.get(it["path"])
        if not a: continue
        for v in a["variants"]:
            for fl in v["fields"]:
                share(ctx, P.ty(fl["ty"]), "%s%s.%s" % (a["path"], "" if a["kind"] == "struct" else "::" + v["name"], fl["name"]), seen)
        ctx.count("public types")
    ctx.floor("public types", 30, "public types")
    for im in P.impls:
        t = (im.get("trait") or "").split("::")[-1]
        if t in ("Send", "Sync") or im.get("neg"):
            ctx.violation("impl:%s" % t, "explicit impl of %s at %s:%s" % (t, im["at"][0], im["at"][1]))


def body(ctx, raw, f, b):
    P = ctx.P
    where = "%s" % P.where(raw)
    ext = ctx.cover.setdefault("_ext", set())

    def visit(o):
        if isinstance(o.get("fn"), dict): callee(ctx, raw, where, o["fn"], ext)
        if o.get("static"):
            ctx.count("static uses")
            if not o.get("staticlocal"): ctx.violation("extstatic:%s:%s" % (raw, o["static"]), "%s uses the foreign static %s" % (where, o["static"]))
        if o.get("r") == "cast":
            ctx.count("casts")
            if "Expose" in o["kind"] or ("FnPtrToPtr" in o["kind"]): ctx.violation("cast:" + raw, "%s turns a pointer into a number (%s)" % (where, o["kind"]))
        if o.get("t") == "call": ctx.count("call sites")
        if o.get("t") in ("asm", "inlineasm", "other"): ctx.violation("asm:" + raw, "%s contains a terminator that is not analysed" % where)
    walk(b["blocks"], visit)
    ctx.cover["external functions"] = len(ext)
    if "_ext" in ctx.cover and len(ext) > 0: ctx.cover["_ext"] = ext


def callee(ctx, raw, where, c, ext):
    P = ctx.P
    for p in {c.get("respath") or "", c["path"]}:
        if not p: continue
        q = re.sub(r"^<+(&'?\w* ?)?(mut )?", "", p)
        crate = re.match(r"\w+", q)
        crate = crate.group(0) if crate else ""
        if "::" in p and p[0] != "<" and crate not in CRATES:
            ctx.violation("crate:%s:%s" % (raw, p), "%s calls %s of a crate that is not analysed" % (where, p))
        for rx, why in DENY:
            if re.search(rx, p): ctx.violation("effect:%s:%s" % (raw, p), "%s calls %s (%s)" % (where, p, why))
        if HASH.search(p) and c["name"] in ITER:
            ctx.violation("hash:%s:%s" % (raw, p), "%s iterates a hash table with %s (order is random)" % (where, p))
    if c["name"] in ITER and "self" in c:
        t = P.ty(c["self"])
        while t[0] == "ref": t = t[2]
        if t[0] == "adt" and HASH.search(t[1]): ctx.violation("hash:%s:%s" % (raw, c["name"]), "%s iterates a hash table (%s, order is random)" % (where, t[1]))
    if c.get("local") and not c.get("trait") and "ctor" not in c and c["raw"] not in P.fns:
        ctx.violation("nobody:%s:%s" % (raw, c["raw"]), "%s calls %s, which has no body to analyse" % (where, c["path"]))
    if not c.get("local"): ext.add(c.get("respath") or c["path"])


def share(ctx, t, path, seen):
    P = ctx.P
    k = (t,)
    if k in seen: return
    seen.add(k)
    ctx.count("field types")
    bad = None
    if t[0] == "ptr": bad = "raw pointer"
    elif t[0] == "fnptr": return
    elif t[0] == "dyn" and not ("Send" in t[1] and "Sync" in t[1]): bad = "trait object without Send + Sync (%s)" % t[1]
    elif t[0] == "ref" and t[1]: bad = "mutable borrow"
    elif t[0] == "adt":
        n = t[1].split("::")[-1]
        if n in BADTY or n.startswith("Atomic"): bad = "%s (%s)" % (t[1], BADTY.get(n, "interior mutability"))
        a = P.adts.get(t[1])
        if a and a["local"] and not bad:
            for vi, v in enumerate(a["variants"]):
                for i, fl in enumerate(v["fields"]): share(ctx, P.ty(fl["ty"]), path + "." + fl["name"], seen)
    if bad: ctx.violation("share:%s" % path, "%s contains a %s: documents could not be shared freely between threads" % (path, bad))
    for x in t[1:]:
        if isinstance(x, tuple) and x:
            if isinstance(x[0], str): share(ctx, x, path, seen)
            else:
                for y in x:
                    if isinstance(y, tuple) and y and isinstance(y[0], str): share(ctx, y, path, seen)
