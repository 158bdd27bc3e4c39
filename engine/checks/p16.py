"""Value::into_static is evaluated abstractly for every variant with unknown contents (lists and maps of any length element by
element, recursive calls by induction on the value); Document::into_static must be the identity; every transmute may only change
lifetimes of a type whose fields, fully resolved, hold no reference; no other unsafe operation exists in the crate."""
from interp import Interp, St, Unsupported, refv
from seqdom import SeqDom, mksym
from checks.p18 import find_adt

LEVEL = "other"
ASSUMES = ["Clone, AsRef<str>, From<&str> and ToString of the standard text types copy the text"]


class D16(SeqDom):
    def __init__(self, P, valty, todo):
        self.P = P; self.valty = valty; self.todo = todo

    def local_call(self, I, st, raw, env, args):
        b = self.P.body(raw)
        t = self.P.ty(b["locals"][0])
        if len(args) == 1 and t[0] == "adt" and t[1] == self.valty:
            v = I.val(st, args[0])
            if v[0] == "sym" and v[2][0] == "adt" and v[2][1] == self.valty:
                if raw not in self.todo: self.todo.append(raw)
                return I.ret(st, ("static", v[1]))
        return None

    def to_string(self, I, st, v, info): return v
    def display(self, I, st, how, spec, v): return v if how == "display" and not spec else None


def run(ctx):
    P = ctx.P
    valty = "graphql_parser::common::Value"
    if valty not in P.adts: valty = find_adt(P, "Value")
    if not ctx.require(valty, "anchor:Value", "the type Value was not found"): return
    todo = [raw for raw, f in P.fns.items() if f.get("name") == "into_static" and "implself" in f and P.ty(f["implself"])[:2] == ("adt", valty)]
    ctx.require(todo, "anchor:Value::into_static", "Value::into_static was not found")
    docs = [raw for raw, f in P.fns.items() if f.get("name") == "into_static" and "implself" in f and raw not in todo]
    ctx.cover["documents"] = len(docs)
    i = 0
    while i < len(todo):
        ctx.guard("Value::into_static", value, ctx, todo[i], valty, todo)
        i += 1
    ctx.floor("variants", 9, "variants")
    for raw in docs: ctx.guard("into_static", document, ctx, raw)
    ctx.floor("documents", 2, "Document::into_static functions")
    unsafe(ctx)
    # every owned type is really owned
    t = P.ty(P.body(todo[0])["locals"][0])
    owned(ctx, t, "result of Value::into_static", "value")


def value(ctx, raw, valty, todo):
    P = ctx.P
    b = P.body(raw)
    t = P.ty(b["locals"][1])
    byref = t[0] == "ref"
    if byref: t = t[2]
    for vi, var in enumerate(P.adts[valty]["variants"]):
        ctx.count("variants")
        ctx.guard("into_static of %s" % var["name"], variant, ctx, raw, valty, todo, t, byref, vi, var)


def variant(ctx, raw, valty, todo, t, byref, vi, var):
    P = ctx.P
    I = Interp(P, D16(P, valty, todo))
    st = St()
    st.facts[("v",)] = vi
    x = ("sym", ("v",), t)
    I.push(st, raw, (), [refv(x) if byref else x])
    n, edges = I.explore(st)
    seen = 0
    for e in edges:
        if not isinstance(e[2], tuple): continue
        ctx.count("paths")
        k, r, s = e[2]
        if k == "panic":
            ctx.violation("panic:" + var["name"], "%s can panic on a %s value" % (P.where(raw), var["name"])); continue
        seen += 1
        want = tuple(I.symfield(s, x, i, vi) for i in range(len(var["fields"])))
        good = r[0] == "adt" and r[1] == valty and r[2] == vi and all(same(I, P, s, g, w, valty) for g, w in zip(r[3], want))
        if not good:
            ctx.violation("value:%s" % var["name"], "%s: a Value::%s becomes %s" % (P.where(raw), var["name"], describe(P, r, valty)))
    ctx.require(seen, "value:%s:none" % var["name"], "%s: no result for Value::%s" % (P.where(raw), var["name"]))


def same(I, P, st, got, want, valty):
    got = I.val(st, got)
    want = I.val(st, want)
    if got == want: return True
    if want[0] == "sym":
        p, t = want[1], want[2]
        if t[0] == "adt" and t[1].endswith("BTreeMap"):
            if got == ("vec", ()): return st.facts.get(("empty", p)) is True
            return got[0] == "mapped" and got[1] == p and got[2] == ("tup", (I.val(st, mksym(p + ("[key]",), t[2][0])), ("static", p + ("[val]",))))
        if t[0] == "adt" and t[1].endswith("::Vec"):
            if got == ("vec", ()): return st.facts.get(("empty", p)) is True
            return got[0] == "mapped" and got[1] == p and got[2] == ("static", p + ("[*]",))
        if got[0] == "adt" and t[0] == "adt" and got[1] == t[1]:
            w = I.expand(st, want)
            return w[0] == "adt" and w[2] == got[2] and all(same(I, P, st, a, b, valty) for a, b in zip(got[3], w[3]))
        if got[0] == "b" and (want in st.facts): return st.facts[want] == got[1]
        if got[0] == "cat" and len(got[1]) == 1: return same(I, P, st, got[1][0], want, valty)
    return False


def describe(P, r, valty):
    if r[0] == "adt" and r[1] == valty:
        return "Value::%s(%s)" % (P.adts[valty]["variants"][r[2]]["name"], ", ".join(str(x) for x in r[3]))
    return str(r)


def document(ctx, raw):
    P = ctx.P
    t = P.ty(P.fns[raw]["implself"])
    where = P.where(raw)
    ctx.require(not params(P, t), "generic:" + raw, "%s: makes documents of any text type 'static, also those that borrow the source" % where)
    owned(ctx, t, where, raw)
    I = Interp(P, SeqDom())
    st = St()
    x = ("sym", ("doc",), t)
    a = P.ty(P.body(raw)["locals"][1])
    I.push(st, raw, (), [refv(x) if a[0] == "ref" else x])
    n, edges = I.explore(st)
    for e in edges:
        if not isinstance(e[2], tuple): continue
        ctx.count("paths")
        k, r, s = e[2]
        good = k == "ret" and ident(I, s, r, x)
        ctx.require(good, "document:" + raw, "%s does not return the document it is given: %s" % (where, str(r)[:300]))


def ident(I, st, r, x):
    r = I.val(st, r); x = I.val(st, x)
    if r == x: return True
    if x[0] == "sym" and r[0] == "adt":
        w = I.expand(st, x)
        return w[0] == "adt" and w[1:3] == r[1:3] and all(ident(I, st, a, b) for a, b in zip(r[3], w[3]))
    if r[0] == "mapped" and x[0] == "sym": return r[1] == x[1] and r[2][0] == "sym" and r[2][1] == x[1] + ("[*]",)
    if r == ("vec", ()) and x[0] == "sym": return st.facts.get(("empty", x[1])) is True
    return False


def params(P, t):
    if t[0] == "param": return True
    return any(params(P, x) if x and isinstance(x[0], str) else any(params(P, y) for y in x if isinstance(y, tuple)) for x in t[1:] if isinstance(x, tuple) and x)


def resolve(P, t):
    while t[0] == "alias":
        if not t[2]: return t
        for im in P.impls:
            if im["trait"] and t[1].startswith(im["trait"] + "::"):
                env = {}
                if P.unify(P.ty(im["self"]), t[2][0], env):
                    for it in im["items"]:
                        if it[0] == t[1].split("::")[-1] and len(it) > 3:
                            t = P.subst(P.ty(it[3]), env); break
                    else: continue
                    break
        else: return t
    return t


def owned(ctx, t, what, key):
    """no borrow anywhere in t"""
    P = ctx.P
    seen = set()

    def w(t, path):
        t = resolve(P, t)
        if t in seen: return
        seen.add(t)
        ctx.count("types resolved")
        if t[0] == "ref": return ctx.violation("borrow:%s" % key, "%s: %s is a reference, so an owned document would keep a borrow of the source" % (what, path))
        if t[0] in ("ptr", "fnptr", "dyn", "param", "alias", "other"):
            return ctx.violation("borrow:%s" % key, "%s: %s has type %s, which may hold a borrow" % (what, path, t[:2]))
        if t[0] == "tuple":
            for i, x in enumerate(t[1]): w(x, "%s.%d" % (path, i))
        elif t[0] in ("slice", "array"): w(t[1], path + "[]")
        elif t[0] == "adt":
            if t[1].endswith("PhantomData"): return
            if t[1].endswith("borrow::Cow"): return ctx.violation("borrow:%s" % key, "%s: %s is a Cow, which may borrow the source" % (what, path))
            a = P.adts.get(t[1])
            if a and a["local"]:
                for vi, v in enumerate(a["variants"]):
                    for fi, f in enumerate(v["fields"]): w(P.field_ty(t, vi, fi), "%s.%s" % (path, f["name"] if a["kind"] == "struct" else v["name"]))
            else:
                for x in t[2]:
                    if x[0] != "const": w(x, path + "<>")
    w(t, t[1].split("::")[-1])


def unsafe(ctx):
    P = ctx.P
    for raw, f in sorted(P.fns.items()):
        where = P.where(raw)
        ctx.count("bodies scanned for unsafe operations")
        if f.get("unsafe"): ctx.violation("unsafefn:" + raw, "%s is an unsafe function" % where)
        for b in [f["body"]] + list(f["promoted"]):
            tys = [P.ty(x) for x in b["locals"]]

            def visit(o):
                fn = o.get("fn")
                if isinstance(fn, dict) and fn.get("unsafe") and not fn["path"].startswith(("std::fmt::Arguments", "core::fmt::rt", "std::fmt::rt")) and not f.get("derived"):
                    if not fn["path"].split("::")[-1] == "transmute":
                        ctx.violation("unsafe:%s:%s" % (raw, fn["path"]), "%s calls the unsafe function %s" % (where, fn["path"]))
                if o.get("r") == "cast" and o["kind"] == "Transmute":
                    src = operand_ty(P, tys, o["o"]); dst = P.ty(o["t"])
                    ctx.count("transmutes")
                    if src != dst:
                        ctx.violation("transmute:%s" % raw, "%s transmutes %s into the different type %s" % (where, src, dst))
                    owned(ctx, dst, "transmute in " + where, "transmute:" + raw)
                    if params(P, dst): ctx.violation("transmute:%s:generic" % raw, "%s transmutes a type that depends on the text type" % where)
                if o.get("r") == "cast" and o["kind"] in ("PtrToPtr", "FnPtrToPtr") or "WithExposedProvenance" in str(o.get("kind", "")):
                    ctx.violation("ptr:%s" % raw, "%s casts raw pointers" % where)
                if o.get("r") == "rawptr" and not f.get("derived"):
                    ctx.count("raw borrows")
            from checks.p20 import walk
            walk(b["blocks"], visit)
            for bb in b["blocks"]:
                for p in places(bb):
                    t = tys[p["l"]]
                    if t[0] == "ptr" and "*" in p["p"][:1] and not boxlocal(b, p["l"], tys):
                        ctx.violation("deref:%s" % raw, "%s reads or writes through a raw pointer" % where)
    for u in P.D["unsafe_blocks"]:
        ctx.count("unsafe blocks")
        f = P.fns.get(u["in"])
        tr = f and any(s.get("s") == "=" and s["r"]["r"] == "cast" and s["r"]["kind"] == "Transmute" for bb in f["body"]["blocks"] for s in bb["st"])
        ctx.require(tr, "block:" + u["in"], "%s (%s:%s) contains an unsafe block for something else than detaching a document" % (u["in"], u["at"][0], u["at"][1]))
    ctx.sample({"unsafe blocks": ["%s:%s" % tuple(u["at"]) for u in P.D["unsafe_blocks"]]})
    ctx.floor("bodies scanned for unsafe operations", 300, "bodies")


def boxlocal(b, l, tys):
    """raw pointers the compiler makes to reach into a box"""
    for bb in b["blocks"]:
        for s in bb["st"]:
            if s["s"] == "=" and s["p"]["l"] == l and not s["p"]["p"]:
                if not (s["r"]["r"] == "cast" and s["r"]["kind"] == "BoxDerefTransmute" or s["r"]["r"] == "cast" and s["r"]["kind"] == "Transmute" and s["at"]): return False
    return True


def places(bb):
    out = []
    def w(o):
        if isinstance(o, dict):
            if "l" in o and "p" in o and isinstance(o["p"], list): out.append(o)
            for v in o.values(): w(v)
        elif isinstance(o, list):
            for v in o: w(v)
    w(bb)
    return out


def operand_ty(P, tys, o):
    if "c" in o: return P.ty(o["c"])
    p = o.get("cp") or o.get("mv")
    t = tys[p["l"]]
    return t if not p["p"] else ("projection",)
