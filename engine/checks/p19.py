"""Every alternative of the value rules that reads a number token must be taken exactly when the standard parser of the one type the
tree holds (i64; finite f64) accepts the token's whole text, and must put its result, unchanged, into the variant of the token's kind.
The conversions of Number and everything the formatter writes for a number are interpreted abstractly: the same number, once, in the
standard library's notation, in a form the grammar reads as a number of that value."""
from interp import Interp, Dom, St, Unsupported, refv, OPT, RES
from parsers import Parsers
from gram import C
import prcheck
from prcheck import stylename

LEVEL = "other"
ASSUMES = ["str::parse of i64 and f64 and the Display and Debug texts of i64 and f64 are exact, as the standard library documents",
           "number tokens have the form of the lexical grammar (P08)"]
NUM = {"IntValue": ("Int", "i64"), "FloatValue": ("Float", "f64")}
BITS = {"i8": (True, 8), "i16": (True, 16), "i32": (True, 32), "i64": (True, 64), "isize": (True, 64), "i128": (True, 128),
        "u8": (False, 8), "u16": (False, 16), "u32": (False, 32), "u64": (False, 64), "usize": (False, 64), "u128": (False, 128)}


def run(ctx):
    pa = ctx.guard("the parsers", Parsers, ctx.P, ["parse_query", "parse_schema"])
    if pa is not None:
        seen = set()
        for e in pa.entry.values():
            for key in pa.reachable(e):
                n = pa.ntname(key)
                if n not in ("Value", "ConstValue") or key in seen: continue
                seen.add(key)
                ctx.guard("the numbers of %s" % ctx.P.where(key[0]), reading, ctx, pa, key, n)
        ctx.require(len(seen) >= 2, "anchor:values", "the rules for values and constant values were not found")
    ctx.guard("the conversions of Number", conversions, ctx)
    for doc in ("Query", "Schema"):
        x = ctx.guard("what the formatter of %s documents writes" % doc.lower(), prcheck.explore, ctx, doc)
        if x is not None: ctx.guard("how numbers are written", printing, ctx, x)
    ctx.floor("alternatives that read a number", 4, "alternatives")
    ctx.floor("conversions evaluated", 2, "conversions")
    ctx.floor("ways to write a number", 8, "ways")


def kinds(c): return {k for k, n, t in c if n or t}


def reading(ctx, pa, key, nt):
    where = ctx.P.where(key[0])
    got = {}
    for a in pa.G.rule(key):
        if a.fail: continue
        facts = dict(a.facts)
        for it in a.items:
            if it[0] == "nn" or len(it) < 2: continue
            c = facts.get(("cls", it[1]))
            if c is None: continue
            ks = kinds(c) & set(NUM)
            if not ks: continue
            ctx.count("alternatives that read a number")
            tok = ("ttext", it[1])
            if len(kinds(c)) > 1:
                ctx.violation("kinds:%s" % nt, "%s: one alternative of %s reads tokens of the kinds %s" % (where, nt, ", ".join(sorted(kinds(c))))); continue
            k = ks.pop()
            var, ty = NUM[k]
            nums = []
            find(a.out, None, nums)
            want = [("Value::" + var, ("conv", ty, tok))]
            have = [(name(ctx.P, h), v) for h, v in nums]
            if have != want:
                ctx.violation("value:%s:%s" % (nt, k), "%s: a token of kind %s becomes %s instead of %s holding the %s its text denotes" % (where, k, show(have), want[0][0], ty)); continue
            need = {("parses", ty, tok): True}
            if ty == "f64": need[("finite", tok)] = True
            f = {x: b for x, b in facts.items() if mentions(x, tok)}
            for x, b in need.items():
                if f.pop(x, None) != b: ctx.violation("condition:%s:%s" % (nt, x[0]), "%s: a token of kind %s is accepted without a test that its text is %s" % (where, k, "an " + ty if x[0] == "parses" else "finite"))
            for x in f: ctx.violation("more:%s:%s" % (nt, x[0]), "%s: whether a token of kind %s is accepted also depends on %s" % (where, k, x[0]))
            got[k] = got.get(k, 0) + 1
    for k in NUM: ctx.require(got.get(k), "none:%s:%s" % (nt, k), "%s: no alternative of %s reads a token of kind %s" % (where, nt, k))


def name(P, h):
    if h is None: return "?"
    a = P.adts.get(h[0])
    return h[0].split("::")[-1] + ("::" + a["variants"][h[1]]["name"] if a and a["kind"] == "enum" else "")


def find(v, holder, acc):
    """numbers in a result, with the enum variant that holds them"""
    if not isinstance(v, tuple) or not v: return
    if v[0] in ("conv", "cast", "fop"): acc.append((holder, v)); return
    if v[0] == "adt":
        h = (v[1], v[2]) if v[1].split("::")[-1] == "Value" else holder
        for x in v[3]: find(x, h, acc)
        return
    for x in v:
        if isinstance(x, tuple): find(x, holder, acc)


def mentions(x, t):
    if x == t: return True
    return isinstance(x, tuple) and any(mentions(y, t) for y in x)


def show(have):
    return ", ".join("%s(%s)" % (h, "text parsed as %s" % v[1] if v[0] == "conv" else str(v)[:80]) for h, v in have) or "nothing with a number"


# ------------------------------------------------------------------ Number
class NumDom(Dom):
    """one unknown number: ("num", type)"""
    def cast(self, I, st, v, t, kind):
        if v[0] == "sym" and v[1][0] == "num" and t[0] in ("int", "uint"):
            (s, n), (s2, n2) = BITS[v[1][1]], BITS[t[1]]
            if (s == s2 and n2 >= n) or (not s and s2 and n2 > n): return v
        return None

    def convert(self, I, st, v, info):
        x = I.val(st, v)
        t = info["self"] if info["name"] == "From::from" else (info["targs"][-1] if info["targs"] else None)
        if x[0] == "sym" and x[1][0] == "num" and t and t[0] in ("int", "uint"): return x
        return None


def conversions(ctx):
    P = ctx.P
    c = [p for p, a in P.adts.items() if a.get("local") and p.split("::")[-1] == "Number"]
    if not ctx.require(len(c) == 1, "anchor:Number", "the type Number was not found"): return
    adt = c[0]
    pay = P.field_ty(("adt", adt, ()), 0, 0)
    ctx.require(pay == ("int", "i64"), "payload", "Number holds %s instead of an i64" % (pay,))
    found = set()
    for raw, f in P.fns.items():
        if "implself" not in f or P.ty(f["implself"])[:2] != ("adt", adt) or f.get("derived"): continue
        tr = f.get("implof")
        b = P.body(raw)
        ts = [P.ty(t) for t in b["locals"][:b["argc"] + 1]]
        if f.get("name") == "as_i64" and tr is None: mode = "get"
        elif tr and tr.split("<")[0].endswith("convert::From") and len(ts) == 2 and ts[1][0] in ("int", "uint"): mode = "from"
        else: continue
        x = ("sym", ("num", pay[1] if mode == "get" else ts[1][1]))
        arg = ("adt", adt, 0, (x,))
        if mode == "from": arg = x
        elif ts[1][0] == "ref": arg = refv(arg)
        I = Interp(P, NumDom())
        st = St()
        I.push(st, raw, (), [arg])
        _, edges = I.explore(st)
        want = ("adt", adt, 0, (x,)) if mode == "from" else ("adt", OPT, 1, (x,))
        found.add(mode)
        ctx.count("conversions evaluated")
        for s, ev, d in edges:
            if not isinstance(d, tuple): continue
            if d[0] == "panic": ctx.violation("panic:" + mode, "%s can panic" % P.where(raw)); continue
            r = I.val(d[2], d[1]) if d[1][0] == "ref" else d[1]
            if r[0] == "adt" and r[1] == OPT and mode == "get": r = ("adt", OPT, r[2], tuple(I.val(d[2], y) if y[0] == "ref" else y for y in r[3]))
            ctx.require(r == want, "number:" + mode, "%s: the number it is given is not what it returns (%s)" % (P.where(raw), str(r)[:120]))
    for m, w in (("get", "as_i64"), ("from", "From<i32>")): ctx.require(m in found, "anchor:" + w, "%s of Number was not found" % w)


# ------------------------------------------------------------------ printing
def printing(ctx, x):
    for c, cur in x.contexts:
        for root, R in cur.items():
            if R.nt not in ("Value", "ConstValue"):
                for a, n, edges in R.graphs: leaves(ctx, x, root, R, a, edges, None)
                continue
            for a, n, edges in R.graphs:
                ks = {k for f, c in dict(a.facts).items() if f[0] == "cls" for k in kinds(c)} & set(NUM)
                leaves(ctx, x, root, R, a, edges, ks.pop() if len(ks) == 1 else None)


def leaves(ctx, x, root, R, a, edges, kind):
    """kind: what is written is one number and nothing else"""
    where = "%s (%s)" % (ctx.P.where(R.raw), stylename(x, root))
    for s, ev, d in edges:
        for i, e in enumerate(ev):
            if e[0] == "bad" and ("integer" in e[1] or "float" in e[1] or "number" in e[1]) and any(y[0] == "leaf" and y[1] == "num" for y in ev[i:i + 2]):
                ctx.violation("writes:" + e[1], "%s: %s" % (where, e[1]))
    if kind is None: return
    ctx.count("ways to write a number")
    out = {}
    for s, ev, d in edges: out.setdefault(s, []).append((ev, d))
    wl = [(0, 0)]; seen = set(wl)
    while wl:
        s, n = wl.pop()
        for ev, d in out.get(s, ()):
            m = n
            for e in ev:
                if e[0] == "leaf": m += 1 if e[1] == "num" else 2
                elif e[0] in ("t", "rep", "call", "final"): m += 2
            m = min(m, 2)
            if m == 2: ctx.violation("once:%s" % kind, "%s: more than the number is written for a token of kind %s" % (where, kind)); continue
            if isinstance(d, tuple):
                if d[0] != "panic" and m != 1: ctx.violation("once:%s" % kind, "%s: a number read from a token of kind %s is not written" % (where, kind))
                continue
            if (d, m) not in seen: seen.add((d, m)); wl.append((d, m))
