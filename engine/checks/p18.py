"""as_str, from_str, is_query and is_schema of DirectiveLocation are evaluated abstractly over MIR: for every variant, for
every name in GraphQL's table, and for one symbolic string that differs from every literal it is compared with."""
from interp import Interp, Dom, St, Unsupported, refv

ASSUMES = ["the GraphQL directive location table (June 2018 plus VARIABLE_DEFINITION) in the check is right"]
LOC = "graphql_parser::schema::DirectiveLocation"
EXEC = ["QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD", "INLINE_FRAGMENT", "VARIABLE_DEFINITION"]
TYPE = ["SCHEMA", "SCALAR", "OBJECT", "FIELD_DEFINITION", "ARGUMENT_DEFINITION", "INTERFACE", "UNION", "ENUM", "ENUM_VALUE", "INPUT_OBJECT", "INPUT_FIELD_DEFINITION"]


def camel(n): return "".join(w.capitalize() for w in n.split("_"))


class Other(Dom):
    """a string that is no location's name; everything else about it is unknown, other literals it may or may not equal"""
    def condition(self, I, st, v):
        if v[0] == "not": return [(s, not b) for s, b in self.condition(I, st, v[1])]
        if v[0] == "eq" and any(x[0] in ("s", "by") for x in v[1:3]) and any(x[0] == "sym" and x[1] == ("text",) for x in v[1:3]):
            lit = [x[1] for x in v[1:3] if x[0] in ("s", "by")][0]
            if isinstance(lit, (bytes, bytearray, tuple, list)): lit = bytes(lit).decode("utf-8", "replace")
            if lit in EXEC or lit in TYPE: return [(st, False)]
            return [(st.copy(), True), (st.copy(), False)]
        return I.fork_fact(st, v)

    def str_method(self, I, st, n, v, args, info):
        if v[0] in ("sym", "top", "strop"):
            r = ("strop", n, v, tuple(I.val(st, a) for a in args[1:]))
            return I.ret(st, r)

    def switch(self, I, st, v, arms, els):
        out = []
        for x, b in arms + [(None, els)]:
            out.append((st.copy(), b))
        return out


def outcomes(P, raw, args, dom=None):
    I = Interp(P, dom or Dom())
    st = St()
    I.push(st, raw, (), args)
    n, edges = I.explore(st)
    res = []
    for e in edges:
        if isinstance(e[2], tuple): res.append(e[2])
    return res, I


def method(P, path, name, trait=None):
    for raw, f in P.fns.items():
        if f.get("name") == name and "implself" in f and P.ty(f["implself"])[:2] == ("adt", path):
            if (f.get("implof") or None) == trait: return raw
    return None


def find_adt(P, name):
    c = [p for p, a in P.adts.items() if a["local"] and p.split("::")[-1] == name]
    return c[0] if len(c) == 1 else None


def run(ctx):
    P = ctx.P
    loc = LOC if LOC in P.adts else find_adt(P, "DirectiveLocation")
    if not ctx.require(loc, "anchor:DirectiveLocation", "the enum DirectiveLocation was not found"): return
    variants = [v["name"] for v in P.adts[loc]["variants"]]
    fns = {"as_str": method(P, loc, "as_str"), "is_query": method(P, loc, "is_query"), "is_schema": method(P, loc, "is_schema"),
           "from_str": method(P, loc, "from_str", "std::str::FromStr")}
    for k, v in fns.items():
        if not ctx.require(v, "anchor:" + k, "DirectiveLocation::%s was not found" % k): return
    table = {camel(n): n for n in EXEC + TYPE}
    for v in variants:
        ctx.require(v in table, "unknown-variant:" + v, "%s::%s is not a GraphQL directive location" % (loc, v))
    for v, n in table.items():
        ctx.require(v in variants, "missing-variant:" + n, "no variant of %s stands for %s" % (loc, n))

    def one(raw, args, what, dom=None):
        rs, I = outcomes(P, raw, args, dom)
        vals = []
        for r in rs:
            if r[0] == "panic": ctx.violation("panic:" + what, "%s can panic for %s" % (P.where(raw), what))
            else: vals.append(I.val(r[2], r[1]) if r[1][0] == "ref" else r[1])
        return vals

    for i, v in enumerate(variants):
        if v not in table: continue
        val = refv(("adt", loc, i, ()))
        n = table[v]
        got = one(fns["as_str"], [val], "as_str(%s)" % v)
        ctx.count("variant evaluations")
        ctx.require(got == [("s", n)], "as_str:" + v, "%s: as_str of %s is %s, GraphQL's name is %r" % (P.where(fns["as_str"]), v, show(got), n))
        for f, want in (("is_query", n in EXEC), ("is_schema", n in TYPE)):
            got = one(fns[f], [val], "%s(%s)" % (f, v))
            ctx.count("variant evaluations")
            ctx.require(got == [("b", want)], "%s:%s" % (f, v), "%s: %s(%s) is %s, expected %s (GraphQL: %s location)" % (
                P.where(fns[f]), f, v, show(got), want, "executable" if n in EXEC else "type-system"))
        got = one(fns["from_str"], [refv(("s", n))], "from_str(%r)" % n)
        ctx.count("name evaluations")
        want = [("adt", "std::result::Result", 0, (("adt", loc, i, ()),))]
        ctx.require(got == want, "from_str:" + n, "%s: from_str(%r) is %s, expected Ok(%s)" % (P.where(fns["from_str"]), n, show(got, P), v))
    got = one(fns["from_str"], [refv(("sym", ("text",), ("str",)))], "any other text", Other())
    ctx.count("paths for any other text", len(got))
    for g in got:
        ctx.require(g[0] == "adt" and g[1] == "std::result::Result" and g[2] == 1, "from_str:other",
                    "%s: from_str can return %s for a text that is no location's name" % (P.where(fns["from_str"]), show([g], P)))
    ctx.sample({"as_str": {v: table[v] for v in variants[:3] if v in table}})
    ctx.floor("variant evaluations", 57, "variant evaluations")
    ctx.floor("paths for any other text", 1, "paths")
    # nothing may re-implement the table: the parser and printer use these functions (decided by P02/P04)


def show(vals, P=None):
    def s(v):
        if v[0] == "adt":
            name = v[1].split("::")[-1]
            if P and v[1] in P.adts: name += "::" + P.adts[v[1]]["variants"][v[2]]["name"]
            elif v[1].endswith("Result"): name = ["Ok", "Err"][v[2]]
            return name + ("(" + ", ".join(s(x) for x in v[3]) + ")" if v[3] else "")
        return repr(v[1]) if len(v) > 1 else v[0]
    return " or ".join(s(v) for v in vals) or "nothing"
