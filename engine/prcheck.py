"""Shared by the printer checks: exploration of the formatter of one kind of document and comparison with the grammar."""
from printer import X
import printlang as L
from interp import Unsupported


def stylename(X_, root):
    """the style a root is analysed under"""
    st = root[2] if root[0] == "doc" else find(root[4], X_.styleadt)
    if st is None: return "the default style"
    fs = X_.P.adts[X_.styleadt]["variants"][0]["fields"]
    out = []
    for f, x in zip(fs, st[3]):
        if x[0] == "b": out.append("%s %s" % (f["name"], "on" if x[1] else "off"))
        elif x[0] == "i": out.append("%s %d" % (f["name"], x[1]))
        elif x[0] == "adt": out.append("%s %s" % (f["name"], X_.P.adts[x[1]]["variants"][x[2]]["name"]))
    return ", ".join(out) or "any style"


def find(v, adt):
    if not isinstance(v, tuple) or not v: return None
    if v[0] == "adt" and v[1] == adt: return v
    for x in v:
        r = find(x, adt) if isinstance(x, tuple) else None
        if r is not None: return r
    return None


def explore(ctx, doc):
    x = X(ctx.P, doc)
    x.run()
    ctx.count("contexts", len(x.contexts))
    for c, cur in x.contexts:
        for r, R in cur.items():
            ctx.count("printing functions analysed (per style)")
            ctx.count("abstract states", R.nodes)
    ctx.count("functions interpreted", len(x.visited))
    ctx.sample({"recursive rules": sorted({R.nt for _, cur in x.contexts for R in cur.values()}), "string writers": sorted({ctx.P.where(w[0]) for w in x.writers})})
    return x


def languages(ctx, x):
    out = []
    for c, cur in x.contexts:
        LG = L.Lang(x, cur)
        ctx.count("automaton states", sum(len(n.E) for n in LG.nfa.values()))
        out.append((c, cur, LG))
    SL = L.SpecLang(x.S)
    SL.prepare(sorted({R.nt for _, cur in x.contexts for R in cur.values()}), ())
    return out, SL


def roundtrip(ctx, doc):
    x = ctx.guard("what the formatter writes", explore, ctx, doc)
    if x is None: return
    r = ctx.guard("what the formatter writes", languages, ctx, x)
    if r is None: return
    langs, SL = r
    done = set()
    for c, cur, LG in langs:
        for root, R in cur.items():
            where = ctx.P.where(R.raw)
            ctx.count("rules compared")
            for fs in R.unbalanced:
                bad = [f for f in fs if f != "?" and not intfield(ctx.P, root, int(f))]
                if "?" in fs or bad: ctx.violation("style:%s:%s" % (R.nt, fs), "%s changes the output or the style it was given" % where)
            d = ctx.guard("%s against the rule %s" % (where, R.nt), L.include, x, LG.nfa[root], SL, R.nt)
            ctx.count("pairs of states compared", getattr(L.include, "states", 0))
            if d: ctx.violation("prints:%s:%s" % (R.nt, d.split("\n")[0]), "%s (%s): a %s it writes is not read back as the same %s: %s" % (where, stylename(x, root), what(R.nt), what(R.nt), d))
    for nt, cls in SL.follow_conflicts(doc + "Document"):
        ctx.violation("follow:" + nt, "a %s may be followed by a token it would have read itself" % nt)
    ctx.floor("rules compared", 8, "rules")
    ctx.floor("functions interpreted", 20, "functions")
    ctx.floor("automaton states", 1000, "automaton states")


def what(nt): return "document" if nt.endswith("Document") else nt


def intfield(P, root, i):
    can = root[4]
    t = P.ty(P.adts[can[1]]["variants"][0]["fields"][i]["ty"])
    return t[0] in ("int", "uint")


def styles(ctx, doc):
    """all styles give the same tokens"""
    x = ctx.guard("what the formatter writes", explore, ctx, doc)
    if x is None: return
    r = ctx.guard("what the formatter writes", languages, ctx, x)
    if r is None: return
    langs, SL = r
    groups = {}
    for c, cur, LG in langs:
        for root, R in cur.items():
            if root[0] == "doc" and root[1] == "display": continue
            groups.setdefault((R.nt, R.proj), []).append((root, LG.nfa[root], R))
    for (nt, proj), l in groups.items():
        base = ctx.guard("the tokens of %s" % nt, L.tokens_only, l[0][1], SL.texts)
        if base is None: continue
        if len(l) == 1 and len({s for _, cur, _ in langs for s in cur}) > 1: ctx.count("rules written under one style only")
        for root, nfa, R in l[1:]:
            ctx.count("pairs of styles compared")
            d = ctx.guard("the tokens of %s" % nt, lambda: L.same(base, L.tokens_only(nfa, SL.texts)) or "")
            if d: ctx.violation("style:%s" % nt, "%s: the tokens of a %s depend on the style (%s, %s): %s" % (ctx.P.where(R.raw), what(nt), stylename(x, l[0][0]), stylename(x, root), d))
    ctx.floor("pairs of styles compared", 6, "pairs of styles")
