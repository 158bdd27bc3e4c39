"""Grammar side: in every alternative of every recursive parser rule, each call of a recursive rule stands between an opening bracket
the rule has read and its closing bracket, and brackets are balanced at the end, so that every level of recursion costs one unit of
the limit and gives it back. Lexer side: interpreting the lexer shows that exactly the opening brackets take one unit (an error when
none is left), exactly the closing ones give one back, nothing else changes the limit, and every stream starts with the same limit."""
from parsers import Parsers
from gram import C
from lexlangs import tokens, remembers, restores, TOP
from lexspec import build, without, Seq, Alt, Mk, PRE, REST, END as END_, C as C_, chars, minus, ANY
from lang import product, relabel, word
from check import norm

LEVEL = "other"
ASSUMES = ["the combinators of combine 4.6 behave as documented; their own recursion depth is bounded by the size of the parser expression"]
OPEN = frozenset("([{"); CLOSE = frozenset(")]}")


class Bad(Exception):
    pass


def delta(cls):
    d = set()
    for k, neg, texts in cls:
        if k != "Punctuator": d.add(0); continue
        if neg:
            if OPEN - texts: d.add(1)
            if CLOSE - texts: d.add(-1)
            d.add(0)
        else:
            for t in texts: d.add(1 if t in OPEN else -1 if t in CLOSE else 0)
    return d


def depth(G, alts, start, calls):
    """-> set of depths after alts; calls collects (key, depth)"""
    out = set()
    for a in alts:
        if a.fail: continue
        cur = start
        for it in a.items:
            k = it[0]
            if k == "tok":
                d = delta(G.cls(it[1], a.facts))
                if len(d) > 1: raise Bad("a token that may or may not be a bracket")
                cur += (list(d) or [0])[0]
            elif k == "call": calls.append((it[2], cur))
            elif k in ("rep", "nfa"):
                rep = it if k == "rep" else it[2]
                for part in (rep[2], rep[4] or ()):
                    if part and depth(G, part, cur, calls) - {cur}: raise Bad("a repetition that does not close what it opens")
        if cur < start: raise Bad("a closing bracket without an opening one")
        out.add(cur)
    return out


def run(ctx):
    P = ctx.P
    pa = Parsers(P, ["parse_query", "consume_definition"])
    pb = Parsers(P, ["parse_schema"])
    for p in (pa, pb):
        keys = list(p.entry.values())
        for k in list(keys): keys += [c for c in p.reachable(k) if c not in keys]
        for key in keys:
            calls = []
            rec = key not in p.entry.values()
            try: ds = depth(p.G, p.G.rule(key), 0, calls)
            except Bad as e:
                ctx.violation("balance:" + key[0], "%s reads %s" % (P.where(key[0]), e)); continue
            ctx.count("rules")
            ctx.require(ds <= {0}, "balance:" + key[0], "%s can end with more brackets opened than closed" % P.where(key[0]))
            for c, d in calls:
                ctx.count("recursive calls")
                if rec and d < 1:
                    ctx.violation("depth:%s:%s" % (key[0], c[0]), "%s calls %s without having opened a bracket: that recursion is not limited" % (P.where(key[0]), P.where(c[0])))
    ctx.floor("rules", 10, "rules")
    ctx.floor("recursive calls", 10, "recursive calls")
    pa.G.streams |= pb.G.streams
    lexer(ctx, pa.G.streams)


def lexer(ctx, streams):
    L, res = tokens(ctx, limits=True)
    al = L.alphabet()
    where = ctx.P.where(L.raw["uncons"])
    if not ctx.require("limit" in L.role, "nolimit", "%s has no limit" % L.adt): return
    at = lambda c: build(al, Seq(PRE, Mk("S"), C_(c), REST))
    opening, closing = at(chars("([{")), at(chars(")]}"))
    other = build(al, Seq(PRE, Mk("S"), Alt(Seq(C_(minus(ANY, chars("()[]{}"))), REST), END_)))
    refused = False
    for (key, _), a in sorted(res.items(), key=str):
        ctx.count("outcomes compared")
        b = relabel(a, {"o": None, "v": None, "e": None})
        op, cl = product(b, opening), product(b, closing)
        w = lambda x: word(x, al)
        if key[0] == "panic":
            ctx.violation("panic:" + norm(key[1]), "%s panics (%s): %s" % (where, key[1], word(a, al))); continue
        name = key[1] if key[0] == "ok" else repr(key[2])
        dl, vals = key[2] if key[0] == "ok" else key[3]
        free = (0, TOP, TOP + 1)
        if key[0] == "err":
            if op:
                refused = True
                ctx.require(vals == (0, 0, 1) and dl == 0, "refuse", "%s refuses an opening bracket when the limit is %s, and changes the limit by %s" % (where, span(vals), dl))
            if cl: ctx.violation("refuse-closing", "%s answers %s to a closing bracket: %s" % (where, name, w(cl)))
            continue
        if op: ctx.require(dl == -1 and vals == (1, TOP, TOP), "open", "%s returns an opening bracket as %s, changing the limit by %s when it is %s: %s" % (where, name, dl, span(vals), w(op)))
        if cl: ctx.require(dl == 1 and vals == free, "close", "%s returns a closing bracket as %s, changing the limit by %s when it is %s: %s" % (where, name, dl, span(vals), w(cl)))
        rest = product(b, other)
        if rest: ctx.require(dl == 0 and vals == free, "rest:" + name, "%s changes the limit by %s (when it is %s) for a %s token that is no bracket: %s" % (where, dl, span(vals), name, w(rest)))
    ctx.require(refused, "unlimited", "%s never refuses an opening bracket" % where)
    ctx.guard("what is read again", remembers, ctx, L)
    ctx.guard("reset", restores, ctx, L, ("off", "position"))
    lims = set()
    for raw in sorted(streams):
        ctx.count("stream constructors used")
        if raw not in L.built: ctx.violation("ctor:" + raw, "%s is not a constructor that was analysed" % raw); continue
        for s, ev, d in L.built[raw][2]:
            if isinstance(d, tuple) and d[0] == "ret":
                v = L.get(d[1], "limit")
                if ctx.require(v[0] == "i", "const:" + raw, "%s starts with the limit %s" % (ctx.P.where(raw), str(v)[:80])): lims.add(v[1])
    ctx.cover["limits"] = sorted(lims)
    ctx.require(len(lims) == 1 and all(1 <= x <= 1000 for x in lims), "limit", "the entry points start with the limits %s: expected one limit between 1 and 1000" % sorted(lims))
    ctx.floor("outcomes compared", 9, "outcomes")
    ctx.floor("stream constructors used", 1, "constructors")


def span(v): return "anything" if v and v[2] == TOP + 1 else "%s to %s" % (v[0], v[1] if v[1] < TOP else "any") if v else "impossible"
