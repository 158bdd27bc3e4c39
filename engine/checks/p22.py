"""The parsers are extracted as LL(1) alternatives: every combinator they use decides on the next token, nothing that gives back
consumed tokens (attempt, look_ahead) occurs, no repetition can match nothing, and no function but the stream itself rewinds or reads
the stream; left recursion is excluded."""
import re
from parsers import Parsers, calls_of
from gram import C, GivesBack
from checks.p20 import walk

LEVEL = "other"
ASSUMES = ["combine's sequence, choice, optional and repetition try the next alternative only if no token was consumed, and read each token once (as documented)"]
DIRECT = {"uncons", "reset", "checkpoint", "uncons_range", "uncons_while", "uncons_while1", "distance", "range", "slice_from"}


def run(ctx):
    try: deterministic(ctx)
    except GivesBack as e: ctx.violation("back:%s" % e, "%s, so that they are read again by another alternative" % e)


def deterministic(ctx):
    P = ctx.P
    pa = Parsers(P, ["parse_query", "consume_definition"])
    pb = Parsers(P, ["parse_schema"])
    for p in (pa, pb):
        for x in p.G.lookahead: ctx.violation("lookahead:" + x, "a parser uses %s" % x)
        keys = list(p.entry.values())
        for k in list(keys): keys += [c for c in p.reachable(k) if c not in keys]
        for key in keys:
            ctx.count("rules")
            lr = leftrec(p.G, key, set())
            if lr: ctx.violation("leftrec:" + key[0], "%s can call itself without reading a token" % P.where(key[0]))
    ctx.cover["parser functions interpreted"] = len(pa.G.visited | pb.G.visited)
    for raw in set(pa.G.visited) | set(pb.G.visited):
        f = P.fns[raw]

        def visit(o):
            c = o.get("fn")
            if not isinstance(c, dict): return
            ctx.count("callees in parser functions")
            if c["name"] in DIRECT and (c.get("trait") or "").startswith("combine::"):
                ctx.violation("direct:%s:%s" % (raw, c["name"]), "%s moves the stream itself (%s)" % (P.where(raw), c["path"]))
        walk(f["body"]["blocks"], visit)
    ctx.floor("parser functions interpreted", 45, "parser functions")
    ctx.floor("callees in parser functions", 200, "callees")
    ctx.floor("rules", 10, "rules")


def leftrec(G, key, seen):
    """keys callable from key before a token is read"""
    wl = [key]
    while wl:
        k = wl.pop()
        for c in firstcalls(G.rule(k)):
            if c == key: return True
            if c not in seen: seen.add(c); wl.append(c)
    return False


def firstcalls(alts):
    out = set()
    for a in alts:
        for it in a.items:
            if it[0] in ("tok", "eof"): break
            if it[0] == "call": out.add(it[2]); break
            if it[0] == "rep":
                out |= firstcalls(it[2])
                if it[3] >= 1: break
            if it[0] == "nfa":
                out |= firstcalls(it[2][2])
                if it[5] >= 1: break
    return out
