"""Every alternative of the grammar that reads a string token must hand the token's whole text to the decoder of its kind.  The decoder of
quoted strings is interpreted abstractly over an unknown token and run in step with a reference transducer of GraphQL's escapes; the
decoder of block strings is interpreted over an unknown sequence of lines, and what it writes is compared, line by line, with what
BlockStringValue demands."""
from parsers import Parsers
import decode, linedec
from gram import C

LEVEL = "other"
ASSUMES = ["string tokens have the form of the lexical grammar (P08)",
           "the lines of a block string are those of str::lines (LF or CRLF)",
           "str::lines, trim_start_matches, replace, from_str_radix and char::from_u32 do what the standard library documents"]


def kinds(c): return {k for k, n, t in c if n or t}


def run(ctx):
    pa = ctx.guard("the parsers", Parsers, ctx.P, ["parse_query", "parse_schema"])
    if pa is None: return
    use = {}
    seen = set()
    for e in pa.entry.values():
        for key in pa.reachable(e):
            if key in seen: continue
            seen.add(key)
            ctx.guard("the strings of %s" % ctx.P.where(key[0]), reading, ctx, pa, key, use)
    for kind, f in (("StringValue", quoted), ("BlockString", block)):
        if not ctx.require(use.get(kind), "anchor:%s" % kind, "no alternative of the grammar reads a token of kind %s and decodes it" % kind): continue
        for raw in sorted(use[kind]): ctx.guard("%s, the decoder of %s tokens" % (ctx.P.where(raw), kind), f, ctx, raw)
    ctx.floor("alternatives that read a string", 4, "alternatives")
    ctx.floor("states of decoder and reference", 1000, "states")
    ctx.floor("states of the block string decoder", 100, "states")


def find(v, acc):
    if not isinstance(v, tuple) or not v: return
    if v[0] in ("unq", "ttext"): acc.append(v); return
    for x in v: find(x, acc)


def reading(ctx, pa, key, use):
    where = ctx.P.where(key[0])
    for a in pa.G.rule(key):
        if a.fail: continue
        facts = dict(a.facts)
        for it in a.items:
            if it[0] == "nn" or len(it) < 2: continue
            c = facts.get(("cls", it[1]))
            if c is None: continue
            ks = kinds(c) & {"StringValue", "BlockString"}
            if not ks: continue
            ctx.count("alternatives that read a string")
            tok = ("ttext", it[1])
            got = []
            find(a.out, got)
            mine = [v for v in got if v == tok or v[0] == "unq" and mentions(v, tok)]
            if len(kinds(c)) > 1 and mine:
                ctx.violation("kinds:%s" % pa.ntname(key), "%s: one alternative reads tokens of the kinds %s" % (where, ", ".join(sorted(kinds(c))))); continue
            k = ks.pop()
            for v in mine:
                if v[0] != "unq" or v[2] != tok: ctx.violation("raw:%s" % pa.ntname(key), "%s: a token of kind %s is taken without decoding" % (where, k)); continue
                use.setdefault(k, set()).add(v[1])
            if not mine: ctx.violation("lost:%s" % pa.ntname(key), "%s: a token of kind %s is read but its text is not used" % (where, k))


def mentions(x, t):
    if x == t: return True
    return isinstance(x, tuple) and any(mentions(y, t) for y in x)


def quoted(ctx, raw):
    I, n, e, found, panics, states, oks, errs = decode.quoted(ctx.P, raw)
    ctx.count("states of decoder and reference", states)
    ctx.count("exits compared", oks + errs)
    ctx.count("functions interpreted", len(I.visited))
    for k, m in sorted(found.items()): ctx.violation("quoted:" + k, "%s: %s" % (ctx.P.where(raw), m))
    for s, (p, w) in sorted(panics.items()): ctx.violation("panic", "%s can panic (%s)" % (ctx.P.where(raw), p[0]))


def block(ctx, raw):
    n, exits, found, panics, visited = linedec.block(ctx.P, raw)
    ctx.count("states of the block string decoder", n)
    ctx.count("exits compared", exits)
    ctx.count("functions interpreted", len(visited))
    for k, m in sorted(found.items()): ctx.violation("block:" + k, "%s: %s" % (ctx.P.where(raw), m))
    for s, p in sorted(panics.items()): ctx.violation("panic", "%s can panic (%s)" % (ctx.P.where(raw), p[0]))
