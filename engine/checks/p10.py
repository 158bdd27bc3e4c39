"""The minifier is interpreted with the token source as an oracle: an unknown sequence of tokens of every kind, ended by the end of the
text or an error. A monitor over the resulting graph compares what is written with what was read: every token's text, whole and
unchanged, in order and once; one space exactly between tokens that would otherwise run together (optional between a string and
another word), nothing else; success exactly at the end of the text, failure exactly at the first error of the token source."""
from minify import Minify, monitor, WORDS

LEVEL = "other"
ASSUMES = ["the token source gives the tokens of the text (P08, P09), and one that the minifier makes behaves as the parsers' (P11)",
           "no sentence of the grammar has a number directly before `...`"]


def run(ctx):
    m = ctx.guard("what minify_query does", Minify, ctx.P)
    if m is None: return
    where = ctx.P.where(m.raw)
    r = ctx.guard("what minify_query writes", monitor, m)
    if r is None: return
    found, pairs, panics, n = r
    for k, msg in found.items(): ctx.violation("minify:" + k, "%s: %s" % (where, msg))
    kinds = {b for a, b in pairs}
    for k in WORDS:
        if k not in kinds: ctx.violation("kinds", "the token source has no %s" % k)
    ctx.count("states of minifier and monitor", n)
    ctx.count("pairs of adjacent tokens checked", len(pairs))
    ctx.count("functions interpreted", len(m.I.visited))
    ctx.sample({"pairs": sorted("%s %s" % p for p in pairs)})
    if not found: ctx.floor("pairs of adjacent tokens checked", 36, "pairs")
