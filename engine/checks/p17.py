"""consume_definition is interpreted like the other parsers: every alternative must end in (definition, text from the stream's offset
to the end), the definition part must follow the rule of one definition of the grammar, and nothing may be read after it. The offset
and where the lexer leaves it after a token are decided by interpreting the lexer."""
from parsers import Parsers
from gram import Alt
from auto import build, compare
from checks import p01
from lexlangs import getter

LEVEL = "other"
ASSUMES = ["the combinators of combine 4.6 behave as documented: after a successful parse the stream stands after the last token that was consumed"]


def run(ctx):
    pa = Parsers(ctx.P, ["consume_definition", "parse_query"])
    key = pa.entry["consume_definition"]
    where = ctx.P.where(key[0])
    alts = []; offs = set()
    for a in pa.G.rule(key):
        if a.fail: alts.append(a); continue
        o = a.out
        ctx.count("alternatives")
        if not ctx.require(o[0] == "tup" and len(o[1]) == 2, "shape", "%s returns %s, not a definition and the rest of the input" % (where, o[0])): return
        d, r = o[1]
        while r[0] == "ref": r = r[2][1] if r[2][0] == "v" else ("top",)
        if not ctx.require(r[0] == "suffix" and r[1][0] == "tsoff", "rest", "%s returns a remainder that is not the input from the stream's offset to its end: %s" % (where, r[:2])): return
        offs.add(r[1][1])
        alts.append(Alt(a.items, d, a.facts))
    ctx.floor("alternatives", 5, "alternatives")
    pa.solve_spec([("QueryDefinition", ())])
    for pos in (False, True):
        A = build(pa.G, alts, pa.ntname, pos)
        B = build(pa.S, pa.S.rule(("QueryDefinition", ())), lambda k: k[0], pos)
        d, stats = compare(A, B, ("consume_definition", "the grammar"))
        ctx.count("automaton states", stats[0] if isinstance(stats, tuple) else stats.get("states", 0))
        if d: ctx.violation("definition", "%s does not follow the rule of one definition:\n%s" % (where, d)); return
    p01.compare(ctx, pa, "consume_definition", "QueryDefinition", True, below=True)
    ctx.floor("rules compared", 4, "recursive rules")
    lexer(ctx, offs)


def lexer(ctx, offs):
    """the offset is where the stream stands, which after a token is the next significant character (P09's comparison)"""
    from checks import p09
    L = p09.stream(ctx)
    ctx.require(len(offs) >= 1, "offset", "no offset is used")
    for raw in sorted(offs): ctx.guard("the offset", getter, ctx, L, raw, "off", "offset:" + raw)
    ctx.floor("accessors analysed", 1, "accessors")
