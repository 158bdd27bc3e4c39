"""The parser of executable documents is extracted from the type-checked combinator code (every alternative of every parser
function, closures and conversions interpreted abstractly) as a tagged token automaton: which tokens are read in which order, and
in which field of the tree every one of them ends up. It is compared, rule by rule, with the automaton of the grammar of the
specification; the two must be equal in both directions."""
from parsers import Parsers

LEVEL = "other"
ASSUMES = ["the combinators of combine 4.6 behave as documented (parser, or, many, optional, skip, with, map, and_then, sep_by, eof)",
           "tokens are those the lexer delivers (P08, P09)"]


def run(ctx, entry="parse_query", root="QueryDocument", also=("consume_definition",), floors=(16, 30, 5)):
    pa = Parsers(ctx.P, [entry] + list(also))
    compare(ctx, pa, entry, root, False)
    if ctx.viol: return
    ctx.cover["parser functions interpreted"] = len(pa.G.visited)
    ctx.sample({"recursive rules": sorted(k[0].split("::")[-1] for k in pa.G.cut)})
    ctx.floor("parser functions interpreted", floors[0], "parser functions")
    ctx.floor("automaton states", floors[1], "automaton states")
    ctx.floor("rules compared", floors[2], "rules")


def compare(ctx, pa, entry, root, positions, below=False):
    """below: only the recursive rules the entry uses"""
    keys = [] if below else [(pa.entry[entry], root)]
    for k in pa.reachable(pa.entry[entry]):
        keys.append((k, pa.ntname(k)))
    for key, sn in keys:
        where = ctx.P.where(key[0])
        if not hasattr(pa.S, "r_" + sn):
            ctx.violation("rule:" + sn, "%s is recursive but no rule of the grammar (%s)" % (where, sn)); continue
        r = ctx.guard("%s against the rule %s" % (where, sn), pa.compare_rule, key, sn, positions)
        if r is None: continue
        d, st, ob = r
        ctx.count("rules compared")
        ctx.count("automaton states", st[0] if isinstance(st, tuple) else st.get("states", 0) if isinstance(st, dict) else 0)
        ctx.count("obligations", ob if isinstance(ob, int) else len(ob))
        if d: ctx.violation("%s:%s" % (root, sn), "%s does not follow the rule %s of the grammar:\n%s" % (where, sn, d))
