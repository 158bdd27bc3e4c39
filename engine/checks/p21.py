"""A monitor of lines, columns and brackets runs over the graphs the abstract interpretation of the formatter gives (P03, P04).
Indentation is a polynomial in the configured width and the formatter's own counter, so it is exact for every width and nesting;
recursive functions are handled by summaries (where on the line they start and end) until a fixed point. Checked: the indentation of
every line is the number of enclosing multi-line brackets times the width; an element of a list of definitions, selections, fields,
values and each schema operation ends its line, its block's brackets stand on lines around it; definitions are separated by exactly
one blank line, no other blank line is written and the text ends with one line break; every function leaves the counter as it was."""
import prcheck
from prcheck import stylename, what, intfield
from layout import Layout

LEVEL = "other"
ASSUMES = ["the inner lines of block strings belong to the string's value (P07)", "Display is formatting with the default style (P22)"]


def run(ctx):
    for doc in ("Query", "Schema"):
        x = ctx.guard("what the formatter of %s documents writes" % doc.lower(), prcheck.explore, ctx, doc)
        if x is None: continue
        for c, cur in x.contexts:
            for root, R in cur.items():
                for fs in R.unbalanced:
                    if "?" in fs or any(intfield(ctx.P, root, int(f)) for f in fs if f != "?"): ctx.violation("unbalanced:%s" % R.nt, "%s changes the indentation of what follows a %s" % (ctx.P.where(R.raw), R.nt))
            best = None
            for kind in ("width", "depth"):
                r = ctx.guard("the layout of %s documents" % doc.lower(), one, ctx, x, cur, kind)
                if r is None: best = {}; break
                if best is None or len(r) < len(best): best = r
                if not r: break
            for (nt, key), (root, msg) in best.items():
                ctx.violation("layout:%s:%s" % (nt, key), "%s (%s): in a %s, %s" % (ctx.P.where(cur[root].raw), stylename(x, root), what(nt), msg))
    ctx.floor("pairs of state and layout", 1000, "pairs")
    ctx.floor("functions and positions summarised", 12, "summaries")


def one(ctx, x, cur, kind):
    l = Layout(x, cur, kind)
    r = l.run()
    ctx.count("pairs of state and layout", l.pairs)
    ctx.count("functions and positions summarised", len(l.exits))
    if not r and any(not v for v in l.exits.values()):
        from interp import Unsupported
        raise Unsupported("a function whose end is not reached")
    return r
