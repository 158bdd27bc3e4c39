"""The abstract interpretation of the formatter (P03, P04) follows every branch of the formatting code that can panic: unwrap and expect,
failed assertions, indexing and slicing of the document's lists, arithmetic that overflows its type. None may be reachable for any
document the parsers return and any style.  The writers of string values are interpreted over an unknown text (P07)."""
import prcheck, writer
from prcheck import stylename, what

LEVEL = "other"
ASSUMES = ["usize has 64 bits", "documents are nested no deeper than 2^16 (P11), so that the indentation is below 2^63", "memory suffices for the text"]


def run(ctx):
    keys = set()
    for doc in ("Query", "Schema"):
        x = ctx.guard("what the formatter of %s documents does" % doc.lower(), prcheck.explore, ctx, doc)
        if x is None: continue
        keys |= set(x.writers)
        for c, cur in x.contexts:
            for root, R in cur.items():
                ctx.count("printing functions checked for panics")
                for kind, detail, site in R.panics:
                    where = ctx.P.where(site[0]) + " line %d" % site[1][0] if site else ctx.P.where(R.raw)
                    ctx.violation("panic:%s:%s" % (ctx.P.where(site[0]).split(" (")[0] if site else R.nt, kind), "%s can panic (%s %s) when %s writes a %s (%s)" % (where, kind, show(detail), ctx.P.where(R.raw), what(R.nt), stylename(x, root)))
    for key in sorted(keys, key=str):
        where = ctx.P.where(key[0])
        r = ctx.guard("what %s does" % where, writer.explore, ctx.P, *key)
        if r is None: continue
        ctx.count("string writers checked for panics (per style)")
        for s, ev, d in r[2]:
            if isinstance(d, tuple) and d[0] == "panic":
                kind, detail, site = d[1]
                at = ctx.P.where(site[0]) + " line %d" % site[1][0] if site else where
                ctx.violation("panic:%s:%s" % (at.split(" (")[0], kind), "%s can panic (%s %s) when %s writes a string" % (at, kind, show(detail), where))
    ctx.floor("string writers checked for panics (per style)", 1, "writers")
    ctx.floor("printing functions checked for panics", 16, "functions")


def show(d): return str(d)[:120]
