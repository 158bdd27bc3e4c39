"""The functions the formatter hands string values to (found by interpreting the formatter over all documents, P03 and P04) are interpreted
over an unknown text, for every style and indentation.  What they write is read back by a reference reader of string literals in step with
the text; the texts that lead to each pass that writes are a regular language that is computed exactly, and the block form must be
lossless for all of them."""
import prcheck, writer

LEVEL = "other"
ASSUMES = ["the lines of a block string are those of str::lines, and its indentation is spaces and tabs (P06)",
           "str::lines, str::replace and the hexadecimal formats of core::fmt do what the standard library documents"]


def writers(ctx):
    out = {}
    for doc in ("Query", "Schema"):
        x = ctx.guard("what the formatter of %s documents does" % doc.lower(), prcheck.explore, ctx, doc)
        if x is None: continue
        ctx.require(x.writers, "anchor:%s" % doc, "no function writes the string values of %s documents" % doc.lower())
        for k in x.writers: out.setdefault(k, doc)
    return out


def run(ctx):
    for key in sorted(writers(ctx), key=str):
        where = ctx.P.where(key[0])
        ctx.count("string writers (per style)")
        w = ctx.guard("%s, which writes string values" % where, writer.Writer, ctx.P, key)
        if w is None: continue
        ctx.count("abstract states of the writer", w.nodes)
        ctx.count("states of writer and reader", w.states)
        ctx.count("passes over the text", w.passes)
        ctx.count("languages of texts computed", w.languages)
        ctx.count("exits compared", w.exits)
        ctx.count("functions interpreted", len(w.I.visited))
        for k, m in sorted(w.found.items()): ctx.violation("writer:%s" % k, "%s: %s" % (where, m))
    ctx.floor("string writers (per style)", 1, "writers")
    ctx.floor("states of writer and reader", 500, "states")
    ctx.floor("exits compared", 4, "exits")
