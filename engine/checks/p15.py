"""The parsers are generic over the text type, so they can tell text types apart only through what the Text bounds offer or through
type introspection. Every function of the crate is scanned for the latter (none may occur in a generic function), the conversion into
the text type must be applied to whole token texts only, and every Text implementation of the crate must use a standard string type."""
import re
from parsers import Parsers
from checks.p20 import walk
from auto import build

LEVEL = "other"
ASSUMES = ["str, String and Cow<str> compare, order, hash and convert by their text alone",
           "a token's text is a slice of the input (decided with the lexer, P08)"]
INTROSPECT = re.compile(r"any::(type_name|TypeId|Any)|type_name|TypeId|mem::(size_of|align_of|needs_drop|discriminant_kind|transmute|size_of_val|align_of_val)|intrinsics::|ptr::metadata|as_ptr$|::capacity$|Cow.*::(is_borrowed|is_owned)")


def has_param(P, f):
    return bool(f.get("params"))


def run(ctx):
    P = ctx.P
    for raw, f in sorted(P.fns.items()):
        gen = any(not p.startswith("'") for p in f.get("params", ()))

        def visit(o, raw=raw, f=f, gen=gen):
            c = o.get("fn")
            if not isinstance(c, dict): return
            ctx.count("call sites")
            p = c.get("respath") or c["path"]
            if gen and (INTROSPECT.search(p) or INTROSPECT.search(c["path"])):
                ctx.violation("introspect:%s:%s" % (raw, c["name"]), "%s inspects the representation of a generic value (%s)" % (P.where(raw), p))
            if c.get("trait", "") in ("std::convert::From", "std::convert::Into") and "self" in c:
                t = P.ty(c["self"])
                if c["trait"].endswith("From") and is_value(t):
                    ctx.count("conversions into the text type")
        for b in [f["body"]] + list(f["promoted"]): walk(b["blocks"], visit)
    ctx.floor("call sites", 1000, "call sites")
    ctx.floor("conversions into the text type", 1, "conversions into the text type")
    for im in P.impls:
        if (im.get("trait") or "").split("<")[0].endswith("::Text") or im.get("trait") == "Text":
            ctx.count("Text implementations")
            for it in im["items"]:
                t = P.ty(it[3]) if len(it) > 3 and isinstance(it[3], int) else None
                ctx.require(t and std_string(t), "impl:%s" % (it[0],), "Text is implemented at %s:%s with a %s that is not a standard string type: %s" % (im["at"][0], im["at"][1], it[0], t))
    ctx.floor("Text implementations", 3, "Text implementations")
    # every conversion met while interpreting the parsers is of a whole token text
    for e in (["parse_query", "consume_definition"], ["parse_schema"]):
        pa = Parsers(P, e)
        for raw, k in pa.G.converted:
            ctx.count("conversions interpreted")
            ctx.require(k == "ttext", "convert:" + raw, "%s converts something else than a token's text into the text type" % P.where(raw))
        ctx.count("entry points", len(pa.entry))
        for raw in pa.G.visited: ctx.cover.setdefault("parser functions", set()).add(raw)
    ctx.cover["parser functions"] = len(ctx.cover.get("parser functions", ()))
    ctx.floor("entry points", 3, "entry points")
    ctx.floor("conversions interpreted", 2, "conversions into the text type")
    ctx.floor("parser functions", 45, "parser functions")


def is_value(t):
    return t[0] == "alias" and "Text" in t[1] and t[1].rstrip(">").endswith("Value")


def std_string(t):
    if t == ("ref", False, ("str",)): return True
    return t[0] == "adt" and (t[1] == "std::string::String" or t[1] == "std::borrow::Cow" and len(t[2]) >= 1)
