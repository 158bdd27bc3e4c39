"""The token function and the stream's constructors are interpreted over an unknown text as for P08; here the automaton of every
successful outcome carries a mark where the stream stands afterwards. Between the end of a token and that place there may be nothing
but ignored characters and comments, the next character must not be one, and the token begins where the stream stood before. The
parser side: every alternative of every entry ends at the end of the input, which the token function reports exactly there."""
from interp import Unsupported
from lexer import has_text
from lexlangs import tokens, restores
from lexspec import *
from lang import product, relabel, word, union
from parsers import Parsers
from check import norm

LEVEL = "other"
ASSUMES = ["the functions of core::str and of its iterators behave as documented", "the input is shorter than 2^56 bytes, so that no offset overflows",
           "combine 4.6's eof() succeeds exactly when the stream reports its end of input"]

SIG = minus(ANY, cls(*(IGN1 + HASH)))


def run(ctx):
    stream(ctx)
    entries(ctx)
    ctx.floor("entry alternatives", 2, "alternatives of the entry points")


def stream(ctx):
    L, res = tokens(ctx)
    al = L.alphabet()
    where = ctx.P.where(L.raw["uncons"])
    O = Mk("o")
    after = Seq(IGN, O, Ahead(SIG), REST)
    want = build(al, Seq(PRE, S, V, PRE, EE, after))
    end = build(al, Seq(PRE, S, END))
    for (key, _), a in sorted(res.items(), key=str):
        ctx.count("outcomes compared")
        if key[0] == "ok":
            w = without(a, [want], ("S", "v", "e", "o"))
            if w: ctx.violation("skips:" + key[1], "%s: after the %s token between v and e the stream stands at o, which is not the first significant character (or the token does not start at S): %s" % (where, key[1], show(al, w)))
        elif key[0] == "err":
            b = relabel(a, {"o": None, "v": None, "e": None})
            if key[1] == "end":
                w = without(b, [end], ("S",))
                if w: ctx.violation("end", "%s reports the end of the input before it: %s" % (where, show(al, w)))
            elif product(b, end): ctx.violation("noend", "%s reports %r at the end of the input" % (where, key[2]))
        else: ctx.violation("panic:" + norm(key[1]), "%s panics (%s): %s" % (where, key[1], word(a, al)))
    want = build(al, Seq(PRE, Mk("Z"), after))
    for raw, (I, n, e) in sorted(L.built.items()):
        def classify(d):
            if d[0] == "panic": return (("panic", str(d[1])[:200]), {}, ())
            me = d[1]
            b = deref_buf(L, I.dom, d[2], me)
            if not b: raise Unsupported("%s makes a stream of something else than its text" % raw)
            return (("ok",), {"o": L.bound(I.dom, d[2], L.get(me, "off"))}, ())
        for (key, _), a in L.language(I.dom, e, "Z", classify).items():
            ctx.count("outcomes compared")
            if key[0] == "panic": ctx.violation("panic:" + norm(key[1]), "%s panics (%s): %s" % (ctx.P.where(raw), key[1], word(a, al))); continue
            w = without(relabel(a, {"S": None}), [want], ("Z", "o"))
            if w: ctx.violation("start:" + raw, "%s: the new stream stands at o, which is not the first significant character: %s" % (ctx.P.where(raw), show(al, w)))
    ctx.guard("reset", restores, ctx, L, ("off", "position"))
    ctx.floor("outcomes compared", 9, "outcomes")
    return L


def deref_buf(L, dom, st, me):
    from lexer import deref
    v = deref(L.get(me, "buf"))
    return v[0] == "ts" and L.bound(dom, st, v[1]) in ("Z", dom.can(st, "Z")) and L.bound(dom, st, v[2]) == "END"


def entries(ctx):
    for n in ("parse_query", "parse_schema"):
        pa = Parsers(ctx.P, [n])
        key = pa.entry[n]
        for a in pa.G.rule(key):
            if a.fail: continue
            ctx.count("entry alternatives")
            ctx.require(bool(a.items) and a.items[-1] == ("eof",), "eof:" + n, "%s can succeed without having read to the end of the input" % ctx.P.where(key[0]))
