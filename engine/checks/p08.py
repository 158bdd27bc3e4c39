"""The token function is interpreted over an unknown text from an unknown position (abstract interpretation of its MIR; loops over
the text become cycles of a finite graph). The graph is turned into one automaton per outcome: all texts, with the token's start and
end marked, that lead there. Each automaton is compared with the lexical grammar: a token's language must lie inside the grammar's,
error outcomes must not meet it, and all outcomes together must be all texts."""
from interp import Unsupported
from lexer import Lexer
from lexlangs import tokens, remembers
import lexspec as X
from lexspec import *
from lang import product, relabel, word
from check import norm

LEVEL = "other"
ASSUMES = ["the functions of core::str and of its iterators behave as documented", "the input is shorter than 2^56 bytes, so that no offset overflows"]

KINDS = ("Punctuator", "Name", "IntValue", "FloatValue", "StringValue", "BlockString")
NAME = Seq(C(NAMESTART), Star(C(NAMECONT)))
NONAME = Ahead(minus(ANY, NAMECONT))
FLOAT = Seq(INT, Alt(FRAC, EXP, Seq(FRAC, EXP)))
NOQUOTE = Ahead(minus(ANY, chars('"')))


def allowed(al, kind):
    if kind == "Punctuator": return build(al, around(PUNCT))
    if kind == "Name": return build(al, Seq(PRE, S, V, NAME, EE, NONAME, REST))
    if kind == "IntValue": return build(al, Seq(PRE, S, V, INT, EE, NUMEND, REST))
    if kind == "FloatValue": return build(al, Seq(PRE, S, V, FLOAT, EE, NUMEND, REST))
    if kind == "StringValue": return build(al, Seq(PRE, S, V, Alt(Seq(T('""'), EE, NOQUOTE), Seq(STRNE, EE)), REST))
    return blockaut(al)


def required(al):
    """texts that have a token at S: [(name, automaton)]"""
    n = lambda x: build(al, Seq(PRE, S, x, REST))
    z = Seq(INT, Opt(FRAC), EXPZ)
    d = Seq(INT, Alt(FRAC, EXPN, Seq(FRAC, EXPN)))
    return [("punctuator", n(PUNCT)), ("name", n(C(NAMESTART))), ("integer", n(Seq(INT, NUMSURE))), ("float", n(Seq(d, NUMSURE))),
            ("float whose exponent is unsigned and starts with 0", n(Seq(z, NUMSURE))),
            ("string", n(Alt(Seq(T('""'), NOQUOTE), STROKNE))), ("block-string", relabel(blockaut(al), {"v": None, "e": None}))]


def run(ctx):
    L, res = tokens(ctx)
    al = L.alphabet()
    where = ctx.P.where(L.raw["uncons"])
    req = required(al)
    everything = []
    seen = set()
    for (key, _), a in sorted(res.items(), key=str):
        ctx.count("outcomes compared")
        everything.append(relabel(a, {m: None for m in ("v", "e", "o")}))
        if key[0] == "ok":
            seen.add(key[1])
            w = without(relabel(a, {"o": None}), [allowed(al, key[1])], ("S", "v", "e"))
            if w: ctx.violation("accepts:" + key[1], "%s returns a %s token where the grammar has none (S: where it looks, v and e: start and end of the token, then the rest of the text): %s" % (where, key[1], show(al, w)))
        elif key[0] == "err":
            b = relabel(a, {"o": None, "v": None, "e": None})
            if key[1] == "end":
                w = without(b, [build(al, Seq(PRE, S, END))], ("S",))
                if w: ctx.violation("end", "%s reports the end of the input before it: %s" % (where, show(al, w)))
                continue
            p = product(b, build(al, Seq(PRE, S, END)))
            if p: ctx.violation("noend", "%s reports %r at the end of the input" % (where, key[2]))
            if key[3]: continue       # the depth limit: P11
            for n, r in req:
                p = product(b, r)
                if p: ctx.violation("rejects:" + n, "%s reports %r for a text that has a token (%s) at S: %s" % (where, key[2], n, word(p, al)))
        else:
            w = word(a, al)
            ctx.violation("panic:" + norm(key[1]), "%s panics (%s): %s" % (where, key[1], w))
    for k in KINDS: ctx.require(k in seen, "missing:" + k, "%s never returns a %s token" % (where, k))
    w = without(build(al, Seq(PRE, S, REST)), everything, ("S",))
    if w: ctx.violation("total", "%s neither returns a token nor an error for %s" % (where, show(al, w)))
    ctx.guard("what is read again", remembers, ctx, L)
    ctx.floor("outcomes compared", 8, "outcomes")
