"""Parser side: the comparison of the parsers with the reference grammar (P01, P02) is made with position marks kept: the automaton of
either side says before which token the position of every element is taken. Lexer side: the token function and the constructors are
interpreted over an unknown text with the line and the column kept as sums (of constants, of the former value, and of the number of
characters passed), which turns the graph of states into automata whose transitions carry weights; these are multiplied with the
automata of the layout rules, weighted with what every character should count, and the difference has to be zero on every path."""
from parsers import Parsers
from checks import p01
from interp import Unsupported
from lexlangs import tokens, restores, remembers, getter
from lexspec import *
from lang import product, relabel, word, lin_of, Aut
from tape import minus, chars, cls, ANY

LEVEL = "other"
ASSUMES = p01.ASSUMES + ["the functions of core::str and of its iterators behave as documented", "the input is shorter than 2^56 bytes, so that no column overflows"]


def run(ctx):
    pa = Parsers(ctx.P, ["parse_query", "consume_definition"])
    p01.compare(ctx, pa, "parse_query", "QueryDocument", True)
    pb = Parsers(ctx.P, ["parse_schema"])
    p01.compare(ctx, pb, "parse_schema", "SchemaDocument", True)
    if ctx.viol: return
    ctx.cover["parser functions interpreted"] = len(pa.G.visited | pb.G.visited)
    ctx.floor("parser functions interpreted", 45, "parser functions")
    ctx.floor("rules compared", 9, "rules")
    lexer(ctx)


def W(c, w): return ("c", c, w)


LF, CR = chars("\n"), chars("\r")
NOEOL = C(minus(ANY, EOL))
SIG = minus(ANY, cls(*(IGN1 + HASH)))
AFTER = Seq(Mk("o"), Ahead(SIG, False), REST)
ENDCR = Ahead(minus(ANY, LF))


def comment(w): return Seq(T("#"), Star(NOEOL), Alt(W(LF, w), Seq(C(CR), W(LF, w)), Seq(W(CR, w), ENDCR)))


FLAT = Star(Alt(W(chars(" ,"), 1), W(chars("\t"), 8), C(cls(*(CR + BOM)))))                      # no line ends here
ANYIGN = lambda w: Star(Alt(C(minus(IGN1, LF)), W(LF, w), comment(w)))
TOKEN = {"line": Seq(S, V, Star(Alt(C(minus(ANY, LF)), W(LF, 1))), EE),
         "column": Seq(S, V, Star(W(minus(ANY, LF), 1)), EE)}
LASTLF = Alt(Seq(ANYIGN(0), W(LF, 1)), Seq(ANYIGN(0), comment(1)))
FULL = {"line": ANYIGN(1), "column": FLAT}


def negate(a):
    r = Aut()
    r.tr = [[(P, A, m, -w, t) for P, A, m, w, t in l] for l in a.tr]
    r.start = {s: -w for s, w in a.start.items()}
    return r


def wrong(a, spec):
    """a word on which the weights of the two automata differ"""
    p = product(a, negate(spec))
    if p is None: return None
    pot = dict(p.start); wl = list(pot); how = {s: [] for s in pot}
    fw = {}
    for s in wl:
        for P, A, m, w, t in p.tr[s]:
            v = pot[s] + w
            if t not in pot: pot[t] = v; how[t] = how[s] + [(P, m)]; wl.append(t)
            elif pot[t] != v: fw.setdefault(t, how[s] + [(P, m)])
    if 0 in pot and pot[0] != 0: return p, how[0]
    for t in fw:
        # two ways to t with different counts: at most one can be right
        tail = shortest_from(p, t)
        return p, fw[t] + tail
    return None


def shortest_from(p, t):
    seen = {t: []}; wl = [t]
    for s in wl:
        if s == 0: return seen[0]
        for P, A, m, w, u in p.tr[s]:
            if u not in seen: seen[u] = seen[s] + [(P, m)]; wl.append(u)
    return []


def text(al, l):
    from lang import pick
    out = []
    for P, m in l:
        c = pick(al, m)
        out.append("".join("<%s>" % x for x in sorted(map(str, P))) + ("" if c == "end" else c if c.isascii() and c.isprintable() else "\\u{%x}" % ord(c)))
    return "".join(out)


def lexer(ctx):
    for f in ("line", "column"):
        L = one(ctx, f)
    ctx.guard("reset", restores, ctx, L, ("off", "position"))
    ctx.guard("what is read again", remembers, ctx, L)
    ctx.guard("the position", getter, ctx, L, L.raw["position"], "position", "accessor")
    ctx.floor("token outcomes compared", 12, "outcomes with a line or a column")
    ctx.floor("constructor outcomes compared", 2, "outcomes with a line or a column")



def one(ctx, f):
    box = []

    def field(L):
        fs = [x["name"] for x in ctx.P.adt(L.fieldty(L.role["position"])[1])["variants"][0]["fields"]]
        if f not in fs: raise Unsupported("a position has no %s" % f)
        return fs.index(f)

    def exprs(L, o, st):
        if o[0] != "ok": return ()
        v = L.get(o[3], "position")
        v = v[3][field(L)] if v[0] == "adt" else ("sym", v[1] + (f,), ("prim", "usize"))
        l = lin_of(v)
        if l is None: raise Unsupported("the %s is %s" % (f, str(v)[:100]))
        return (l,)
    L, res = tokens(ctx, exprs)
    al = L.alphabet()
    where = ctx.P.where(L.raw["uncons"])
    mine = build(al, Seq(PRE, TOKEN[f], FULL[f], AFTER))
    last = None
    if f == "column":
        tok = Seq(S, V, Star(C(ANY)), LF_TAIL, EE, FLAT)
        last = build(al, Alt(Seq(PRE, S, V, PRE, EE, LASTLF, FLAT, AFTER), Seq(PRE, tok, AFTER)))
    sees = build(al, Seq(PRE, AFTER))
    notend = build(al, Seq(PRE, Mk("o"), C(ANY), REST))
    for ((key, E), a) in sorted(res.items(), key=str):
        if key[0] != "ok": continue
        a = product(a, notend)
        if a is None: continue          # nothing follows: no element starts there
        judge(ctx, al, where, f, key[1], E, a, mine, last, ("S", "v", "e", "o"), "token outcomes compared")
    for raw, (I, n, e) in sorted(L.built.items()):
        def classify(d):
            if d[0] == "panic": return (("panic", str(d[1])[:200]), {}, ())
            me = d[1]
            v = L.get(me, "position")
            if v[0] != "adt": raise Unsupported("a stream that starts at the position %s" % str(v)[:100])
            l = lin_of(v[3][field(L)])
            if l is None: raise Unsupported("the %s is %s" % (f, str(v)[:100]))
            return (("ok",), {"o": L.bound(I.dom, d[2], L.get(me, "off"))}, (l,))
        Z = Mk("Z")
        first = build(al, Seq(PRE, Z, FULL[f], AFTER))
        first.start = {s: 1 for s in first.start}
        after = build(al, Seq(PRE, Z, LASTLF, FLAT, AFTER)) if f == "column" else None
        from lexspec import relabel as rl
        for (key, E), a in sorted(L.language(I.dom, e, "Z", classify, True).items(), key=str):
            if key[0] != "ok": continue
            a = product(rl(a, {"S": None}), notend)
            if a is None: continue
            if E != ((0, ()),): raise Unsupported("the first %s depends on %s" % (f, E))
            judge2(ctx, al, ctx.P.where(raw), f, a, [x for x in (first, after) if x is not None], ("Z", "o"))
    return L


LF_TAIL = Seq(W(LF, 1), Star(W(minus(ANY, LF), 1)))


def judge(ctx, al, where, f, kind, E, a, mine, last, marks, what):
    ctx.count(what)
    k = ("sym", ("position", f), ("prim", "usize"))
    if len(E) != 1 or E[0][0] != 0: raise Unsupported("the %s is %s" % (f, E))
    terms = E[0][1]
    if len(terms) == 1 and terms[0][1] == 1 and terms[0][0][0] == "sym" and terms[0][0][1][-1] == f: spec, name = mine, "adds to"
    elif not terms and last is not None: spec, name = last, "sets"
    elif not terms: spec, name = None, "sets"
    else:
        ctx.violation("%s:%s" % (f, kind), "%s: after a %s token the %s is made of %s: %s" % (where, kind, f, terms, word(a, al))); return
    if spec is None:
        ctx.violation("%s:%s" % (f, kind), "%s: after a %s token the %s does not depend on the former one: %s" % (where, kind, f, word(a, al))); return
    judge2(ctx, al, "%s, which %s the %s of a %s token," % (where, name, f, kind), f, a, [spec], marks)


def judge2(ctx, al, where, f, a, specs, marks):
    if "sets" not in where and "adds" not in where: ctx.count("constructor outcomes compared")
    from lang import union
    w = without(a, specs, marks)
    if w:
        ctx.violation("%s:layout" % f, "%s does not for this layout (S: before, v and e: the token, o: the next one): %s" % (where, show(al, w)) if "which" in where else "%s: the first %s is not counted from the start, or the stream does not stand before the first token: %s" % (where, f, show(al, w)))
        return
    for s in specs:
        x = wrong(a, s)
        if x: ctx.violation("%s:count" % f, "%s computes another %s than the layout rules give for the next token (at o): %s" % (where, f, text(al, x[1]))); return
