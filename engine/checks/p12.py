"""Everything that runs between an entry point and its result is interpreted abstractly: the token source over an unknown text, the parser
over an unknown token sequence, the minifier over an unknown token sequence, the decoders of strings over an unknown token. Every assertion,
index, slice, unwrap, arithmetic step and explicit panic on the way has a panic outcome; none may be reachable. A census of the functions
reachable from the entry points (with the trait implementations through which the libraries call back) requires each of them to be
interpreted or to contain nothing that can panic."""
import re
from interp import Unsupported
from mir import short
from parsers import Parsers
from minify import Minify, monitor
from lexlangs import tokens, small, state, getter, USZ
from tape import pos
from interp import refv
from lang import word
from check import norm
import decode, linedec
from checks import p06

LEVEL = "other"
ASSUMES = ["the input is shorter than 2^56 bytes and memory suffices", "functions of core, alloc, std and combine panic only where their documentation says so",
           "the stack suffices for the recursion P11 bounds"]
ENTRIES = ("parse_query", "parse_schema", "consume_definition", "minify_query")
SAFE = [re.compile(x) for x in (
    r"^(fmt::)?(Formatter|Arguments|Argument|rt::Argument)::", r"^(Display|Debug|LowerHex|UpperHex|Write)::(fmt|write_str|write_fmt|write_char)$", r"^Debug(Struct|Tuple|List|Map|Set)::",
    r"^(PartialEq|PartialOrd|Eq|Ord|Hash)::", r"^(Try|FromResidual|Clone|Default|AsRef|Borrow|Deref|DerefMut|ToString|ToOwned|Into|From)::", r"^(Option|Result)::(is_\w+|as_\w+|map\w*|ok|err|or\w*|and\w*|unwrap_or\w*|cloned|copied|filter|take|replace)$",
    r"^(String|Vec)::(new|with_capacity|push|push_str|as_str|len|is_empty|as_slice|clear|pop|from)$", r"^str::(len|is_empty|as_bytes|chars|bytes|char_indices|trim\w*|starts_with|ends_with|contains|find|rfind|lines|split\w*|parse|to_\w+|get|is_char_boundary)$",
    r"^char::(is_\w+|len_utf8|to_\w+|from_u32)$", r"^(Iterator|IntoIterator|DoubleEndedIterator)::", r"^(mem::)?(swap|replace|take)$", r"^Box::new$", r"^(Errors?|easy::Errors?|Info|StreamError|ParseError|StreamErrorFor|Tracked|Commit)::\w+$", r"^(must_use|format|fmt::format|alloc::fmt::format)$",
    r"::(eq|ne|cmp|partial_cmp|fmt|hash|clone)$", r"^hint::must_use$", r"^(f64|f32|[iu](8|16|32|64|size))::(is_\w+|checked_\w+|wrapping_\w+|saturating_\w+|from_str_radix|try_from)$",
    r"^(IterResult|FastResult|CommitResult|ParseResult)::")]


def walk(o, f):
    if isinstance(o, dict):
        f(o)
        for v in o.values(): walk(v, f)
    elif isinstance(o, list):
        for v in o: walk(v, f)


def run(ctx):
    visited = set()
    P = ctx.P
    L = ctx.guard("what the token source does", lexer, ctx)
    if L is not None: visited |= L.visited
    for names in (("parse_query", "consume_definition"), ("parse_schema",)):
        pa = ctx.guard("what %s does" % " and ".join(names), parser, ctx, names, L)
        if pa is not None: visited |= pa
    m = ctx.guard("what minify_query does", minifier, ctx)
    if m is not None: visited |= m
    ctx.guard("the functions that are not interpreted", census, ctx, visited)
    ctx.count("functions interpreted", len(visited))
    ctx.floor("outcomes of the token source", 9, "outcomes")
    ctx.floor("rules interpreted", 6, "recursive rules")
    ctx.floor("states of the minifier", 30, "states")
    ctx.floor("decoders interpreted", 2, "decoders")
    ctx.floor("functions reachable", 40, "functions")
    ctx.floor("panic sites in interpreted functions", 20, "panic sites")


def lexer(ctx):
    L, res = tokens(ctx)
    al = L.alphabet()
    P = ctx.P
    for (key, _), a in sorted(res.items(), key=str):
        ctx.count("outcomes of the token source")
        if key[0] == "panic": ctx.violation("panic:" + norm(key[1]), "%s panics (%s): %s" % (P.where(L.raw["uncons"]), key[1], word(a, al)))
    for raw, (I, n, e) in sorted(L.built.items()):
        for s, ev, d in e:
            if not isinstance(d, tuple): continue
            ctx.count("outcomes of the token source")
            if d[0] == "panic": ctx.violation("panic:" + norm(str(d[1])), "%s can panic (%s)" % (P.where(raw), str(d[1])[:200]))
    ctx.guard("going back", goback, ctx, L)
    return L


def parser(ctx, names, L):
    pa = Parsers(ctx.P, list(names))
    use = {}
    seen = set()
    for e in pa.entry.values():
        for key in [e] + pa.reachable(e):
            pa.G.rule(key)
            if key in seen: continue
            seen.add(key)
            ctx.count("rules interpreted")
            strings(pa, key, use)
    for raw, k in pa.G.decoders:
        if raw not in use: raise Unsupported("what %s is given" % raw)
    if L is not None:
        offs = set()
        for e in pa.entry.values():
            for a in pa.G.rule(e): offsets(a.out, offs)
        for raw in sorted(offs): ctx.guard("the offset", getter, ctx, L, raw, "off", "offset:" + raw)
    for raw, v in pa.G.panics: ctx.violation("panic:%s:%s" % (name(ctx, raw), norm(str(v))), "%s can panic (%s)" % (name(ctx, raw), str(v)[:200]))
    vis = set(pa.G.I.visited)
    for raw, ks in sorted(use.items()):
        for k in sorted(ks):
            v = ctx.guard("%s, the decoder of %s tokens" % (ctx.P.where(raw), k), decoder, ctx, raw, k)
            if v is not None: vis |= v
    return vis


def goback(ctx, L):
    """checkpoint and reset, from any state"""
    a = state(L, "then", pos("S"))
    b = state(L, "now", ("sym", ("now", "off"), USZ))
    for n in ("checkpoint", "reset"):
        if n not in L.raw: raise Unsupported("no %s for %s" % (n, L.adt))
    for cp, _ in small(L, L.raw["checkpoint"], lambda I: [refv(a)])[1]:
        ctx.count("resets analysed", len(small(L, L.raw["reset"], lambda I: [("ref", True, ("@", 0, "me", ())), cp], {"me": b})[1]))


def offsets(v, acc):
    if not isinstance(v, tuple) or not v: return
    if v[0] == "tsoff": acc.add(v[1])
    for x in v: offsets(x, acc)


def strings(pa, key, use):
    for a in pa.G.rule(key):
        facts = dict(a.facts)
        got = []
        p06.find((a.out, a.facts), got)
        for v in got:
            if v[0] != "unq": continue
            c = facts.get(("cls", v[2][1])) if v[2][0] == "ttext" else None
            ks = p06.kinds(c) if c is not None else ()
            if len(ks) != 1: raise Unsupported("%s is given text of the kinds %s" % (v[1], sorted(ks)))
            use.setdefault(v[1], set()).update(ks)


def name(ctx, raw): return ctx.P.where(raw) if raw in ctx.P.fns else str(raw)


def decoder(ctx, raw, kind):
    if kind == "StringValue":
        I, n, e, found, panics, states, oks, errs = decode.quoted(ctx.P, raw)
        vis = I.visited
        for s, (p, w) in sorted(panics.items()): ctx.violation("panic:" + raw + ":" + norm(str(s)), "%s can panic (%s)" % (ctx.P.where(raw), p[0]))
    else:
        n, exits, found, panics, vis = linedec.block(ctx.P, raw)
        states = n
        for s, p in sorted(panics.items()): ctx.violation("panic:" + raw + ":" + norm(str(s)), "%s can panic (%s)" % (ctx.P.where(raw), p[0]))
    ctx.count("decoders interpreted")
    ctx.count("states of the decoders", states)
    return set(vis)


def minifier(ctx):
    m = Minify(ctx.P)
    found, pairs, panics, n = monitor(m)
    ctx.count("states of the minifier", n)
    for s, p in sorted(panics.items(), key=str): ctx.violation("panic:minify:" + norm(str(s)), "%s can panic (%s)" % (ctx.P.where(m.raw), str(p[0] if isinstance(p, tuple) else p)[:200]))
    return set(m.I.visited)


def census(ctx, visited):
    P = ctx.P
    impls = {}       # (trait, method) -> local implementations
    byadt = {}
    for r, f in P.fns.items():
        if f.get("implof"):
            impls.setdefault((f["implof"], f.get("name")), []).append(r)
            t = P.ty(f["implself"]) if "implself" in f else None
            if t: byadt.setdefault(adt(t), []).append(r)
    errs = set()
    wl = [r for r, f in P.fns.items() if f.get("name") in ENTRIES and "implself" not in f]
    ctx.require(len(wl) == len(ENTRIES), "entries", "expected the functions %s" % ", ".join(ENTRIES))
    seen = set(wl)
    sites = {}
    adts = set()

    def add(x):
        if x in P.fns and x not in seen: seen.add(x); wl.append(x)
    while wl:
        r = wl.pop()
        f = P.fns[r]
        s = sites.setdefault(r, [])
        for b in [f["body"]] + list(f["promoted"]):
            for t in b["locals"]:
                mention(P, P.ty(t), adts, errs, False)
            walk(b["blocks"], lambda o: site(P, o, s, add, impls))
        for a in list(adts):
            for x in byadt.get(a, ()):
                tr = P.fns[x]["implof"]
                if tr.startswith("graphql_parser"): continue
                if "fmt::" in tr and a not in errs: continue
                add(x)
    ctx.count("functions reachable", len(seen))
    for r in sorted(seen):
        if r in visited:
            ctx.count("panic sites in interpreted functions", len(sites[r])); continue
        ctx.count("functions not interpreted")
        for k, what in sites[r]:
            if k == "assert" or not any(p.search(what) for p in SAFE):
                ctx.violation("census:%s:%s" % (r, what), "cannot establish that %s does not panic: it is reachable from an entry point, not part of what was interpreted, and contains %s" % (P.where(r), what))
                break


def adt(t):
    while t[0] in ("ref", "ptr"): t = t[-1]
    return t[1] if t[0] == "adt" else None


def mention(P, t, adts, errs, inerr):
    if not isinstance(t, tuple): return
    if t and t[0] == "adt":
        if t[1] in P.adts and P.adts[t[1]].get("local", True):
            adts.add(t[1])
            if inerr: errs.add(t[1])
        if "easy::Errors" in t[1]: inerr = True
    for x in t: mention(P, x, adts, errs, inerr)


def site(P, o, s, add, impls):
    if o.get("t") == "assert": s.append(("assert", str(o.get("kind"))[:80]))
    if o.get("r") == "agg" and o.get("k") == "closure": add(o["raw"])
    fn = o.get("fn")
    if isinstance(fn, dict):
        if fn.get("reslocal"): add(fn["res"]); return
        if fn.get("local"): add(fn["raw"])
        if fn.get("trait") and not fn.get("res"):
            for x in impls.get((fn["trait"], fn["name"]), ()): add(x)
        s.append(("call", short(fn.get("respath") or fn["path"])))
