"""The minifier, interpreted over an unknown sequence of tokens: what it writes for every token, and how it ends."""
from interp import Interp, Dom, St, Unsupported, refv, some, NONE, UNIT, OPT, RES
from models import ok, err
from lexer import Lexer, message

AGES = 3
WORDS = ("Name", "IntValue", "FloatValue", "StringValue", "BlockString")
STRS = ("StringValue", "BlockString")


class MinDom(Dom):
    def __init__(self, P, lexer):
        self.P = P; self.lexer = lexer

    def local_call(self, I, st, raw, env, args):
        if raw in self.lexer.ctors:
            if I.val(st, args[0]) != ("src",) or len(args) > 1: raise Unsupported("a token stream that is not made from the text to minify")
            if st.ext.get("open"): raise Unsupported("a second token stream")
            st.ext["open"] = True
            return I.ret(st, ("strm",))
        if raw == self.lexer.raw.get("uncons"):
            if I.val(st, args[0]) != ("strm",): raise Unsupported("reading from %s" % (I.val(st, args[0])[:1],))
            return self.uncons(I, st, raw)
        if raw in self.lexer.raw.values(): raise Unsupported("the minifier uses %s" % I.P.where(raw))
        return None

    def uncons(self, I, st, raw):
        rt = self.P.ty(self.P.body(raw)["locals"][0])
        tok = rt[2][0]
        out = []
        for how in ("end", "other"):
            s = st.copy()
            s.emit("read", how)
            out += I.ret(s, err(("lexerr", how)))
        kinds = [t for t in (self.P.field_ty(tok, 0, i) for i in range(len(self.P.adt(tok[1])["variants"][0]["fields"]))) if t[0] == "adt"]
        if len(kinds) != 1: raise Unsupported("the kind of a token is not found")
        kd = kinds[0]
        for vi, v in enumerate(self.P.adt(kd[1])["variants"]):
            s = st.copy()
            self.next_token(s, v["name"])
            fs = []
            for i in range(len(self.P.adt(tok[1])["variants"][0]["fields"])):
                t = self.P.field_ty(tok, 0, i)
                if t == kd: fs.append(("adt", kd[1], vi, ()))
                elif t == ("ref", False, ("str",)): fs.append(refv(("tk", 0)))
                else: raise Unsupported("a token with a field %s" % (t,))
            out += I.ret(s, ok(("adt", tok[1], 0, tuple(fs))))
        return out

    def call(self, I, st, name, info, args):
        if not isinstance(info, dict): return None
        f = info["fn"]
        p = f.get("respath") or f["path"]
        last = name.split("::")[-1]
        if name in ("PartialEq::eq", "PartialEq::ne"):
            a, b = I.val(st, args[0]), I.val(st, args[1])
            if b[0] == "lexerr": a, b = b, a
            if a[0] == "lexerr":
                r = a[1] == ending(b)
                return I.ret(st, ("b", r == (last == "eq")))
        if name in ("String::as_str", "Deref::deref", "AsRef::as_ref", "Borrow::borrow", "String::as_mut_str", "Clone::clone", "ToOwned::to_owned", "ToString::to_string", "From::from", "Into::into") and args:
            v = I.val(st, args[0])
            if v[0] in ("src", "out", "tk"): return I.ret(st, v if name in ("From::from", "Into::into", "ToString::to_string", "ToOwned::to_owned") else refv(v))
            if v[0] == "lexerr": return I.ret(st, ("errtext",) if last == "to_string" else v)
            if v[0] == "errtext": return I.ret(st, v)
        if name.startswith(("Error::", "StreamError::")) and (p.startswith("combine::") or "combine" in (f.get("trait") or "")):
            return I.ret(st, ("opaque", name))
        if last in ("must_use",): return I.ret(st, args[0])
        if p.startswith("std::fmt::") or p.startswith("alloc::fmt::") or name.startswith(("Arguments::", "Argument::")) or name == "fmt::format":
            if all(not has_text(I.close_refs(st, x, 1)) for x in args): return I.ret(st, ("errtext",))
        return None

    def length(self, I, st, v):
        if v[0] in ("src", "tk", "obits", "out"): return I.sym(("len", v[0]), ("uint", "usize"))
        return None

    def is_empty(self, I, st, v):
        if v[0] in ("obits", "out", "toks"): return ("b", False)
        if v[0] == "tk": return ("b", False)
        return None

    def condition(self, I, st, v):
        return I.fork_fact(st, v)

    # ---- output
    def write(self, I, st, x):
        x = I.val(st, x)
        for y in (x[1] if x[0] == "cat" else (x,)):
            if y[0] == "c": y = ("s", chr(y[1]))
            if y[0] == "s": st.emit("w", y[1])
            elif y[0] == "tk": st.emit("wt", y[1])
            elif y[0] == "stale": raise Unsupported("a token is kept for more than %d others" % AGES)
            else: raise Unsupported("the minifier writes %s" % (y[:1],))

    def vec_push(self, I, st, a, v, x):
        r = self.collect_item(I, st, v, x)
        if r is None: return None
        I.addr_write(st, a, r)
        return I.ret(st, UNIT)

    def collect_item(self, I, st, v, x):
        x = I.val(st, x)
        if x == ("out",) and v in (("s", ""), ("cat", ())): return x        # all texts of the list at once
        if v == ("vec", ()) or v[0] in ("toks", "obits"):
            if x[0] in ("adt", "tup") and mentions(x) and v[0] != "obits": return self.keep(I, st, v, x)
            if v[0] == "toks": raise Unsupported("%s among tokens" % (x[:1],))
        if v == ("vec", ()):
            if x == ("s", ""): return v
            if x[0] not in ("s", "tk", "c", "cat", "stale"): return None
            if st.ext.get("out"): raise Unsupported("a second list of texts")
            st.ext["out"] = True
        elif v[0] != "obits": return None
        self.write(I, st, x)
        return ("obits", x if x[0] in ("s", "tk", "c") else ("stale",))

    # ---- a list of all tokens, gone through again when the text has ended
    def keep(self, I, st, v, x):
        kind = st.ext.get("kind")
        if ages(x) != {0}: raise Unsupported("a list of more than the token just read")
        had = dict(v[1]) if v[0] == "toks" else {}
        if v[0] != "toks":
            if st.ext.get("kept"): raise Unsupported("a second list of tokens")
            st.ext["kept"] = True
        if had.setdefault(kind, x) != x: raise Unsupported("what is kept of a %s depends on what precedes it" % kind)
        st.emit("keep")
        return ("toks", tuple(sorted(had.items())))

    def make_iter(self, I, st, v, n, args, info):
        if v[0] == "obits" and n == "IntoIterator::into_iter": return ("adt", "it::obits", 0, (("b", False),))
        if v[0] == "obits" and n.split("::")[1] in ("iter", "drain"): return ("adt", "it::obits", 0, (("b", False),))
        if v[0] != "toks": return None
        if n.split("::")[1] not in ("into_iter", "iter", "drain"): raise Unsupported("%s of a list of tokens" % n)
        st.emit("again")
        return ("adt", "it::toks", 0, (v, ("b", args[0][0] == "ref" and n != "Vec::drain")))

    def iter_next(self, I, st, a, v):
        if v[0] == "adt" and v[1] == "it::obits":
            if st.top.kind != "k" or st.top.raw != "c:collect" or st.top.loc["it"][:2] != v[:2]: raise Unsupported("going through the texts written")
            if v[3][0][1]: return I.ret(st, NONE)
            I.addr_write(st, a, ("adt", "it::obits", 0, (("b", True),)))
            return I.ret(st, some(("out",)))
        if v[0] != "adt" or v[1] != "it::toks": return None
        s = st.copy()
        s.emit("read", "end")
        I.addr_write(s, a, ("adt", "it::toks", 0, (("toks", ()), v[3][1])))
        out = I.ret(s, NONE)
        for kind, x in v[3][0][1]:
            s = st.copy()
            self.next_token(s, kind)
            out += I.ret(s, some(refv(x) if v[3][1][1] else x))
        return out

    def next_token(self, s, kind):
        for k in [k for k in s.facts if mentions(k)]: del s.facts[k]
        for f in s.frames:
            for l in list(f.loc): f.loc[l] = older(f.loc[l])
        s.ext["kind"] = kind
        s.emit("tok", kind)

    def seq_last(self, I, st, v, args):
        if v[0] == "obits": return [(st, some(refv(v[1])))]
        return None

    def push_str(self, I, st, a, v, x):
        if x[0] == "s" and x[1] == "": return UNIT
        if v in (("s", ""), ("cat", ())):
            if st.ext.get("out"): raise Unsupported("a second text is written")
            st.ext["out"] = True
        elif v != ("out",): return None
        self.write(I, st, x)
        I.addr_write(st, a, ("out",))
        return UNIT

    def join(self, I, st, v, sep):
        if v[0] == "obits":
            if sep != ("s", ""): raise Unsupported("the texts are joined by %r" % (sep[1],))
            return ("out",)
        return None

    def head(self, I, st):
        pass

    def key(self, I, st): return ()


def ending(b):
    """which error of the token source a constructed error is"""
    if b[0] == "lexerr": return b[1]
    if b[0] == "opaque": return "end" if b[1].endswith("end_of_input") else "something else"
    m = message(b)
    if m == "end of input" or m is None: raise Unsupported("an error is compared with %s" % (b[:2],))
    return "something else" if False else "?" + m


def ages(v):
    if not isinstance(v, tuple) or not v: return set()
    if v[0] == "tk" and len(v) == 2: return {v[1]}
    if v[0] == "stale": return {"?"}
    return set().union(*[ages(x) for x in v])


def older(v):
    if not isinstance(v, tuple) or not v or v[0] == "toks": return v
    if v[0] == "tk" and len(v) == 2 and isinstance(v[1], int): return ("tk", v[1] + 1) if v[1] + 1 < AGES else ("stale",)
    return tuple(older(x) for x in v)


def mentions(v):
    if not isinstance(v, tuple) or not v: return False
    return v[0] == "tk" or any(mentions(x) for x in v)


def has_text(v):
    if not isinstance(v, tuple) or not v: return False
    return v[0] in ("tk", "src", "out", "obits") or any(has_text(x) for x in v)


class Minify:
    def __init__(self, P):
        self.P = P
        self.lexer = Lexer(P)
        r = [r for r, f in P.fns.items() if f.get("name") == "minify_query" and not f.get("trait_impl")] or [r for r in P.fns if r.split("::")[-1] == "minify_query"]
        if len(r) != 1: raise Unsupported("minify_query is not found")
        self.raw = r[0]
        b = P.body(self.raw)
        if b["argc"] != 1: raise Unsupported("minify_query takes %d arguments" % b["argc"])
        t = P.ty(b["locals"][1])
        src = ("src",) if t[0] == "adt" else refv(("src",))
        dom = MinDom(P, self.lexer)
        self.I = I = Interp(P, dom)
        st = St()
        I.push(st, self.raw, (), [src])
        self.nodes, self.edges = I.explore(st, 20000)


class Bad(Exception):
    pass


def sep(a, b):
    """is a space between two tokens needed (2), allowed (1) or wrong (0)"""
    if a is None or a not in WORDS or b not in WORDS: return 0
    if (a in STRS) != (b in STRS): return 1
    return 2


def monitor(m):
    """compare what is written with the tokens read; -> {key: message}"""
    by = {}
    for s, ev, d in m.edges: by.setdefault(s, []).append((ev, d))
    start = (0, (None, (), None, None))       # last kind, expected output, how reading ended, how tokens are dealt with
    seen = {start}; wl = [start]
    found = {}
    pairs = set(); kinds = set(); panics = {}
    while wl:
        s, q = wl.pop()
        for ev, d in by.get(s, ()):
            try:
                x = q
                for e in ev:
                    if e[0] == "tok": pairs.add((x[0], e[1])); kinds.add(e[1])
                    x = step(x, e)
                if isinstance(d, tuple):
                    if d[0] == "panic":
                        panics[d[1][2] if isinstance(d[1], tuple) and len(d[1]) > 2 else str(d[1])] = d[1]
                        continue
                    final(x, d[1])
                elif (d, x) not in seen: seen.add((d, x)); wl.append((d, x))
            except Bad as b: found.setdefault(b.args[0], b.args[1])
    return found, pairs, panics, len(seen)


def step(q, e):
    last, exp, end, mode = q
    if e[0] == "tok":
        if end: raise Bad("after", "tokens are read after %s" % what(end))
        exp = tuple(x if isinstance(x[1], str) else (x[0], x[1] + 1) + x[2:] for x in exp)
        s = sep(last, e[1])
        if s: exp += (("sp", str(s), last, e[1]),)
        exp += (("tk", 0, e[1], last),)
        if len(exp) > 8: raise Bad("behind", "tokens are not written")
        return (e[1], exp, end, mode)
    if e[0] == "keep":
        if mode == "written": raise Unsupported("tokens that are written or kept")
        if not exp or exp[-1][:2] != ("tk", 0): raise Bad("twice", "a token is kept twice")
        exp = exp[:-1]
        if exp and exp[-1][0] == "sp": exp = exp[:-1]
        if exp: raise Bad("left", "a %s is left out" % exp[-1][2])
        return (last, exp, end, "kept")
    if e[0] == "again":
        if mode != "kept" or end is None or exp: raise Bad("left", "the kept tokens are not all there are")
        if end == "other": raise Bad("ignored", "it succeeds although the text has something that is no token")
        return (None, (), None, "again")
    if e[0] == "read": return (last, exp, end or e[1], mode)
    if e[0] in ("w", "wt") and mode == "kept": raise Unsupported("output before all tokens are kept")
    if e[0] in ("w", "wt") and mode is None: mode = "written"
    if e[0] == "wt":
        if exp and exp[0][0] == "sp":
            if exp[0][1] == "2": raise Bad("glued", "nothing separates a %s and the %s that follows it" % (exp[0][2], exp[0][3]))
            exp = exp[1:]
        if not exp: raise Bad("twice", "a token is written again, or before it is read")
        if exp[0][1] != e[1]: raise Bad("order", "a %s is left out, or tokens are written in another order" % exp[0][2])
        return (last, exp[1:], end, mode)
    if e[0] == "w":
        for c in e[1]:
            if exp and exp[0][0] == "sp" and c == " ": exp = exp[1:]
            elif c == " " and exp: raise Bad("space", "a space is written %s" % ("at the start" if exp[0][3] is None else "between a %s and a %s" % (exp[0][3], exp[0][2])))
            else: raise Bad("text", "%r is written %s" % (c, "at the end" if not exp else "before a %s" % exp[0][2]))
        return (last, exp, end, mode)
    raise Unsupported("event %s" % (e[:1],))


def what(end): return "the end" if end == "end" else "an error"


def final(q, r):
    last, exp, end, mode = q
    if r[0] != "adt" or r[1] != RES: raise Unsupported("minify_query returns %s" % (r[:2],))
    if r[2] == 1:
        if end is None: raise Bad("err", "it fails without reading to the end of the text or an error of the token source")
        if end == "end" or mode == "again": raise Bad("errend", "it fails at the end of a text of good tokens")
        return
    if end is None: raise Bad("part", "it stops before the end of the text")
    if end == "other": raise Bad("ignored", "it succeeds although the text has something that is no token")
    if exp: raise Bad("left", "the last %s is not written" % exp[-1][2])
    v = r[3][0]
    if mode == "kept": raise Bad("left", "the kept tokens are not written")
    if v not in (("out",), ("s", ""), ("obits",)): raise Unsupported("minify_query returns Ok(%s)" % (v[:2],))
    if v == ("s", "") and last is not None: raise Bad("left", "nothing is returned for a text with tokens")
