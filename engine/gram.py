"""Reads the grammar out of the parser functions.

A parser function builds a combine parser and applies it to the token stream.  The combinators are evaluated as equations over
*alternatives*: an alternative is a sequence of items (token of a class, position mark, repetition, call of a recursive rule)
together with the value the parser delivers for it, in which every part is the name of the token, list, mark or call it came from.
Closures in `map`, `and_then`, ... are abstractly interpreted on those values, so the alternative's value says where in the tree
each token ends up.  combine's choice semantics (one token of lookahead, no backtracking after a token was consumed) is kept in
`nn` items: "the next token is not one of these".

  items:  ("tok", id)  ("pos", id)  ("rep", id, alts, min, sep_alts)  ("call", id, key)  ("nn", cls)  ("eof",)  ("nfa", id, rep, edges, final)
  values: ("ttext", id) text of a token   ("tkind", id)   ("pos", id)   ("plist", id, coll)   ("pcall", id, key, ty)
          ("unq", raw, v) decoded by local function raw   ("conv", ty, v)   ("ts",) the token stream
"""
import itertools
from interp import Interp, Dom, St, Unsupported, refv, some, NONE, ok, err, UNIT, RES, OPT
from models import IT, addr_of, m_is, range_bounds, lin_add, to_lin
from mir import short


class GivesBack(Unsupported):
    """a parser whose failure gives back tokens that were consumed"""

PARSERES = "combine::ParseResult"
COMMIT = "combine::error::Commit"
KINDS = ["Punctuator", "Name", "IntValue", "FloatValue", "StringValue", "BlockString"]
EOF = "<end>"


# ------------------------------------------------------------------ token classes
class C:
    """token classes: frozenset of (kind, negated, texts), at most one entry per kind"""
    NONE = frozenset()

    @staticmethod
    def all():
        return frozenset((k, True, frozenset()) for k in KINDS)

    @staticmethod
    def one(kind, text=None):
        return frozenset([(kind, text is None, frozenset() if text is None else frozenset([text]))])

    @staticmethod
    def d(c): return {k: (n, t) for k, n, t in c}

    @staticmethod
    def mk(d): return frozenset((k, n, t) for k, (n, t) in d.items() if n or t)

    @staticmethod
    def inter(a, b):
        a, b = C.d(a), C.d(b)
        o = {}
        for k in a.keys() & b.keys():
            (n1, t1), (n2, t2) = a[k], b[k]
            if n1 and n2: o[k] = (True, t1 | t2)
            elif n1: o[k] = (False, t2 - t1)
            elif n2: o[k] = (False, t1 - t2)
            else: o[k] = (False, t1 & t2)
        return C.mk(o)

    @staticmethod
    def minus(a, b):
        a, b = C.d(a), C.d(b)
        o = {}
        for k, (n1, t1) in a.items():
            if k not in b: o[k] = (n1, t1); continue
            n2, t2 = b[k]
            if n2: o[k] = (False, (t2 - t1) if n1 else (t1 & t2))
            else: o[k] = (True, t1 | t2) if n1 else (False, t1 - t2)
        return C.mk(o)

    @staticmethod
    def union(a, b):
        a, b = C.d(a), C.d(b)
        o = dict(a)
        for k, (n2, t2) in b.items():
            if k not in o: o[k] = (n2, t2); continue
            n1, t1 = o[k]
            if n1 and n2: o[k] = (True, t1 & t2)
            elif n1: o[k] = (True, t1 - t2)
            elif n2: o[k] = (True, t2 - t1)
            else: o[k] = (False, t1 | t2)
        return C.mk(o)

    @staticmethod
    def show(c):
        out = []
        for k, n, t in sorted(c, key=lambda x: (x[0], x[1], sorted(x[2]))):
            if not n: out += ["`%s`" % x for x in sorted(t)]
            else: out.append(k + (" except " + " ".join(sorted(t)) if t else ""))
        return ", ".join(out) or "nothing"


class Alt:
    __slots__ = ("items", "out", "facts", "fail")

    def __init__(self, items=(), out=UNIT, facts=None, fail=False):
        self.items = tuple(items); self.out = out; self.facts = facts or {}; self.fail = fail


_gen = itertools.count()


def fresh(): return ("#", next(_gen))


def rename(x, m):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "#":
            if x not in m: m[x] = fresh()
            return m[x]
        return tuple(rename(y, m) for y in x)
    if isinstance(x, Alt):
        return Alt(rename(x.items, m), rename(x.out, m), {rename(k, m): rename(v, m) for k, v in x.facts.items()}, x.fail)
    if isinstance(x, dict): return {rename(k, m): rename(v, m) for k, v in x.items()}
    return x


SEQ2 = {"and": None, "with": 1, "skip": 0}
IDENT = {"expected", "message", "silent", "by_ref", "boxed", "left", "right", "iter"}
METHODS = set(SEQ2) | IDENT | {"map", "or", "and_then", "flat_map", "then", "then_partial", "then_ref", "map_input"}
FREE = {"parser", "satisfy", "satisfy_map", "any", "token", "eof", "position", "value", "produce", "many", "many1", "skip_many", "skip_many1", "count", "count_min_max",
        "sep_by", "sep_by1", "sep_end_by", "sep_end_by1", "optional", "choice", "between", "attempt", "look_ahead", "not_followed_by", "unexpected", "unexpected_any",
        "one_of", "none_of", "tokens", "struct_parser", "from_str", "skip_until", "repeat_until", "chainl1", "chainr1", "recognize", "unit", "r#try", "parse_lazy"}
EFFECT = {"parse_stream", "parse_lazy", "parse", "easy_parse", "parse_with_state", "parse_first", "parse_mode", "parse_stream_partial"}


class Recur(Exception):
    pass


class PDom(Dom):
    """interpretation of parser functions and of the closures in them"""
    def __init__(self, G): self.G = G

    def convert(self, I, st, v, info):
        """From/Into: remember what is converted into the text type"""
        t = info["self"] if info["name"] == "From::from" else (info["targs"][-1] if info["targs"] else None)
        if t and t[0] == "alias": self.G.converted.add((st.top.raw, I.val(st, v)[0]))
        return None

    # ---- the token stream
    def call(self, I, st, name, info, args):
        G = self.G
        f = info["fn"]
        last = name.split("::")[-1]
        path = f["path"]
        crate = path.split("::")[0].lstrip("<")
        if f.get("trait") == "combine::Parser" and last in METHODS and not (f.get("reslocal")):
            return I.ret(st, ("pt", last, tuple(close(I, st, a) for a in args), info["targs"]))
        if f.get("trait") == "combine::Parser" and last in EFFECT:
            s = I.val(st, args[0])
            if s[0] in ("pt", "tup") or (s[0] == "adt"):
                if len(args) > 1 and I.val(st, args[1]) == ("ts",):
                    return self.effect(I, st, last, close(I, st, args[0]))
                raise Unsupported("%s applied to another stream" % last)
        if crate == "combine" and not f.get("trait") and last in FREE and "Parser" not in name:
            return I.ret(st, ("pt", last, tuple(close(I, st, a) for a in args), info["targs"]))
        if name == "ParseResult::into_result":
            return self.into_result(I, st, args[0])
        if crate == "combine" or (f.get("trait") or "").startswith("combine::"):
            r = self.combine(I, st, name, last, f, args)
            if r is not None: return r
        if name in ("f64::is_finite", "f64::is_infinite", "f64::is_nan", "f32::is_finite"):
            v = I.val(st, args[0])
            if v[0] == "conv" and v[1] == "f64":
                if last == "is_nan": return I.ret(st, ("b", False))      # no literal denotes it
                c = ("finite", v[2])
                return I.ret(st, c if last == "is_finite" else ("not", c))
        if name in ("FromStr::from_str",):
            v = I.val(st, args[0])
            if v[0] == "ttext":
                r = self.parse_text(I, st, v, info["self"])
                if r is not None: return r
        if name.endswith("::from_str_radix"):
            v = I.val(st, args[0])
            if v[0] == "ttext" and args[1] == ("i", 10):
                t = name.split("::")[0]
                return self.parse_text(I, st, v, ("int" if t[0] == "i" else "uint", t))
        return None

    def combine(self, I, st, name, last, f, args):
        if name in ("Errors::empty", "Errors::new"):
            return I.ret(st, ("adt", "combine::easy::Errors", 0, (args[0], ("vec", () if last == "empty" else (("top", "e"),)))))
        if last == "add_error" and name.split("::")[0] in ("Errors", "ParseError"):
            a = addr_of(I, st, args[0])
            v = I.addr_read(st, a)
            if v[0] == "adt" and len(v[3]) == 2:
                I.addr_write(st, a, ("adt", v[1], 0, (v[3][0], ("vec", (("top", "e"),)))))
                return I.ret(st, UNIT)
            return I.ret(st, UNIT)
        if name.startswith(("StreamError::", "Error::", "ErrorInfo::", "Info::", "Commit::", "Tracked::", "ParseError::", "Errors::")) or f.get("trait", "") and f["trait"].startswith("combine::error"):
            if name.endswith("is_committed") or name.endswith("is_peek"):
                v = I.val(st, args[0])
                if v[0] == "adt" and v[1] == COMMIT: return I.ret(st, ("b", (v[2] == 0) == name.endswith("is_committed")))
            v = I.val(st, args[0]) if args else None
            if last in ("into_inner", "as_ref", "as_mut", "unwrap") and v and v[0] == "adt" and v[1] == COMMIT: return I.ret(st, v[3][0])
            if last == "map" and v and v[0] == "adt" and v[1] == COMMIT: return I.ret(st, ("adt", COMMIT, v[2], (("top", "e"),)))
            return I.ret(st, ("top", "e"))
        if last == "position" and f.get("trait", "").endswith("Positioned"):
            if I.val(st, args[0]) == ("ts",):
                i = fresh()
                tr(st, ("pos", i))
                return I.ret(st, ("pos", i))
        if last in ("uncons", "reset", "checkpoint") or "Stream" in (f.get("trait") or ""):
            raise Unsupported("the parser uses the stream directly: %s" % name)
        return None

    def into_result(self, I, st, v):
        out = []
        v = I.val(st, v)
        if v[0] != "adt" or v[1] != PARSERES: raise Unsupported("into_result of %s" % v[0])
        i = v[2]
        x = v[3][0]
        if i <= 1: r = ok(("tup", (x, ("adt", COMMIT, i, (UNIT,)))))
        else: r = err(("adt", COMMIT, i - 2, (x,)))
        return I.ret(st, r)

    def effect(self, I, st, how, term):
        G = self.G
        alts = G.eval(term)
        out = []
        moved = how in ("parse", "easy_parse")
        for a in alts:
            if a.fail: continue
            s = st.copy()
            s.facts.update(a.facts)
            s.ext["tr"] = s.ext.get("tr", ()) + a.items
            x = a.out
            if moved: r = ok(("tup", (x, ("ts",))))
            else: r = ("adt", PARSERES, 0 if consumes(a.items) else 1, (x,))
            out += I.ret(s, r)
        fi, nullable = G.first(alts)
        s = st.copy()
        s.ext["err"] = "commit"
        out += I.ret(s, err(("top", "perr")) if moved else ("adt", PARSERES, 2, (("top", "perr"),)))
        if not nullable and not moved:
            s = st.copy()
            tr(s, ("nn", fi))
            s.ext["perr"] = True
            out += I.ret(s, ("adt", PARSERES, 3, (("top", "perr"),)))
        return out

    def local_call(self, I, st, raw, env, args):
        G = self.G
        f = G.P.fns[raw]
        t = G.P.ty(f["body"]["locals"][0])
        vals = [I.val(st, a) for a in args]
        if t[0] == "adt" and t[1] == G.streamty:
            if len(vals) == 1 and vals[0] == ("source",):
                G.streams.add(raw)
                return I.ret(st, ("ts",))
            raise Unsupported("%s makes a token stream of something else than the source" % raw)
        if vals == [("ts",)] and t[0] == "uint": return I.ret(st, ("tsoff", raw))
        if any(v == ("ts",) for v in vals):
            r = G.stream_fn(I, st, raw, env, args, vals)
            if r is not None: return r
        if any(v[0] in ("ttext",) for v in vals) and returns_string(t):
            leaf = next(v for v in vals if v[0] == "ttext")
            if len(vals) != 1: raise Unsupported("%s takes more than the token's text" % raw)
            G.decoders.add((raw, st.facts.get(("cls", leaf[1]), None)))
            x = ("unq", raw, leaf)
            if t[1] == RES:
                s = st.copy()
                return I.ret(st, ok(x)) + I.ret(s, err(("top", "e")))
            return I.ret(st, x)
        return None

    # ---- token texts
    def parse_text(self, I, st, v, t):
        if t[0] in ("int", "uint", "float"):
            s = st.copy()
            st.facts[("parses", t[1], v)] = True
            s.facts[("parses", t[1], v)] = False
            return I.ret(st, ok(("conv", t[1], v))) + I.ret(s, err(("top", "e")))
        if t[0] == "adt":
            r = I.P.resolve_trait("std::str::FromStr", "from_str", t)
            if r:
                I.push(st, r[0], tuple(sorted(r[1].items())), [refv(v)])
                return [st]
        return None

    def slice_index(self, I, st, v, ix, info):
        if v == ("source",) and ix[0] == "adt":
            lo, hi = range_bounds(ix)
            if hi is None and lo is not None:
                r = I.ret(st, refv(("suffix", lo)))
                return r if lo[0] == "tsoff" else r + I.do_panic(st.copy(), "slice", ("source", lo))
        return None

    def str_method(self, I, st, n, v, args, info):
        if v[0] == "ttext" and n == "parse":
            r = self.parse_text(I, st, v, info["targs"][0])
            if r is not None: return r
        return None

    def eq(self, I, st, a, b):
        if b[0] in ("ttext", "tkind"): a, b = b, a
        if a[0] == "ttext" and b[0] == "s": return ("cin", a[1], frozenset((k, False, frozenset([b[1]])) for k in KINDS))
        if a[0] == "tkind" and b[0] == "adt": return ("cin", a[1], C.one(self.G.kindname(b)))
        if a[0] == "unq" or b[0] == "unq": return None
        return None

    def condition(self, I, st, v):
        neg = False
        while v[0] == "not": neg = not neg; v = v[1]
        if v[0] == "cin":
            cur = st.facts.get(("cls", v[1]), C.all())
            out = []
            for b, c in ((True, C.inter(cur, v[2])), (False, C.minus(cur, v[2]))):
                if not c: continue
                s = st.copy()
                s.facts[("cls", v[1])] = c
                out.append((s, b != neg))
            return out
        if v[0] in ("finite", "pempty"):
            return [(s, b != neg) for s, b in I.fork_fact(st, v)]
        if v[0] in ("eq", "lt"):
            d = lin_add(v[2], v[1], -1)     # v[2] - v[1]
            c, terms = to_lin(d) if d else (None, {})
            if terms and all(k[0] == "len" and k[1][0] == "plist" for k in terms):
                lists = [k[1] for k in terms]
                signs = {n > 0 for n in terms.values()}
                # n = sum of lengths; what is decided by all of them being empty or not
                if len(signs) == 1:
                    pos = signs.pop()
                    if v[0] == "eq" and c == 0: empty = True
                    elif v[0] == "lt" and pos and c == 0: empty = False              # 0 < n
                    elif v[0] == "lt" and not pos and c == 1 and all(n == -1 for n in terms.values()): empty = True    # n < 1
                    else: raise Unsupported("the grammar depends on the length of a list")
                    work = [(st, True)]
                    for l in lists:
                        nxt = []
                        for s, allempty in work:
                            e = self.is_empty(I, s, l)
                            for s2, b in ([(s, e[1])] if e[0] == "b" else I.fork_fact(s, e)):
                                nxt.append((s2, allempty and b))
                        work = nxt
                    return [(s, (b == empty) != neg) for s, b in work]
        raise Unsupported("the grammar depends on %s" % (v[:2],))

    def discr(self, I, st, x):
        if x[0] == "tkind":
            out = []
            for i, k in enumerate(self.G.kinds):
                c = C.inter(st.facts.get(("cls", x[1]), C.all()), C.one(k))
                if c:
                    s = st.copy(); s.facts[("cls", x[1])] = c
                    out.append((s, i))
            return out
        if x[0] == "pcall": raise Unsupported("the value of a recursive rule is inspected")
        raise Unsupported("discriminant of %s" % (x[0],))

    def force(self, I, st, v):
        return None

    def is_empty(self, I, st, v):
        if v[0] == "plist":
            if self.G.reps[v[1]][3] >= 1: return ("b", False)
            return ("pempty", v[1])
        if v[0] == "splice": raise Unsupported("is_empty of a spliced list")
        return None

    def length(self, I, st, v):
        return None

    # ---- lists made by repetitions
    def make_iter(self, I, st, v, n, args, info):
        if v[0] == "plist" and n.split("::")[1] in ("into_iter", "iter", "drain"):
            return IT("plist", v, ("b", args[0][0] == "ref"), NONE)
        return None

    def iter_next(self, I, st, a, v):
        if v[0] != "adt" or v[1] != "it::plist": return None
        lst, byref, cur = v[3]
        G = self.G
        rep = G.reps[lst[1]]
        if cur != NONE: self.finish(I, st, lst, cur, rep)
        out = []
        first = cur == NONE
        known = st.facts.get(("pempty", lst[1]))
        # end
        if not (first and (known is False or rep[3] >= 1)):
            s = st.copy()
            if first: s.facts[("pempty", lst[1])] = True
            s.emit("end", lst[1])
            I.addr_write(s, a, IT("vec", ("vec", ()), ("i", 0), ("b", False)))
            out += I.ret(s, NONE)
        if not (first and known is True):
            for i, alt in enumerate(rep[2]):
                if alt.fail: continue
                s = st.copy()
                if first: s.facts[("pempty", lst[1])] = False
                for k, c in alt.facts.items(): s.facts[k] = c
                I.addr_write(s, a, IT("plist", lst, byref, some(("i", i))))
                x = alt.out
                out += I.ret(s, some(refv(x) if byref[1] else x))
        return out

    def finish(self, I, st, lst, cur, rep):
        """the current element is done: name its parts by what was learnt about it"""
        i = cur[3][0][1]
        alt = rep[2][i]
        ids = ids_of(alt)
        narrow = tuple(sorted(((x, st.facts[("cls", x)]) for x in ids if ("cls", x) in st.facts), key=repr))
        other = [k for k in st.facts if k[0] != "cls" and any(mention(k, x) for x in ids)]
        if other: raise Unsupported("elements of a repetition are told apart by %s" % (other[0][0],))
        for x in ids: st.facts.pop(("cls", x), None)
        m = {x: ("el", lst[1], i, narrow, x) for x in ids}
        for fr in st.frames:
            for l in list(fr.loc):
                if isinstance(fr.loc[l], tuple): fr.loc[l] = subst(fr.loc[l], m)
        st.emit("elem", lst[1], i, narrow)

    def extend(self, I, st, a, it):
        v = I.addr_read(st, a)
        if it[0] == "adt" and it[1] == "it::plist" and it[3][2] == NONE:
            if v[0] == "vec":
                I.addr_write(st, a, ("vec", v[1] + (("splice", it[3][0]),)))
                return I.ret(st, UNIT)
        return None

    def consume(self, I, st, n, it, args, info):
        it = I.val(st, it)
        if n == "collect" and it[0] == "adt":
            parts = self.whole(it)
            if parts is not None: return I.ret(st, parts[0] if len(parts) == 1 and parts[0][0] == "plist" else ("vec", tuple(("splice", p) if p[0] == "plist" else p for p in parts)))
        return None

    def whole(self, it):
        """an iterator over complete lists in order, unchanged"""
        if it[1] == "it::plist" and it[3][2] == NONE: return [it[3][0]]
        if it[1] == "it::vec" and it[3][1] == ("i", 0): return list(it[3][0][1])
        if it[1] == "it::chain" and it[3][2] == ("i", 0) and it[3][0][0] == "adt" and it[3][1][0] == "adt":
            a, b = self.whole(it[3][0]), self.whole(it[3][1])
            if a is not None and b is not None: return a + b
        return None


def mention(k, x):
    if k == x: return True
    return isinstance(k, tuple) and any(mention(y, x) for y in k)


def subst(v, m):
    if v in m: return m[v]
    if isinstance(v, tuple):
        if v and v[0] in ("#", "el"): return v
        return tuple(subst(y, m) if isinstance(y, tuple) else y for y in v)
    return v


def ids_of(alt):
    """token, list, mark and call names of an alternative (not of nested repetitions)"""
    return [it[1] for it in alt.items if it[0] in ("tok", "pos", "rep", "call", "nfa")]


def tr(st, item): st.ext["tr"] = st.ext.get("tr", ()) + (item,)


def consumes(items):
    return any(it[0] in ("tok", "call") or (it[0] in ("rep", "nfa") and it[3 if it[0] == "rep" else 5] >= 1) for it in items)


def returns_string(t):
    if t[0] == "adt" and t[1].endswith("::String"): return True
    if t[0] == "adt" and t[1].endswith("borrow::Cow"): return True
    if t[0] == "adt" and t[1] in (RES, OPT): return returns_string(t[2][0])
    return False


def close(I, st, v):
    """value without references into frames"""
    if not isinstance(v, tuple) or not v: return v
    if v[0] == "ref":
        if v[2][0] == "@": return ("ref", v[1], ("v", close(I, st, I.addr_read(st, v[2]))))
        return ("ref", v[1], ("v", close(I, st, v[2][1])))
    if v[0] in ("tup", "vec"): return (v[0], tuple(close(I, st, x) for x in v[1]))
    if v[0] == "adt": return ("adt", v[1], v[2], tuple(close(I, st, x) for x in v[3]))
    if v[0] == "clo": return ("clo", v[1], tuple(close(I, st, x) for x in v[2]), v[3])
    if v[0] == "pt": return ("pt", v[1], tuple(close(I, st, x) for x in v[2]), v[3])
    return v


class Grammar:
    def __init__(self, P):
        self.P = P
        self.dom = PDom(self)
        self.I = Interp(P, self.dom, fuel=8000000)
        self.streamty = next((p for p, a in P.adts.items() if a["local"] and p.endswith("::TokenStream")), None)
        self.tokenty = next((p for p, a in P.adts.items() if a["local"] and p.endswith("tokenizer::Token")), None)
        self.kindty = next((p for p, a in P.adts.items() if a["local"] and p.endswith("tokenizer::Kind")), None)
        if not (self.streamty and self.tokenty and self.kindty): raise Unsupported("TokenStream, Token or Kind not found")
        self.kinds = [v["name"] for v in P.adts[self.kindty]["variants"]]
        if sorted(self.kinds) != sorted(KINDS): raise Unsupported("token kinds are %s" % self.kinds)
        self.reps = {}
        self.memo = {}
        self.firsts = {}
        self.prefer = ("SelectionSet", "Selection", "Value", "Type", "Field")
        self.cut = set()          # raw names of the functions that stay rules of their own
        self.decoders = set()
        self.streams = set()     # (decoder function, class of tokens it is applied to)
        self.panics = []          # reachable panics in parser code
        self.converted = set()    # (function, kind of value converted into the text type)
        self.lookahead = []       # uses of backtracking combinators
        self.nullloops = []
        self.fnstack = []
        self.visited = {}         # parser function -> times evaluated
        self.calls = {}           # key -> set of keys

    def kindname(self, v): return self.kinds[v[2]]

    def token(self, i):
        a = self.P.adts[self.tokenty]["variants"][0]["fields"]
        fs = []
        for f in a:
            if f["name"] == "kind": fs.append(("tkind", i))
            elif f["name"] == "value": fs.append(refv(("ttext", i)))
            else: raise Unsupported("field %s of Token" % f["name"])
        return ("adt", self.tokenty, 0, tuple(fs))

    # ------------------------------------------------------------ rules
    def stream_fn(self, I, st, raw, env, args, vals):
        """a local function that is given the stream"""
        key = self.key(raw, env, args, vals)
        if key in self.fnstack and raw not in self.cut: self.recursion(key)
        if raw in self.cut:
            i = fresh()
            self.first_key(key)
            tr(st, ("call", i, key))
            t = self.P.ty(self.P.body(raw)["locals"][0])
            x = ("pcall", i, key, t)
            out = I.ret(st.copy(), ok(("tup", (x, ("adt", COMMIT, 0, (UNIT,))))))
            s = st.copy(); s.ext["err"] = "commit"
            out += I.ret(s, err(("adt", COMMIT, 0, (("top", "perr"),))))
            s = st.copy(); tr(s, ("nn", ("first", key))); s.ext["perr"] = True
            out += I.ret(s, err(("adt", COMMIT, 1, (("top", "perr"),))))
            return out
        return None       # inline

    def key(self, raw, env, args, vals):
        rest = tuple(v for v in vals if v != ("ts",))
        return (raw, rest)

    def output(self, raw):
        """type a parser function delivers"""
        t = self.P.ty(self.P.body(raw)["locals"][0])
        while t[0] == "adt" and t[1] == RES and t[2]: t = t[2][0]
        return t[1][0] if t[0] == "tuple" and t[1] else t

    def recursion(self, key):
        """one function of the cycle becomes a rule of its own"""
        cyc = [k for k in self.fnstack[self.fnstack.index(key):] if k[0] != "closure"]
        if not cyc: raise Unsupported("a parser closure contains itself")
        for k in cyc:
            t = self.output(k[0])
            if t[0] == "adt" and t[1].split("::")[-1] in self.prefer:
                raise Recur(k[0])
        raise Recur((key if key in cyc else cyc[0])[0])

    def rule(self, key):
        """alternatives of a parser function"""
        if key in self.memo: return self.memo[key]
        raw, rest = key
        if key in self.fnstack: self.recursion(key)
        self.fnstack.append(key)
        self.visited[raw] = self.visited.get(raw, 0) + 1
        b = self.P.body(raw)
        args = []
        rest = list(rest)
        for j in range(1, b["argc"] + 1):
            t = self.P.ty(b["locals"][j])
            if t[0] == "ref" and t[2] == ("str",): args.append(refv(("source",)))
            elif t[0] == "ref" and t[2][0] == "adt" and t[2][1] == self.streamty: args.append(("ref", True, ("v", ("ts",))))
            elif t[0] == "adt" and t[1] == self.streamty: args.append(("ts",))
            else: args.append(refv(rest.pop(0)) if t[0] == "ref" else rest.pop(0))
        st = St()
        self.I.push(st, raw, (), args)
        alts = self.results(self.I.explore(st, 3000), raw)
        self.fnstack.pop()
        self.memo[key] = alts
        return alts

    def results(self, graph, raw):
        n, edges = graph
        alts = []
        if cyclic(n, edges): raise Unsupported("%s loops over the token stream by hand" % raw)
        for src, ev, dst in edges:
            if not isinstance(dst, tuple): continue
            k, v, st = dst
            if k == "panic":
                self.panics.append((raw, v)); continue
            v = self.I.val(st, v)
            if v[0] != "adt" or v[1] not in (RES, PARSERES): raise Unsupported("%s returns %s" % (raw, v[0]))
            items = st.ext.get("tr", ())
            if v[1] == RES and v[2] == 1 or v[1] == PARSERES and v[2] >= 2:
                continue
            if st.ext.get("err"): raise Unsupported("%s goes on after an error inside a construct" % raw)
            if v[1] == RES and not self.parser_result(raw): out = v[3][0]
            elif v[1] == RES:
                out, com = v[3][0][1]
                if com[0] == "adt" and com[1] == COMMIT and (com[2] == 0) != consumes(items) and (com[2] == 0 or definitely(items)):
                    raise Unsupported("%s reports consumption wrongly" % raw)
            else: out = v[3][0]
            alts.append(Alt(items, out, dict(st.facts)))
        return alts

    def parser_result(self, raw):
        """a combine parser function (as opposed to an entry point that owns the stream)"""
        b = self.P.body(raw)
        return any(self.P.ty(b["locals"][j])[:2] == ("ref", True) and self.P.ty(b["locals"][j])[2][:2] == ("adt", self.streamty) for j in range(1, b["argc"] + 1))

    def call_fn(self, f):
        """parser(f): alternatives of applying callable f to the stream"""
        I = self.I
        f = I.val(St(), f) if f[0] == "ref" else f
        raw = None
        if f[0] == "fn":
            o = I.fnref(f)
            raw = o.get("res") if o.get("reslocal") else o["raw"]
            if raw not in self.P.fns: raise Unsupported("parser function %s" % o["path"])
            key = (raw, ())
            if raw in self.cut:
                i = fresh()
                self.first_key(key)
                t = self.P.ty(self.P.body(raw)["locals"][0])
                return [Alt((("call", i, key),), ("pcall", i, key, t))]
            return self.fresh_alts(key)
        if f[0] == "clo":
            key = ("closure", f)
            if key in self.memo: return self.copy(self.memo[key])
            if key in self.fnstack: self.recursion(key)
            self.fnstack.append(key)
            st = St()
            sts = I.invoke(st, f, [("ref", True, ("v", ("ts",)))])
            alts = []
            for s in sts: alts += self.results(I.explore(s, 3000), f[1])
            self.fnstack.pop()
            self.memo[key] = alts
            return self.copy(alts)
        raise Unsupported("parser(%s)" % f[0])

    def copy(self, alts):
        out = []
        for a in alts:
            m = {}
            b = rename(a, m)
            self.reregister(b)
            out.append(b)
        return out

    def reregister(self, alt):
        for it in alt.items:
            if it[0] == "rep":
                self.reps[it[1]] = it
                for a in it[2]: self.reregister(a)
                for a in it[4] or (): self.reregister(a)
            elif it[0] == "nfa":
                self.reps[it[1]] = it[2]
                for a in it[2][2]: self.reregister(a)

    def fresh_alts(self, key): return self.copy(self.rule(key))

    # ------------------------------------------------------------ FIRST
    def first(self, alts):
        c = C.NONE; nullable = False
        for a in alts:
            x, n = self.first_items(a.items, a.facts)
            c = C.union(c, x); nullable = nullable or (n and not a.fail)
        return c, nullable

    def cls(self, i, facts): return facts.get(("cls", i), C.all())

    def nncls(self, c):
        if isinstance(c, tuple) and c[0] == "first": return self.first_key(c[1])
        return c

    def first_items(self, items, facts):
        c = C.NONE; block = C.NONE
        for it in items:
            k = it[0]
            if k == "tok": return C.union(c, C.minus(self.cls(it[1], facts), block)), False
            if k == "nn": block = C.union(block, self.nncls(it[1]))
            elif k == "rep":
                if facts.get(("pempty", it[1])) is True: continue
                x, n = self.first(it[2])
                c = C.union(c, C.minus(x, block))
                if it[3] >= 1 or facts.get(("pempty", it[1])) is False: return c, False
                block = C.union(block, x)
            elif k == "nfa":
                x, n = self.first(it[2][2])
                c = C.union(c, C.minus(x, block))
                if it[5] >= 1: return c, False
            elif k == "call": return C.union(c, C.minus(self.first_key(it[2]), block)), False
            elif k == "eof": return C.union(c, C.one(EOF)), False
        return c, True

    def first_key(self, key):
        """FIRST of a recursive rule: the current approximation (see solve)"""
        if key not in self.firsts:
            self.firsts[key] = C.NONE
            self.unsettled = True
        return self.firsts[key]

    def solve(self, keys):
        """evaluate the rules reachable from keys with FIRST sets that are consistent with them"""
        for _ in range(40):
            self.memo.clear(); self.fnstack.clear(); self.reps.clear(); self.panics.clear(); self.decoders.clear()
            self.unsettled = False
            try:
                for k in keys: self.rule(k)
                done = set()
                while True:
                    todo = [k for k in self.firsts if k not in done]
                    if not todo: break
                    for k in todo: self.rule(k); done.add(k)
            except Recur as e:
                self.cut.add(e.args[0])
                continue
            for k in list(self.firsts):
                c, n = self.first(self.rule(k))
                if n: raise Unsupported("%s can match nothing" % (k[0],))
                if c != self.firsts[k]:
                    self.firsts[k] = c; self.unsettled = True
            if not self.unsettled: return
        raise Unsupported("the sets of first tokens do not settle")

    def rule_of(self, key): return self.rule(key)

    # ------------------------------------------------------------ closures
    def run(self, f, args, alt):
        """apply a closure to the value of an alternative -> [(value, items, facts)]"""
        if f[0] == "py": return [(v, alt.items, alt.facts) for v in f[1](*args)]
        I = self.I
        st = St()
        st.facts = dict(alt.facts)
        out = []
        for s in I.invoke(st, f, args):
            if s.result is not None:
                out.append((s.result, alt.items, s.facts)); continue
            if s.panic:
                self.panics.append(("closure", s.panic)); continue
            n, edges = I.explore(s, 3000)
            elems = [e for e in edges if any(x[0] == "elem" for x in e[1])]
            ends = [e for e in edges if isinstance(e[2], tuple)]
            if n == 1 or not any(x[0] in ("elem", "end") for e in edges for x in e[1]):
                for e in ends:
                    k, v, s2 = e[2]
                    if k == "panic": self.panics.append((clo_name(f), v)); continue
                    out.append((I.val(s2, v) if v[0] == "ref" else v, alt.items, s2.facts))
                continue
            out += self.list_loop(f, alt, n, edges)
        return out

    def list_loop(self, f, alt, n, edges):
        lists = {x[1] for e in edges for x in e[1] if x[0] in ("elem", "end")}
        if len(lists) != 1: raise Unsupported("a closure walks several lists")
        lid = lists.pop()
        pos = [i for i, it in enumerate(alt.items) if it[0] == "rep" and it[1] == lid]
        if not pos: raise Unsupported("a closure walks an unknown list")
        rep = alt.items[pos[0]]
        # split edges so that each carries at most one element
        g = []; extra = [n]
        def new():
            extra[0] += 1
            return extra[0] - 1
        finals = []
        for src, ev, dst in edges:
            cur = src
            evs = [x for x in ev if x[0] in ("elem",)]
            for x in evs:
                nn = new()
                g.append((cur, (x[2], x[3]), nn)); cur = nn
            if isinstance(dst, tuple):
                k, v, s2 = dst
                if k == "panic":
                    self.panics.append((clo_name(f), v)); continue
                ended = any(x[0] == "end" for x in ev)
                finals.append((cur, v, s2, src))
            else: g.append((cur, None, dst))
        # the end event may lie on an earlier edge: demand that every path to a result walked the whole list
        endsrc = {}
        reach = {0: {False}}
        wl = [0]
        adj = {}
        for src, ev, dst in edges:
            adj.setdefault(src, []).append((any(x[0] == "end" for x in ev), dst))
        while wl:
            x = wl.pop()
            for e, d in adj.get(x, ()):
                for b in list(reach[x]):
                    nb = b or e
                    if isinstance(d, tuple):
                        if not nb and not is_err(d[1]): raise Unsupported("a closure does not look at the whole list")
                        continue
                    if nb not in reach.setdefault(d, set()):
                        reach[d].add(nb); wl.append(d)
        out = []
        for cur, v, s2, src in finals:
            v = self.I.val(s2, v) if v[0] == "ref" else v
            facts = dict(s2.facts)
            mn = rep[3]
            e = facts.get(("pempty", lid))
            nfa = ("nfa", lid, rep, tuple(g), cur, max(mn, 1 if e is False else 0))
            items = alt.items[:pos[0]] + (nfa,) + alt.items[pos[0] + 1:]
            out.append((v, items, facts))
        return out

    # ------------------------------------------------------------ combinators
    def eval(self, t):
        if t[0] == "ref": t = self.I.val(St(), t)
        if t[0] == "tup": return self.seq([self.eval(x) for x in t[1]], lambda outs: ("tup", tuple(outs)))
        if t[0] == "adt":
            if t[1] == "std::boxed::Box": return self.eval(t[3][0])
            return self.custom(t)
        if t[0] == "clo" or t[0] == "fn": return self.call_fn(t)
        if t[0] != "pt": raise Unsupported("parser value %s" % (t[0],))
        op, a, targs = t[1], t[2], t[3]
        m = getattr(self, "c_" + op.replace("r#", ""), None)
        if op in IDENT: return self.eval(a[0])
        if m is None: raise Unsupported("combinator %s" % op)
        return m(a, targs)

    def custom(self, t):
        """a local type that implements Parser"""
        selfty = ("adt", t[1], ())
        for name in ("parse_lazy", "parse_stream", "parse_mode_impl", "parse_first", "parse_partial"):
            for im in self.P.impls:
                if im["trait"] == "combine::Parser" and self.P.ty(im["self"])[:2] == ("adt", t[1]):
                    for nm, raw, tag in [x[:3] for x in im["items"]]:
                        if nm == name and raw in self.P.fns:
                            self.visited[raw] = self.visited.get(raw, 0) + 1
                            st = St()
                            self.I.push(st, raw, (), [("ref", True, ("v", t)), ("ref", True, ("v", ("ts",)))])
                            return self.results(self.I.explore(st, 3000), raw)
        raise Unsupported("parser type %s" % t[1])

    def seq(self, parts, combine):
        out = [([], [], {}, False)]
        for alts in parts:
            nxt = []
            for items, outs, facts, fail in out:
                if fail: nxt.append((items, outs, facts, True)); continue
                for a in alts:
                    f = dict(facts); f.update(a.facts)
                    nxt.append((items + list(a.items), outs + [a.out], f, a.fail))
            out = nxt
            if len(out) > 4000: raise Unsupported("too many alternatives")
        return [Alt(i, combine(o) if not fl else UNIT, f, fl) for i, o, f, fl in out]

    def c_and(self, a, t): return self.seq([self.eval(a[0]), self.eval(a[1])], lambda o: ("tup", tuple(o)))
    def c_with(self, a, t): return self.seq([self.eval(a[0]), self.eval(a[1])], lambda o: o[1])
    def c_skip(self, a, t): return self.seq([self.eval(a[0]), self.eval(a[1])], lambda o: o[0])
    def c_between(self, a, t): return self.seq([self.eval(x) for x in (a[0], a[2], a[1])], lambda o: o[1])

    def c_or(self, a, t): return self.choice([self.eval(a[0]), self.eval(a[1])])

    def choice(self, ps):
        out = []
        seen = C.NONE
        for alts in ps:
            fi, nullable = self.first(alts)
            for x in alts:
                y, n = self.first_items(x.items, x.facts)
                if C.inter(seen, y) or n:
                    x = Alt((("nn", seen),) + x.items, x.out, x.facts, x.fail) if seen else x
                    y2, n2 = self.first_items(x.items, x.facts)
                    if not y2 and not n2: continue      # never chosen
                out.append(x)
            if nullable: break
            seen = C.union(seen, fi)
        return out

    def c_choice(self, a, t):
        v = a[0]
        if v[0] == "ref": v = self.I.val(St(), v)
        if v[0] in ("tup", "vec"): return self.choice([self.eval(x) for x in v[1]])
        raise Unsupported("choice of %s" % v[0])

    def c_parser(self, a, t): return self.call_fn(a[0])

    def c_satisfy(self, a, t):
        i = fresh()
        acc = C.NONE
        alt = Alt((("tok", i),), self.token(i), {("cls", i): C.all()})
        for v, items, facts in self.run(a[0], [alt.out], alt):
            if set(facts) - {("cls", i)}: raise Unsupported("satisfy looks beyond the token")
            for s, b in self.truth(v, facts):
                if b: acc = C.union(acc, s[("cls", i)])
        return [Alt((("tok", i),), self.token(i), {("cls", i): acc})] if acc else []

    def truth(self, v, facts):
        st = St(); st.facts = dict(facts)
        return [(s.facts, b) for s, b in self.I.truth(st, v)]

    def c_satisfy_map(self, a, t):
        i = fresh()
        alt = Alt((("tok", i),), self.token(i), {("cls", i): C.all()})
        out = []
        for v, items, facts in self.run(a[0], [alt.out], alt):
            if v[0] != "adt" or v[1] != OPT: raise Unsupported("satisfy_map")
            if v[2] == 1: out.append(Alt(items, v[3][0], facts))
        return out

    def c_any(self, a, t):
        i = fresh()
        return [Alt((("tok", i),), self.token(i), {("cls", i): C.all()})]

    def c_token(self, a, t):
        v = a[0]
        i = fresh()
        if v[0] != "adt" or v[1] != self.tokenty: raise Unsupported("token()")
        names = [f["name"] for f in self.P.adts[self.tokenty]["variants"][0]["fields"]]
        f = dict(zip(names, v[3]))
        txt = self.I.val(St(), f["value"])
        if txt[0] != "s": raise Unsupported("token()")
        return [Alt((("tok", i),), self.token(i), {("cls", i): C.one(self.kindname(f["kind"]), txt[1])})]

    def c_eof(self, a, t): return [Alt((("eof",),), UNIT)]

    def c_position(self, a, t):
        i = fresh()
        return [Alt((("pos", i),), ("pos", i))]

    def c_value(self, a, t): return [Alt((), a[0])]
    def c_unit(self, a, t): return [Alt((), UNIT)]

    def c_produce(self, a, t):
        return [Alt(it, v, f) for v, it, f in self.run(a[0], [], Alt())]

    def c_map(self, a, t):
        out = []
        for x in self.eval(a[0]):
            if x.fail: out.append(x); continue
            for v, items, facts in self.run(a[1], [x.out], x): out.append(Alt(items, v, facts))
        return out

    def c_and_then(self, a, t):
        out = []
        for x in self.eval(a[0]):
            if x.fail: out.append(x); continue
            for v, items, facts in self.run(a[1], [x.out], x):
                v = self.I.val(St(), v)
                if v[0] != "adt" or v[1] != RES: raise Unsupported("and_then result %s" % v[0])
                if v[2] == 0: out.append(Alt(items, v[3][0], facts))
                else:
                    if not consumes(items): raise Unsupported("and_then fails without a token")
                    out.append(Alt(items, UNIT, facts, True))
        return out

    c_flat_map = c_and_then

    def c_then(self, a, t):
        out = []
        for x in self.eval(a[0]):
            if x.fail: out.append(x); continue
            for v, items, facts in self.run(a[1], [x.out], x):
                out += self.seq([[Alt(items, x.out, facts)], self.eval(v)], lambda o: o[1])
        return out

    def c_optional(self, a, t):
        return self.opt_alts(self.eval(a[0]))

    def coll(self, targs, idx):
        t = targs[idx] if idx < len(targs) else None
        for t in targs:
            if t[0] == "adt" and t[1].endswith(("::Vec", "BTreeMap", "BTreeSet", "HashMap", "::String", "HashSet", "VecDeque")):
                return t[1].split("::")[-1]
            if t == ("tuple", ()): return "()"
        raise Unsupported("collection type of a repetition")

    def rep(self, a, mn, sep, coll):
        return self.rep_alts(self.eval(a), mn, self.eval(sep) if sep is not None else None, coll)

    def opt_alts(self, alts):
        fi, nullable = self.first(alts)
        out = [Alt(x.items, some(x.out) if not x.fail else UNIT, x.facts, x.fail) for x in alts]
        if not nullable: out.append(Alt((("nn", fi),), NONE))
        return out

    def rep_alts(self, alts, mn, seps, coll):
        fi, nullable = self.first(alts)
        if nullable: raise Unsupported("a repetition of something that can match nothing never ends")
        i = fresh()
        it = ("rep", i, tuple(alts), mn, tuple(seps) if seps is not None else None)
        self.reps[i] = it
        # an element that fails after its first token fails the whole
        out = [Alt((it,), ("plist", i, coll))]
        return out

    def c_many(self, a, t): return self.rep(a[0], 0, None, self.coll(t, 0))
    def c_many1(self, a, t): return self.rep(a[0], 1, None, self.coll(t, 0))
    def c_sep_by1(self, a, t): return self.rep(a[0], 1, a[1], self.coll(t, 0))

    def c_sep_by(self, a, t): return self.rep(a[0], 0, a[1], self.coll(t, 0))

    def c_skip_many(self, a, t): return [Alt(x.items, UNIT, x.facts, x.fail) for x in self.rep(a[0], 0, None, "()")]
    def c_skip_many1(self, a, t): return [Alt(x.items, UNIT, x.facts, x.fail) for x in self.rep(a[0], 1, None, "()")]

    def c_attempt(self, a, t):
        alts = self.eval(a[0])
        if all(len([i for i in x.items if i[0] not in ("pos", "nn")]) <= 1 and not x.fail for x in alts): return alts
        self.lookahead.append("attempt")
        raise GivesBack("attempt in %s gives back consumed tokens" % (self.P.where(self.fnstack[-1][0]) if self.fnstack else "a parser"))

    c_try = c_attempt

    def c_look_ahead(self, a, t):
        self.lookahead.append("look_ahead")
        raise Unsupported("look_ahead reads tokens twice")

    def c_not_followed_by(self, a, t):
        alts = self.eval(a[0])
        fi, n = self.first(alts)
        if n or any(len([i for i in x.items if i[0] not in ("pos", "nn")]) != 1 or x.fail for x in alts):
            self.lookahead.append("not_followed_by")
            raise Unsupported("not_followed_by reads more than the next token")
        return [Alt((("nn", fi),), UNIT)]


def cyclic(n, edges):
    adj = {}
    for s, _, d in edges:
        if not isinstance(d, tuple): adj.setdefault(s, set()).add(d)
    indeg = {i: 0 for i in range(n)}
    for s in adj:
        for d in adj[s]: indeg[d] += 1
    wl = [i for i in indeg if indeg[i] == 0]
    k = 0
    while wl:
        x = wl.pop(); k += 1
        for d in adj.get(x, ()):
            indeg[d] -= 1
            if indeg[d] == 0: wl.append(d)
    return k < n


def is_err(v): return v[0] == "adt" and v[1] == RES and v[2] == 1


def clo_name(f): return f[1] if f[0] == "clo" else "closure"


def definitely(items): return consumes(items)
