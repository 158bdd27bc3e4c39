"""The writers of string values (Formatter::write_quoted), interpreted over an unknown text: what they write is decoded, in step with the
text that is read, by a reference reader of string literals, and must give the text back.

The writer may go over the text several times; the language of the texts that lead to each pass is computed exactly (lang.py), and a
pass that writes is compared under the assumption that the text is in that language."""
from interp import Interp, St, Unsupported, refv, some, NONE, UNIT
import models as M
import ovf
from models import to_lin, lin_add, mk_lin, IT, cat, kont
from tape import Tape, Widen, cls, chars, inter, minus, pos, ts, ANY
from decode import DecDom, Bad, settle, SIMPLE, HEX, renitem, names, example
from printer import PrDom
from lang import Alphabet, Lang, Aut, E0, det, trim, product as aprod, shortest, relabel
import lang as LN

LF, CR = ((10, 10),), ((13, 13),)
TQ = '"""'


class WDom(DecDom):
    WIN = 10
    HWIN = 4
    REGLIM = 4
    CAP = 1
    repeat = PrDom.repeat
    snap = PrDom.snap
    counting = PrDom.counting
    snapw = PrDom.snapw
    styl = PrDom.styl

    def __init__(self, regs=()):
        Tape.__init__(self, regs)

    def keepwin(self, win, far): return 3

    # ------------------------------------------------ values
    def call(self, I, st, name, info, args):
        f = info["fn"] if isinstance(info, dict) else None
        if f is None: return None
        if name in ("From::from", "Into::into", "String::from", "Deref::deref", "AsRef::as_ref", "String::as_str", "Borrow::borrow", "ToString::to_string", "ToOwned::to_owned", "String::into_boxed_str") and len(args) == 1:
            v = I.val(st, args[0])
            if v in (("obuf",), ("obuf2",)): return I.ret(st, v if name in ("From::from", "Into::into") else refv(v))
            if v[0] == "ts": return I.ret(st, ("cat", (v,)) if name in ("From::from", "Into::into", "String::from", "ToString::to_string", "ToOwned::to_owned") else refv(v))
            if v[0] == "ch" and name in ("From::from", "Into::into", "ToString::to_string"):
                t = I.P.subst(I.P.ty(f["self"]), dict(info["env"])) if "self" in f and name != "ToString::to_string" else None
                return I.ret(st, ("cat", (v,)) if name == "ToString::to_string" or t and t[0] == "adt" and t[1].endswith("String") else v)
        return None

    def cast(self, I, st, v, t, kind):
        if t[0] in ("uint", "int") and v[0] in ("sym", "lin") and t[1] in ("usize", "u64", "i64", "isize", "u128", "i128"): return v
        return Tape.cast(self, I, st, v, t, kind)

    binop = Tape.binop

    def length(self, I, st, v):
        if v[0] == "tsesc": raise Unsupported("the length of an escaped text")
        return Tape.length(self, I, st, v)

    def on_assert(self, I, st, kind, ops, cond, exp, site): return PrDom.on_assert(self, I, st, kind, ops, cond, exp, site)

    def slice_index(self, I, st, v, ix, info): return Tape.slice_index(self, I, st, v, ix, info)

    def condition(self, I, st, v):
        neg = False
        while v[0] == "not": neg = not neg; v = v[1]
        if v[0] in ("eq", "lt"):
            d = lin_add(v[2], v[1], -1)
            if d is not None and (any(k[0] == "ctr" for k in to_lin(d)[1]) or self.styl(d)):
                r = self.counting(I, st, v[0], d)
                if r is not None: return [(s, b != neg) for s, b in r]
        return [(s, b != neg) for s, b in self.cond(I, st, v)]

    # ------------------------------------------------ text
    def str_method(self, I, st, n, v, args, info):
        if v in (("obuf",), ("obuf2",)): raise Unsupported("%s of what was written" % n)
        if v[0] == "s" and n == "repeat" and self.styl(args[1]): return I.ret(st, ("cat", (("rep", v, args[1]),)))
        if v[0] in ("ts", "tsesc") and n == "replace":
            a, b = I.val(st, args[1]), I.val(st, args[2])
            if v[0] == "tsesc" or a != ("s", TQ) or b != ("s", "\\" + TQ): raise Unsupported("%r is replaced by %r in the text" % (a[1:], b[1:]))
            return I.ret(st, ("tsesc", v[1], v[2]))
        if v[0] == "ts" and n == "ends_with":
            p = I.val(st, args[1])
            if p[0] == "s" and len(p[1]) == 1: p = ("c", ord(p[1]))
            cs = self.charset(I, st, p)
            if cs is not None and v == ts("Z", "END") and self.can(st, "END") not in self.line(st):
                out = []
                for s, nx in self.peek(st, "Z", "END") if self.hd(st) == "Z" else [(st, 1)]:
                    if nx is None: out += I.ret(s, ("b", False)); continue
                    k = ("last", cs)
                    if k in s.facts: out += I.ret(s, ("b", s.facts[k])); continue
                    for r in (True, False):
                        s2 = s.copy(); s2.facts[k] = r
                        s2.emit("pred", k, (), r, self.hd(s2), self.ahead(s2))
                        out += I.ret(s2, ("b", r))
                return out
        if v[0] == "tsesc" and n == "is_empty": return Tape.str_method(self, I, st, n, ("ts",) + v[1:], args, info)
        return Tape.str_method(self, I, st, n, v, args, info)

    def is_empty(self, I, st, v):
        if v[0] == "cat": return ("b", False) if any(x[0] not in ("ts", "tsesc", "rep") for x in v[1]) else None
        if v == ("obuf",): raise Unsupported("whether something was written before")
        if v[0] == "tsesc": return I.binop(st, "Eq", lin_add(v[2], v[1], -1), ("i", 0))
        return None

    def make_iter(self, I, st, v, n, args, info):
        if v[0] in ("ts", "tsesc"):
            b = self.can(st, v[1][1])
            if b in self.line(st)[:len(st.ext["win"])]: self.switch_head(st, b)      # a pass of its own, however short the text
        if v[0] in ("ts", "tsesc") and n in ("str::lines", "str::split", "str::split_terminator", "str::split_inclusive"):
            if n != "str::lines":
                p = I.val(st, args[1])
                if p not in (("c", 10), ("s", "\n")): raise Unsupported("the text is split at %s" % (p[1:],))
            return IT("tlines", v[1], v[2], ("s", n[5:]), ("b", False), ("s", v[0]))
        if v[0] == "tsesc" and n in ("str::chars", "str::char_indices", "str::bytes"): raise Unsupported("characters of an escaped text")
        return Tape.make_iter(self, I, st, v, n, args, info)

    def iter_next(self, I, st, a, v):
        if v[0] == "adt" and v[1] == "it::tlines":
            if v[3][3] == ("b", True): return I.ret(st, NONE)
            I.pushk(st, "w:lines", a=a, start=v[3][0], cur=v[3][0], hi=v[3][1], how=v[3][2], first=("b", True), kind=v[3][4])
            st.stop = True
            return [st]
        if v[0] == "adt" and (v[1].startswith("std::ops::Range") or v[1] in ("it::repbody",) or v[1] == "it::take" and v[3][1][0] != "i" and v[3][0][0] == "adt" and v[3][0][1] == "it::repeat"):
            r = PrDom.iter_next(self, I, st, a, v)
            if r is not None: return r
        return Tape.iter_next(self, I, st, a, v)

    # ------------------------------------------------ output
    def push_str(self, I, st, a, v, x):
        if v == ("obuf",):
            if x == ("obuf2",):
                if st.ext.get("obuf2") != ("open",): raise Unsupported("a text is written twice")
                st.ext["obuf2"] = ("done",)
                return UNIT
            if st.ext.get("obuf2") == ("open",): raise Unsupported("two texts are written at once")
            self.put(st, x)
            return UNIT
        if v == ("obuf2",):
            if st.ext.get("obuf2") != ("open",): raise Unsupported("a text is built further after it was written")
            self.put(st, x)
            return UNIT
        if x == ("obuf2",): raise Unsupported("a text that is built is copied")
        if x[0] in ("ch", "ts", "tsesc", "c", "s", "cat", "xx", "rep") and v[0] in ("s", "cat"):
            ps = (v[1] if v[0] == "cat" else (v,) if v != ("s", "") else ()) + (x[1] if x[0] == "cat" else (x,))
            I.addr_write(st, a, cat(ps))
            return UNIT
        return None

    def put(self, st, x):
        if x[0] == "rep":
            st.emit("rep", x[2])
            for y in self.items(st, x[1]): st.emit("out", y)
            st.emit("endrep")
        elif x[0] == "cat":
            for y in x[1]: self.put(st, y)
        else:
            for y in self.items(st, x): st.emit("out", y)

    def strings(self, st, key, v):
        if v[0] in ("s", "cat"):
            if ("str",) + key in self.regs:
                if "obuf2" in st.ext and st.ext["obuf2"] != ("done",): raise Unsupported("two texts are built")
                st.ext["obuf2"] = ("open",)
                self.put(st, v)
                return ("obuf2",)
            if len(v[1]) > 6 and not (v[0] == "s" and len(v[1]) < 200): raise Widen(("str",) + key)
            return v
        return DecDom.strings(self, st, key, v)

    def items(self, st, x):
        k = x[0]
        if k == "cat": return [z for y in x[1] for z in self.items(st, y)]
        if k == "s": return [("c", ord(c)) for c in x[1]]
        if k == "c": return [x]
        if k in ("ts", "tsesc"):
            a, b = self.can(st, x[1][1]), self.can(st, x[2][1])
            return [("span" if k == "ts" else "esc", a, b)] if a != b else []
        if k == "ch": return [("copy",) + self.cell(st, x[1])]
        if k == "xx": return [("x", x[1], x[2]) + self.cell(st, x[3][1])]
        raise Unsupported("the writer writes %s" % (x[:2],))

    def cell(self, st, b):
        b = self.can(st, b)
        l = self.line(st)
        if b in l[:-1]: return (b, l[l.index(b) + 1])
        raise Unsupported("a character is written long after it was read")

    def display(self, I, st, how, spec, v):
        sp = dict(spec)
        if v[0] in ("ts", "tsesc", "ch", "obuf2") and how == "display" and not spec: return v
        if v == ("s", "") and how == "display" and "widthv" in sp and set(sp) <= {"widthv", "flags"} and sp.get("flags", 32) & 0x07ffffff == 32 and self.styl(sp["widthv"]):
            n = sp["widthv"]
            return ("s", " " * n[1]) if n[0] == "i" else ("cat", (("rep", ("s", " "), n),))
        if how in ("lower_hex", "upper_hex") and v[0] == "ch":
            w, zero = width_of(sp)
            return ("xx", w, zero, v)
        if how == "debug" and v[0] in ("ts", "ch"): raise Unsupported("a string is written with the escapes of Rust")
        if how in ("display", "debug") and v[0] == "ch" and spec: raise Unsupported("a character is written with a width")
        return None


def width_of(sp):
    """(width, padded with zeros) of a format spec"""
    x = {k: v for k, v in sp.items()}
    w = x.pop("width", x.pop("widthv", 0))
    if isinstance(w, tuple): w = w[1] if w[0] == "i" else None
    fl = x.pop("flags", 32)
    if x or w is None: raise Unsupported("a number is written with the format %s" % (sp,))
    fill = fl & 0x1fffff
    zero = bool(fl >> 24 & 1)
    if fl & 0x00e00000: raise Unsupported("a number is written with the format %s" % (sp,))      # +, -, #
    return w, zero or fill == 48


@kont("w:root")
def k_root(I, st, fr, v):
    dom = I.dom
    if st.ext.get("obuf2") == ("open",): raise Unsupported("what was built is not written")
    if any(k[0] == "while" for k in st.ext if isinstance(k, tuple)): raise Unsupported("a loop over the indentation is left early")
    f = fr.loc["fmt"]
    st.frames.pop()
    return I.ret(st, ("tup", (f, v)))


def r_lines(I, st, fr):
    dom = I.dom
    L = fr.loc
    how, kind = L["how"][1], L["kind"][1]
    cur = L["cur"]
    out = []

    def done(s, hi, nxt, over, first):
        s.frames.pop()
        start = dom.can(s, L["start"][1])
        hi = dom.can(s, hi)
        if start != hi and not first: s.facts[("ord", start, hi)] = -1
        I.addr_write(s, L["a"], IT("tlines", pos(nxt), L["hi"], L["how"], ("b", over), L["kind"]))
        return I.ret(s, some(refv((kind, pos(start), pos(hi)))))
    for s, n in dom.take(st, cur[1], L["hi"][1]):
        if n is None:
            e = dom.can(s, cur[1])
            if L["first"][1] and how != "split":
                s.frames.pop()
                I.addr_write(s, L["a"], IT("tlines", pos(e), L["hi"], L["how"], ("b", True), L["kind"]))
                out += I.ret(s, NONE)
            else: out += done(s, e, e, True, L["first"][1])
            continue
        b = dom.can(s, cur[1])
        for s2, r in dom.refine(s, b, LF):
            if not r:
                s2.top.loc["cur"] = pos(n); s2.top.loc["first"] = ("b", False)
                if how == "lines": s2.top.loc["prev"] = pos(b)
                s2.stop = True
                out.append(s2)
            elif how == "split_inclusive": out += done(s2, n, n, False, False)
            elif how == "lines" and not L["first"][1]:
                l = dom.line(s2)
                i = l.index(b)
                if not i: raise Unsupported("the character before a line break")
                p = l[i - 1]
                for s3, cr in dom.refine(s2, p, CR): out += done(s3, p if cr else b, n, False, False if not cr else None)
            else: out += done(s2, b, n, False, L["first"][1])
    return out


M.RESUME["w:lines"] = r_lines


# ---------------------------------------------------------------- exploration
def explore(P, raw, env, pat, can):
    regs = set()
    for _ in range(12):
        dom = WDom(regs)
        I = Interp(P, dom, 3000000)
        st = St(); dom.start(st)
        st.ext["hd"] = "Z"
        st.facts[("al", "S")] = "Z"
        I.pushk(st, "w:root", fmt=can)
        args = []
        for p in pat:
            if p[0] == "FMT": x = ("ref", True, ("@", 0, "fmt", ()))
            elif p[0] == "LEAF": x = ts("Z", "END")
            else: args.append(p); continue
            for _ in range(p[1] - (p[0] == "FMT")): x = refv(x)
            args.append(x)
        try:
            I.push(st, raw, tuple(env), args)
            n, e = I.explore(st, 20000)
            return I, n, e
        except Widen as w: regs.add(w.args[0])
    raise Unsupported("too many texts are built")


class CutLang(Lang):
    """the texts that lead to the pass that starts at one place"""
    def __init__(self, dom, edges, alpha, cuts):
        self.cuts = cuts
        Lang.__init__(self, dom, edges, "Z", alpha, lambda d: None, lambda k, r: lastchar(alpha, k, r))

    def exit(self, q, e, x):
        if e is not None and e[0] == "sw" and (x[1], x[2]) in self.cuts: return [(("cut",), (), None, {}, (e[2], e[3]))]
        return Lang.exit(self, q, e, x)


def lastchar(al, k, r):
    A = Aut()
    s, t = A.new(), A.new()
    c = al.mask(k[1])
    # s: no character, or one that does not count, was the last; t: one that counts
    for x in (s, t):
        A.tr[x] += [(E0, E0, c, 0, t), (E0, E0, al.CHARS & ~c, 0, s)]
    A.tr[t if r else s].append((E0, E0, al.END, 0, 0))
    A.start = {s: 0}
    return A


def anytext(al):
    A = Aut()
    s = A.new()
    A.tr[s] += [(E0, E0, al.CHARS, 0, s), (E0, E0, al.END, 0, 0)]
    A.start = {s: 0}
    return A


def fromstart(al):
    A = Aut()
    s, t = A.new(), A.new()
    Z = frozenset(("Z",))
    A.tr[s] += [(Z, E0, al.CHARS, 0, t), (Z, E0, al.END, 0, 0)]
    A.tr[t] += [(E0, Z, al.CHARS, 0, t), (E0, Z, al.END, 0, 0)]
    A.start = {s: 0}
    return A


def plain(a):
    """marks forgotten"""
    if a is None: return None
    a = trim(a)
    if a is None: return None
    r = Aut(); r.start = {s: 0 for s in a.start}
    r.tr = [[(E0, E0, m, 0, t) for P, A, m, w, t in l] for l in a.tr]
    return det(r)


def table(al, states, start, step, final):
    """an automaton from a step function over atoms; final(state): the text may end here"""
    A = Aut()
    ids = {start: A.new()}
    wl = [start]
    while wl:
        q = wl.pop()
        by = {}
        for i in range(al.n):
            r = step(q, i)
            if r is not None: by[r] = by.get(r, 0) | 1 << i
        for r, m in by.items():
            if r not in ids: ids[r] = A.new(); wl.append(r)
            A.tr[ids[q]].append((E0, E0, m, 0, ids[r]))
        if final(q): A.tr[ids[q]].append((E0, E0, al.END, 0, 0))
    A.start = {ids[start]: 0}
    return A


CLASSES = [LF, CR, chars(" "), chars("\t"), chars('"'), chars("\\"), ((0, 15),), ((0, 255),), ((0, 0xfff),), ((0, 0xffff),)] + [chars(c) for c in "/bfnrtu"]


class Rules:
    """what a text must be like to have a block form"""
    def __init__(self, al):
        self.al = al
        m = lambda c: al.mask(c)
        self.lf, self.cr, self.ws = m(LF), m(CR), m(chars(" \t"))
        self.quote, self.back = m(chars('"')), m(chars("\\"))
        self.bad = {
            "cr": ("the block form loses a carriage return before a line break", self.crlf()),
            "first": ("the block form loses a blank first line", self.first()),
            "last": ("the block form loses a blank last line", self.last()),
            "indent": ("the block form loses the white space all lines start with", self.indent()),
        }

    def crlf(self):
        def step(q, i):
            b = 1 << i
            if q == "bad": return q
            if q == "cr" and b & self.lf: return "bad"
            return "cr" if b & self.cr else "n"
        return table(self.al, None, "n", step, lambda q: q in ("bad", "cr"))

    def first(self):
        def step(q, i):
            b = 1 << i
            if q != "s": return q
            return "bad" if b & self.lf else "s" if b & self.ws else "ok"
        return table(self.al, None, "s", step, lambda q: q in ("s", "bad"))

    def last(self):
        def step(q, i):
            b = 1 << i
            if b & self.lf: return "s"
            return q if b & self.ws else "ok"
        return table(self.al, None, "s", step, lambda q: q == "s")

    def indent(self):
        # start of a line / after white space / inside; ok: some line starts with something else
        def step(q, i):
            b = 1 << i
            if q == "ok": return q
            if b & self.lf: return "s"
            if q == "s": return "in" if b & self.ws else "ok"
            return "in"
        return table(self.al, None, "s", step, lambda q: q != "ok")

    def tq(self):
        def step(q, i):
            if q == 3: return 3
            return q + 1 if 1 << i & self.quote else 0
        return table(self.al, None, 0, step, lambda q: q == 3)

    def having(self, m):
        def step(q, i): return 1 if q or 1 << i & m else 0
        return table(self.al, None, 0, step, lambda q: q == 1)


# ---------------------------------------------------------------- the reader of what is written
# states: "0" nothing; 1, 2 quotes; ("q",) in a quoted string; ("e",) after a backslash; ("u", ((digits known), n)) in \u;
# "end" closed; ("b", k, phase, indentation, quotes): in a block string, k the indentation of its lines
class Reader:
    def __init__(self, rules, check):
        self.r = rules
        self.check = check       # check(kind, message): facts about all texts of the pass

    def const(self, q, c):
        """-> (state, decoded)"""
        ch = chr(c)
        if q == "0":
            if ch != '"': raise Bad("open", "the literal starts with %r" % ch)
            return 1, ()
        if q == 1: return (2, ()) if ch == '"' else self.const(("q",), c)
        if q == 2:
            if ch != '"': raise Bad("after", "something is written after the closing quote")
            return ("b", None, "open", ("i", 0), 0), ()
        if q == "end": raise Bad("after", "something is written after the closing quote")
        if q[0] == "q":
            if ch == '"': return "end", ()
            if ch == "\\": return ("e",), ()
            if ch in "\n\r": raise Bad("raw", "a line break is written inside the quotes")
            return q, (("c", c),)
        if q[0] == "e":
            if ch == "u": return ("u", ""), ()
            if c not in SIMPLE: raise Bad("escape", "\\%s is no escape" % ch)
            return ("q",), (("c", SIMPLE[c]),)
        if q[0] == "u":
            if not inter(((c, c),), HEX): raise Bad("escape", "%r is written where the four digits of \\u are expected" % ch)
            d = q[1] + ch
            if len(d) < 4: return ("u", d), ()
            n = int(d, 16)
            if 0xD800 <= n <= 0xDFFF: raise Bad("escape", "\\u%s is a surrogate" % d)
            return ("q",), (("c", n),)
        return self.bconst(q, ch)

    def bconst(self, q, ch):
        _, k, ph, ind, n = q
        if ch == '"':
            if ph in ("open", "line"): raise Bad("block", "a quote is written in the middle of a line of the block form")
            if n < 2: return ("b", k, ph, ind, n + 1), ()
            return "end", ()
        if n: raise Bad("block", "a quote is written inside the block form")
        if ph == "open":
            if ch == "\n": return ("b", k, "start", ("i", 0), 0), ()
            if ch in " \t": return q, ()
            raise Bad("block", "text follows the opening quotes of the block form directly")
        if ch == "\n":
            # a line without content, or the end of one with content
            pre = (("c", 10),) if ph == "next" else ()
            return ("b", k, "next", ("i", 0), 0), pre
        if ch == " " and ph in ("start", "next"): return ("b", k, ph, lin_add(ind, ("i", 1), 1), 0), ()
        raise Bad("block", "%r is written inside the block form" % ch)

    def rep(self, q, n, body):
        if body != [("c", 32)]: raise Unsupported("something other than a space is repeated")
        if isinstance(q, tuple) and q[0] == "b" and q[2] in ("start", "next") and not q[4]: return ("b", q[1], q[2], lin_add(q[3], n, 1), 0)
        if isinstance(q, tuple) and q[0] == "b" and q[2] == "open" and not q[4]: return q
        raise Bad("place", "indentation is written inside the literal")

    def span(self, q, it):
        """a stretch of the text, as it is or with its triple quotes escaped"""
        if it[0] == "span":
            if q in (1, ("q",)):
                self.check("raw", "characters that have to be escaped are written as they are", self.r.having(self.r.lf | self.r.cr | self.r.quote | self.r.back))
                return ("q",), (("copy", it[1], it[2]),)
            if isinstance(q, tuple) and q[0] == "b": self.check("triple", "three quotes are written inside the block form without a backslash", self.r.tq())
        if not isinstance(q, tuple) or q[0] != "b": raise Bad("place", "a part of the text is written outside the literal")
        for kind, (msg, bad) in self.r.bad.items(): self.check(kind, msg, bad)
        _, k, ph, ind, n = q
        if ph not in ("start", "next") or n: raise Bad("block", "a part of the text is written in the middle of a line" if not n else "a part of the text follows a quote")
        if k is not None and k != ind: raise Bad("indent", "the lines of the block form are indented differently")
        return ("b", ind, "line", ("i", 0), 0), ((("c", 10),) if ph == "next" else ()) + (("copy", it[1], it[2]),)

    def char(self, q, it, m):
        """one character that may be any of m -> [(part, state, decoded)]"""
        d = (("copy", it[-2], it[-1]),)
        if it[0] == "copy":
            if q in (1, ("q",)):
                x = m & (self.r.lf | self.r.cr | self.r.quote | self.r.back)
                if x: raise Bad("raw", "%r is written as it is inside the quotes" % self.r.al.char((x & -x).bit_length() - 1))
                return [(m, ("q",), d)]
            raise Bad("place", "a character is written outside the literal") if not isinstance(q, tuple) else Unsupported("characters are written one by one in %s" % ("the block form" if q[0] == "b" else "an escape"))
        # hexadecimal digits of the character
        if not isinstance(q, tuple) or q[0] != "u": raise Bad("place", "a hexadecimal number is written outside of \\u")
        out = []
        for i in range(self.r.al.n):
            if not m >> i & 1: continue
            a, b = self.r.al.atoms[i]
            n = len("%x" % a)
            if len("%x" % b) != n: raise Unsupported("the number of digits")
            if n < it[1] and not it[2]: raise Bad("escape", "the digits of \\u are padded with spaces")
            n = max(n, it[1])
            if q[1].strip("0") or len(q[1]) + n != 4: raise Bad("escape", "\\u is written with %d digits for %s" % (len(q[1]) + n, "U+%04X" % a))
            out.append(1 << i)
        return [(sum(out), ("q",), d)]

    def over(self, q): return q == "end" or q == 2


class Ref:
    """what settle() wants to know"""
    def __init__(self, al):
        self.al = al
        self.one = {1 << i: a for i, (a, b) in enumerate(al.atoms) if a == b}

    def name(self, m): return repr(self.al.char((m & -m).bit_length() - 1))


class Writer:
    def __init__(self, P, key):
        self.P = P
        self.raw, self.env, self.pat, self.can = key
        self.I, self.nodes, self.edges = explore(P, *key)
        self.dom = self.I.dom
        cs = list(CLASSES)
        for s, ev, d in self.edges:
            for x in ev:
                if x[0] == "rd": cs.append(x[3])
                elif x[0] in ("cl", "clat"): cs.append(x[2])
                elif x[0] == "pred": cs.append(x[1][1])
                elif x[0] == "sw": cs += [C for b, C, n in x[3] if C]
                elif x[0] == "ord": cs += [C for b, C, n in x[5] if C]
            if isinstance(d, tuple): cs += [C for b, C, n in self.dom.ahead(d[2]) if C]
        self.al = Alphabet(set(cs))
        self.ref = Ref(self.al)
        self.rules = Rules(self.al)
        self.found = {}
        self.panics = {}
        self.states = 0; self.passes = 0; self.exits = 0; self.languages = 0
        self.out = {}
        for i, (s, ev, d) in enumerate(self.edges): self.out.setdefault(s, []).append(i)
        self.run()

    # positions: ("n", node) or ("e", edge, index of the next event)
    def run(self):
        work = [(("n", 0), "0", None)]
        seen = set(work)
        self.langs = {}
        while work:
            p, q, cut = work.pop()
            L = anytext(self.al) if cut is None else self.lang(cut)
            if L is None: continue
            self.passes += 1
            for n in self.onepass(p, q, L):
                if n not in seen:
                    seen.add(n); work.append(n)
                    if len(seen) > 3000: raise Unsupported("too many passes")

    def lang(self, cut):
        if cut not in self.langs:
            # the same place on several edges
            r = CutLang(self.dom, self.edges, self.al, {cut}).result
            l = [plain(aprod(a, fromstart(self.al))) for a in r.values()]
            self.langs[cut] = LN.union([a for a in l if a is not None])
            self.languages += 1
        return self.langs[cut]

    def check(self, L):
        def f(kind, msg, bad):
            x = aprod(L, bad)
            if x is not None: raise Bad(kind, msg, self.text(x))
        return f

    def text(self, a):
        w = shortest(a, self.al)
        return "".join(c for _, c in w if c != "end")

    def onepass(self, p, q, L):
        """-> [(position, reader state, cut)]: passes that start from this one"""
        rd = Reader(self.rules, self.check(L))
        self.cur = L
        # state: position, reader, expected, written, known characters, head, ended, states of L, repetition, blind
        s0 = (p, q, (), (), (), "Z", False, frozenset(L.start), None, False)
        seen = {s0: ""}
        wl = [s0]
        nxt = []
        while wl:
            s = wl.pop()
            w = seen[s]
            try:
                for s2, w2 in self.steps(s, w, rd, nxt):
                    if s2 not in seen:
                        seen[s2] = w2; wl.append(s2)
                        if len(seen) > 200000: raise Unsupported("the writer is too complex")
            except Bad as b:
                e = b.args[2] if len(b.args) > 2 else w
                self.found.setdefault(b.args[0], b.args[1] + (", e.g. for a text %s" % repr(e)[:80] if len(b.args) > 2 and b.args[0] in TEXTS else ", e.g. after %s" % repr(e)[:60] if e else ""))
        self.states += len(seen)
        return nxt

    def steps(self, s, w, rd, nxt):
        p = s[0]
        if p[0] == "n":
            for i in self.out.get(p[1], ()): yield (("e", i, 0),) + s[1:], w
            return
        ev, d = self.edges[p[1]][1], self.edges[p[1]][2]
        if p[2] < len(ev):
            for x, w2 in self.event((s[1:]), w, ev[p[2]], rd, p, nxt): yield (("e", p[1], p[2] + 1),) + x, w2
            return
        if isinstance(d, int): yield (("n", d),) + s[1:], w
        else: self.finish(s, w, d, rd)

    def move(self, Ls, m):
        """{states of L after: characters}"""
        by = {}
        for i in range(self.al.n):
            if not m >> i & 1: continue
            r = frozenset(t for x in Ls for P, A, c, _, t in self.cur.tr[x] if c >> i & 1)
            if r: by[r] = by.get(r, 0) | 1 << i
        return by

    def event(self, s, w, e, rd, p, nxt):
        q, exp, got, mem, hd, ended, Ls, rep, blind = s
        al = self.al
        k = e[0]
        if blind and k in ("rd", "cl", "clat", "at", "nat", "pk", "bk", "bat", "bnat", "ord", "pred"): return [(s, w)]
        if k == "rd":
            b, n, C = e[1:4]
            if ended: return []
            out = []
            for r, m in self.move(Ls, al.mask(C)).items():
                mem2 = mem + ((b, m),)
                x = w + al.char((m & -m).bit_length() - 1)
                e2, g2 = self.settle(exp + (("copy", b, n),), got, mem2, x)
                out.append(((q, e2, g2, mem2[-12:], n, n == "END", r, rep, blind), x))
            return out
        if k in ("cl", "clat"):
            if k == "cl": i = len(mem) - e[1]
            else:
                l = [i for i, x in enumerate(mem) if x[0] == e[1]]
                i = l[0] if l else -1
            if i < 0: return [(s, w)]
            x = mem[i][1] & al.mask(e[2])
            if not x: return []
            return [((q, exp, got, mem[:i] + ((mem[i][0], x),) + mem[i + 1:], hd, ended, Ls, rep, blind), w)]
        if k == "at":
            if e[1] != "END": return [(s, w)]
            g = lambda x: "END" if x == hd else x
            return [((q, tuple(renitem(x, g) for x in exp), tuple(renitem(x, g) for x in got), mem, "END", True, Ls, rep, blind), w)]
        if k == "nat": return [] if ended and e[1] == "END" else [(s, w)]
        if k in ("pk", "ord", "bnat", "bat", "set"): return [(s, w)]
        if k == "pred": return [(s, w)]
        if k == "rep":
            return [((q, exp, got, mem, hd, ended, Ls, (e[1], ()), blind), w)]
        if k == "endrep":
            q2 = rd.rep(q, rep[0], list(rep[1]))
            return [((q2, exp, got, mem, hd, ended, Ls, None, blind), w)]
        if k == "out":
            it = e[1]
            if rep is not None: return [((q, exp, got, mem, hd, ended, Ls, (rep[0], rep[1] + (it,)), blind), w)]
            if it[0] == "c":
                q2, o = rd.const(q, it[1])
                e2, g2 = self.settle(exp, got + o, mem, w)
                return [((q2, e2, g2, mem, hd, ended, Ls, None, blind), w)]
            if blind: raise Unsupported("the text is written while parts of it are looked at again")
            if it[0] in ("span", "esc"):
                q2, o = rd.span(q, it)
                e2, g2 = self.settle(exp, got + o, mem, w)
                return [((q2, e2, g2, mem, hd, ended, Ls, None, blind), w)]
            l = [i for i, x in enumerate(mem) if x[0] == it[-2]]
            if not l: raise Unsupported("a character is written before it is read" if not mem else "a character is written long after it was read")
            out = []
            for m, q2, o in rd.char(q, it, mem[l[-1]][1]):
                mem2 = mem[:l[-1]] + ((it[-2], m),) + mem[l[-1] + 1:]
                e2, g2 = self.settle(exp, got + o, mem2, w)
                out.append(((q2, e2, g2, mem2, hd, ended, Ls, None, blind), w))
            return out
        if k == "ren":
            m = dict(e[1])
            g = lambda x: x if x in ("S", "Z", "END") else m.get(x)
            use = set()
            names((exp, got), use)
            mem2 = tuple((g(n), i) for j, (n, i) in enumerate(mem) if g(n) is not None and (n in use or j >= len(mem) - 2))
            exp2 = []
            front = True
            for x in exp:
                if front and x[0] == "copy" and g(x[1]) is None:
                    # only a constant can stand for it from here on
                    i = [i for i, y in enumerate(mem) if y[0] == x[1]]
                    if i and (mem[i[-1] + 1][0] if i[-1] + 1 < len(mem) else hd) == x[2] and mem[i[-1]][1] in self.ref.one:
                        exp2.append(("c", self.ref.one[mem[i[-1]][1]])); continue
                front = front and x[0] == "c"
                y = renitem(x, g)
                if exp2 and y[0] == "copy" and exp2[-1][0] == "copy" and y[1] is None and exp2[-1][2] is None: exp2[-1] = ("copy", exp2[-1][1], y[2])
                else: exp2.append(y)
            return [((q, tuple(exp2), tuple(renitem(x, g) for x in got), mem2, g(hd), ended, Ls, rep, blind), w)]
        if k == "sw":
            if not blind and q not in ("0", 1, 2) and not (q == ("q",) and not got) and not (isinstance(q, tuple) and q[0] == "b" and q[1] is None and q[2] in ("open", "start")):
                raise Unsupported("the text is looked at again while it is written")
            if e[1] == "Z":
                nxt.append((("e", p[1], p[2] + 1), q, (p[1], p[2])))
                return []
            return [((q, (), (), (), hd, False, Ls, rep, True), w)]
        raise Unsupported("the writer reads the text in an unknown way (%s)" % k)

    def settle(self, exp, got, mem, w):
        # the whole text may be pending while nothing is written
        if not got: return exp, got
        try: return settle(exp, got, mem, self.ref, w)
        except Bad as b:
            if b.args[0] == "late": raise
            raise Bad("wrong", {"chars": "a character is left out, repeated or out of place", "const": "a character is written as another one", "escape": "a character is written as another one"}.get(b.args[0], b.args[1]), *b.args[2:])

    def finish(self, s, w, d, rd):
        p, q, exp, got, mem, hd, ended, Ls, rep, blind = s
        if d[0] == "panic":
            site = d[1][2] if len(d[1]) > 2 else None
            self.panics.setdefault((d[1][0], site), (d[1], w)); return
        if blind: raise Unsupported("where the text ends")
        # what was looked at without moving over it
        fs = d[2]
        cur = [((q, exp, got, mem, hd, ended, Ls, rep, blind), w)]
        line = self.dom.line(fs)[len(fs.ext["win"]):]
        for b, n in zip(line, line[1:]):
            nx = []
            for x, w2 in cur: nx += self.event(x, w2, ("rd", b, n, self.dom.klass(fs, b), False), rd, None, None)
            cur = nx
        for x, w2 in cur:
            q, exp, got, mem, hd, ended, Ls, rep, blind = x
            if ended:
                if not any(t == 0 and m & self.al.END for y in Ls for P, A, m, _, t in self.cur.tr[y]): continue
            self.exits += 1
            if not rd.over(q): raise Bad("open", "the literal is not closed", w2)
            e2, g2 = self.settle(exp, got, mem, w2)
            if not ended: raise Bad("part", "the end of the text is not written", w2)
            if e2 or g2: raise Bad("left", "more is written than the text" if g2 else "a part of the text is not written", w2)
            f, v = d[1][1]
            if v != UNIT: raise Unsupported("the writer returns a value")
            if f != self.can: raise Bad("state", "the writer changes the style or the indentation for what follows", w2)


TEXTS = ("cr", "first", "last", "indent", "raw", "triple")
