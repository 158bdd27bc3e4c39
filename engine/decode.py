"""The decoders of string tokens, interpreted over an unknown token: a transducer from the characters between the quotes to what is
returned, compared with the reference decoding by running both in step and cancelling equal output."""
from interp import Interp, St, Unsupported, refv, some, NONE, UNIT, OPT, RES
import models as M
import ovf
from models import ok, err, to_lin, lin_add, mk_lin, range_bounds, IT, cat, model
from tape import Tape, Widen, width, cls, chars, inter, minus, pos, ts, ANY, ENDCP, rename, show as showcls
from lang import Alphabet
from mir import succs, op_places, place_locals, rv_ops

HEX = cls((48, 57), (65, 70), (97, 102))
USZ = ("uint", "usize")


class DecDom(Tape):
    """the tape is what stands between the quotes; ("qt", a, b): the token without a characters at its start and b at its end"""
    WIN = 10
    HWIN = 10
    REGLIM = 9

    def __init__(self, quotes, regs=()):
        Tape.__init__(self, regs)
        self.q = quotes

    def keepwin(self, win, far): return 10

    def call(self, I, st, name, info, args):
        f = info["fn"] if isinstance(info, dict) else None
        if f is None: return None
        p = f.get("respath") or f["path"]
        if name in ("From::from", "Into::into", "String::from", "Deref::deref", "AsRef::as_ref", "String::as_str", "Borrow::borrow", "ToString::to_string", "ToOwned::to_owned", "Clone::clone", "String::into_boxed_str") and len(args) == 1:
            v = I.val(st, args[0])
            if v == ("obuf",) and name not in ("Clone::clone", "ToOwned::to_owned", "ToString::to_string"): return I.ret(st, v if name in ("From::from", "Into::into") else refv(v))
            if v[0] == "qt": raise Unsupported("the token is kept with its quotes")
            if v[0] == "ts" and name in ("From::from", "Into::into", "String::from", "ToString::to_string", "ToOwned::to_owned"): return I.ret(st, ("cat", (v,)))
            if v[0] == "hex" and name in ("From::from", "Into::into"): return I.ret(st, v)
            if v[0] in ("ch", "uchar") and name in ("From::from", "Into::into", "ToString::to_string"):
                t = I.P.subst(I.P.ty(f["self"]), dict(info["env"])) if "self" in f and name != "ToString::to_string" else None
                return I.ret(st, ("cat", (v,)) if name == "ToString::to_string" or t and t[0] == "adt" and t[1].endswith("String") else v)
        if name.split("::")[-1] == "from_str_radix":
            r = args[1]
            if r != ("i", 16): raise Unsupported("digits of base %s" % (r[1:],))
            t = info["self"] or info["targs"][0] if info["self"] or info["targs"] else None
            return self.radix(I, st, I.val(st, args[0]), name.split("::")[0])
        if name in ("char::from_u32", "char::from_u32_unchecked", "convert::from_u32") or p.endswith("::from_u32"):
            return self.from_u32(I, st, args[0])
        if name in ("TryFrom::try_from", "TryInto::try_into") and args[0][0] == "hex":
            return [x for s in self.from_u32(I, st, args[0], True) for x in [s]]
        if p.startswith(("std::fmt::", "alloc::fmt::", "core::fmt::")) or name.startswith(("Arguments::", "Argument::")) or name == "fmt::format":
            return I.ret(st, ("message",))
        if name == "ToString::to_string" and I.val(st, args[0]) == ("message",): return I.ret(st, ("message",))
        if p.startswith("combine::") or (f.get("trait") or "").startswith("combine::"):
            return I.ret(st, ("opaque", name))
        return None

    # ---- numbers made of hexadecimal digits
    def digits(self, st, v):
        """[(st, [chars] | None)]: the characters of a short text"""
        if v[0] == "s": return [(st, [("c", ord(c)) for c in v[1]])]
        if v[0] == "cat":
            out = [(st, [])]
            for x in v[1]:
                nxt = []
                for s, l in out:
                    for s2, l2 in self.digits(s, x): nxt.append((s2, None if l2 is None or l is None else l + l2))
                out = nxt
            return out
        if v[0] in ("ch", "c"): return [(st, [v])]
        if v[0] == "ts": return self.spell(st, v[1][1], v[2][1], 8)
        raise Unsupported("the digits of %s" % (v[:1],))

    def spell(self, st, b, hi, n):
        if n == 0: raise Unsupported("a long text is read as a number")
        out = []
        for s, nx in self.peek(st, b, hi):
            if nx is None: out.append((s, [])); continue
            c = ("ch", self.can(s, b))
            out += [(s2, l if l is None else [c] + l) for s2, l in self.spell(s, nx, hi, n - 1)]
        return out

    def radix(self, I, st, v, ty):
        out = []
        for s, l in self.digits(st, v):
            work = [(s, 0, ())]
            bad = []
            while work:
                s2, i, got = work.pop()
                if i == len(l):
                    out += I.ret(s2, ok(("hex", got))) if got and len(got) * 4 <= ovf.BITS[ty][1] - ovf.BITS[ty][0] else (I.ret(s2, err(("top", "e"))) if not got else unsup("a number that may be too large"))
                    continue
                x = l[i]
                if x[0] == "c":
                    if chr(x[1]) in "0123456789abcdefABCDEF": work.append((s2, i + 1, got + (x,)))
                    elif i == 0 and x[1] in (43,) and len(l) > 1: work.append((s2, i + 1, got))
                    else: bad.append(s2)
                    continue
                for s3, r in self.refine(s2, x[1], HEX):
                    if r: work.append((s3, i + 1, got + (x,))); continue
                    if i or len(l) == 1: bad.append(s3); continue
                    for s4, plus in self.refine(s3, x[1], ((43, 43),)):
                        if plus: work.append((s4, i + 1, got))
                        else: bad.append(s4)
            for s2 in bad: out += I.ret(s2, err(("top", "e")))
        return out

    def to_digit(self, I, st, v, rad):
        if rad != ("i", 16) or v[0] != "ch": return None
        return [x for s, r in self.refine(st, v[1], HEX) for x in I.ret(s, some(("hex", (v,))) if r else NONE)]

    def from_u32(self, I, st, v, res=False):
        good = (lambda x: ok(x)) if res else some
        bad = err(("top", "e")) if res else NONE
        if v[0] == "i": return I.ret(st, good(("c", v[1])) if v[1] < 0xD800 or 0xDFFF < v[1] <= 0x10FFFF else bad)
        if v[0] != "hex": raise Unsupported("a character is made from %s" % (v[:1],))
        if len(v[1]) > 4: raise Unsupported("a character is made from more than four digits")
        if len(v[1]) < 4: return I.ret(st, good(("uchar", v[1])))
        out = []
        for s, a in self.isin(st, v[1][0], chars("dD")):
            if not a: out += I.ret(s, good(("uchar", v[1]))); continue
            for s2, b in self.isin(s, v[1][1], chars("89abcdefABCDEF")): out += I.ret(s2, bad if b else good(("uchar", v[1])))
        return out

    def isin(self, st, x, c):
        if x[0] == "c": return [(st, bool(inter(((x[1], x[1]),), c)))]
        return self.refine(st, x[1], c)

    def binop(self, I, st, op, a, b):
        if b[0] == "hexm" or (b[0] == "hex" and a[0] == "i"): a, b = b, a
        if a[0] == "hex":
            if (op in ("Mul", "MulWithOverflow", "MulUnchecked") and b == ("i", 16)) or (op.startswith("Shl") and b == ("i", 4)): return ("hexm", a[1])
            if op in ("Add", "BitOr", "AddWithOverflow") and b == ("i", 0): return a
        if a[0] == "hexm" and b[0] == "hex" and len(b[1]) == 1 and op in ("Add", "BitOr", "AddWithOverflow"): return ("hex", a[1] + b[1])
        if a[0] in ("hex", "hexm") or b[0] in ("hex", "hexm"):
            if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"): return ("hexcmp", op, a, b)
            raise Unsupported("arithmetic with hexadecimal digits")
        return Tape.binop(self, I, st, op, a, b)

    def cast(self, I, st, v, t, kind):
        if v[0] == "hex" and t[0] in ("uint", "int") and len(v[1]) * 4 <= ovf.BITS[t[1]][1] - ovf.BITS[t[1]][0]: return v
        return Tape.cast(self, I, st, v, t, kind)

    def on_assert(self, I, st, kind, ops, cond, exp, site):
        if any(o[0] in ("hex", "hexm") for o in ops):
            if all(o[0] == "i" or o[0] in ("hex", "hexm") and len(o[1]) < 7 for o in ops): return [(st, True)]
            return [(st, True), (st.copy(), False)]
        return ovf.on_assert(I, st, kind, ops, lambda v: v[0] == "i" or (to_lin(v) is not None and all(abs(k) < 64 for k in to_lin(v)[1].values())))

    # ---- the token
    def length(self, I, st, v):
        if v[0] == "qt": return lin_add(lin_add(pos("END"), pos("Z"), -1), ("i", 2 * self.q - v[1] - v[2]), 1)
        if v[0] == "cat":
            n = 0
            for x in v[1]:
                if x[0] == "s": n += len(x[1].encode()); continue
                w = {width(((c, c),)) for c in (x[1],)} if x[0] == "c" else width(self.klass(st, self.can(st, x[1]))) if x[0] == "ch" else None
                if w is None or len(w) != 1: raise Unsupported("the length of a text of characters of unknown width")
                n += list(w)[0]
            return ("i", n)
        return Tape.length(self, I, st, v)

    def qt(self, a, b):
        if a == self.q and b == self.q: return ts("Z", "END")
        return ("qt", a, b)

    def slice_index(self, I, st, v, ix, info):
        if v[0] == "qt":
            if ix[0] != "adt": raise Unsupported("a byte of the token is read")
            return self.qcut(I, st, v, ix, lambda s, x: I.ret(s, refv(x)), lambda s: I.do_panic(s, "slice", (v, ix)))
        return Tape.slice_index(self, I, st, v, ix, info)

    def qcut(self, I, st, v, ix, good, bad):
        lo, hi = range_bounds(ix)
        lo = ("i", 0) if lo is None else lo
        hi = self.length(I, st, v) if hi is None else hi
        l = self.canlin(st, *to_lin(lo)) if to_lin(lo) else None
        h = to_lin(lin_add(hi, self.length(I, st, v), -1))
        h = self.canlin(st, *h) if h else None
        if l is None or h is None or l[1] or h[1]: raise Unsupported("a part of the token between %s and %s" % (lo, hi))
        a, b = v[1] + l[0], v[2] - h[0]
        if b < v[2]: return bad(st)
        if a <= self.q and b <= self.q: return good(st, self.qt(a, b))
        return self.cut(I, st, ts("Z", "END"), lin_add(pos("Z"), ("i", max(0, a - self.q)), 1), lin_add(pos("END"), ("i", -max(0, b - self.q)), 1), good, bad) if a >= self.q and b >= self.q else unsup("a part of the token with one of its quotes")

    def str_method(self, I, st, n, v, args, info):
        if v[0] == "qt":
            p = I.val(st, args[1]) if len(args) > 1 else None
            t = p[1] if p is not None and p[0] == "s" else chr(p[1]) if p is not None and p[0] == "c" else None
            if n in ("starts_with", "ends_with", "strip_prefix", "strip_suffix") and t is not None:
                i = 1 if n in ("starts_with", "strip_prefix") else 2
                if t != '"' * len(t): return I.ret(st, ("b", False) if n[-4:] == "with" else NONE) if len(t) == 1 and v[i] < self.q else None
                if len(t) > self.q - v[i]: raise Unsupported("more quotes than the token starts with")
                if n[-4:] == "with": return I.ret(st, ("b", True))
                return I.ret(st, some(refv(self.qt(v[1] + len(t), v[2]) if i == 1 else self.qt(v[1], v[2] + len(t)))))
            if n == "get" and p is not None and p[0] == "adt": return self.qcut(I, st, v, p, lambda s, x: I.ret(s, some(refv(x))), lambda s: I.ret(s, NONE))
            raise Unsupported("%s of the token with its quotes" % n)
        if v == ("obuf",): raise Unsupported("%s of what was decoded" % n)
        return Tape.str_method(self, I, st, n, v, args, info)

    # ---- output
    def push_str(self, I, st, a, v, x):
        if v == ("obuf",):
            for y in self.items(st, x): st.emit("out", y)
            return UNIT
        if x[0] in ("ch", "uchar", "ts", "c", "s", "cat") and v[0] in ("s", "cat"):
            I.addr_write(st, a, dcat(v, x))
            return UNIT
        return None

    def items(self, st, x):
        """what a piece of text contributes to the output"""
        k = x[0]
        if k == "cat": return [z for y in x[1] for z in self.items(st, y)]
        if k == "s": return [("c", ord(c)) for c in x[1]]
        if k == "c": return [x]
        if k == "uchar": return [("u", tuple(y if y[0] == "c" else ("ch", self.can(st, y[1])) for y in x[1]))]
        if k == "ts":
            a, b = self.can(st, x[1][1]), self.can(st, x[2][1])
            return [("copy", a, b)] if a != b else []
        if k == "ch":
            b = self.can(st, x[1])
            l = self.line(st)
            if b in l[:-1]: return [("copy", b, l[l.index(b) + 1])]
            c = self.klass(st, b)
            if len(c) == 1 and c[0][0] == c[0][1]: return [("c", c[0][0])]
            raise Unsupported("a character is written long after it was read")
        raise Unsupported("the decoder writes %s" % (x[:1],))

    def is_empty(self, I, st, v):
        if v[0] == "ts" : return None
        if v[0] == "cat": return ("b", False) if any(x[0] != "ts" for x in v[1]) else None
        if v == ("obuf",): raise Unsupported("whether something was decoded")
        return None

    def clear(self, I, st, a):
        if I.addr_read(st, a) == ("obuf",): raise Unsupported("what was decoded is discarded")
        return None

    def head(self, I, st):
        f = st.frames[-1] if st.frames else None
        if f is not None and f.kind == "mir" and f.i == 0:
            lv = None
            for l, v in list(f.loc.items()):
                if isinstance(v, tuple) and v[0] == "cat" and isinstance(l, int):
                    if lv is None: lv = self.needed(I.P, f.raw, f.prom)
                    if l not in lv[f.bb]: f.loc[l] = ("dead",)
        for d, f in enumerate(st.frames):
            for l in sorted(f.loc, key=str):
                if isinstance(f.loc[l], tuple): f.loc[l] = self.strings(st, (f.raw, str(l)), f.loc[l])
        Tape.head(self, I, st)

    def needed(self, P, raw, prom):
        """locals whose text may be read again before it is cleared, per block"""
        memo = P.__dict__.setdefault("_needed", {})
        if (raw, prom) in memo: return memo[(raw, prom)]
        b = P.body(raw, prom)
        bl = b["blocks"]
        ref = {}
        for bb in bl:
            for s in bb["st"]:
                if s["s"] == "=" and s["r"]["r"] == "ref" and not s["r"]["p"]["p"] and not s["p"]["p"]: ref.setdefault(s["p"]["l"], []).append(s["r"]["p"]["l"])
        live = [set() for _ in bl]

        def back(i):
            bb = bl[i]
            cur = set()
            for t in succs(bb["term"]): cur |= live[t]
            t = bb["term"]
            killed = None
            if t["t"] == "call":
                f = t["f"].get("fn")
                if f and f["path"].endswith("String::clear"):
                    for p in op_places(t["args"][0]):
                        r = ref.get(p["l"], ())
                        if len(r) == 1 and not p["p"]: killed = (p["l"], r[0]); cur.discard(r[0])
                for o in [t["f"]] + t["args"]:
                    for p in op_places(o): cur |= set(place_locals(p))
                if not t["dest"]["p"]: cur.discard(t["dest"]["l"])
            elif t["t"] in ("switch", "assert"):
                for o in [t["o"]] + list(t.get("ops", ())):
                    for p in op_places(o): cur |= set(place_locals(p))
            elif t["t"] == "return": cur.add(0)
            for s in reversed(bb["st"]):
                if s["s"] == "dead": cur.discard(s["l"])
                if s["s"] != "=": continue
                if killed and not s["p"]["p"] and s["p"]["l"] == killed[0]: continue
                if not s["p"]["p"]: cur.discard(s["p"]["l"])
                else: cur |= set(place_locals(s["p"]))
                r = s["r"]
                for o in rv_ops(r):
                    for p in op_places(o): cur |= set(place_locals(p))
                if isinstance(r.get("p"), dict): cur |= set(place_locals(r["p"]))
            return cur
        ch = True
        while ch:
            ch = False
            for i in range(len(bl) - 1, -1, -1):
                x = back(i)
                if x != live[i]: live[i] = x; ch = True
        memo[(raw, prom)] = live
        return live

    def strings(self, st, key, v):
        if v[0] in ("s", "cat"):
            if ("str",) + key in self.regs:
                if v != ("s", "") and not st.ext.get("obuf") or not st.ext.get("obuf"): st.ext["obuf"] = True
                else: raise Unsupported("two texts are built")
                for y in self.items(st, v): st.emit("out", y)
                return ("obuf",)
            if len(v[1]) > 6 and not (v[0] == "s" and len(v[1]) < 200): raise Widen(("str",) + key)
            return v
        if v[0] == "tup": return ("tup", tuple(self.strings(st, key + (i,), x) for i, x in enumerate(v[1])))
        if v[0] == "adt" and v[3]: return ("adt", v[1], v[2], tuple(self.strings(st, key + (i,), x) if isinstance(x, tuple) and x else x for i, x in enumerate(v[3])))
        return v


def unsup(m): raise Unsupported(m)


def dcat(v, x):
    ps = (v[1] if v[0] == "cat" else (v,) if v != ("s", "") else ()) + (x[1] if x[0] == "cat" else (x,))
    return cat(ps)


def explore(P, raw, quotes, domcls=DecDom):
    regs = set()
    for _ in range(40):
        dom = domcls(quotes, regs)
        I = Interp(P, dom, 3000000)
        st = St(); dom.start(st)
        st.ext["hd"] = "Z"
        st.facts[("al", "S")] = "Z"
        b = P.body(raw)
        if b["argc"] != 1 or P.ty(b["locals"][1]) != ("ref", False, ("str",)): raise Unsupported("%s takes more than the token's text" % P.where(raw))
        try:
            I.push(st, raw, (), [refv(("qt", 0, 0))])
            n, e = I.explore(st, 30000)
            return I, n, e
        except Widen as w: regs.add(w.args[0])
    raise Unsupported("too many counters")


# ---------------------------------------------------------------- the reference
SIMPLE = {ord('"'): ord('"'), ord("\\"): ord("\\"), ord("/"): ord("/"), ord("b"): 8, ord("f"): 12, ord("n"): 10, ord("r"): 13, ord("t"): 9}


class Bad(Exception):
    pass


class Quoted:
    """reference transducer of a quoted string; states: N, E (after a backslash), ("U", ((boundary, atom), ...)), X (error), XE (error, after a backslash)"""
    start = "N"
    CLASSES = [chars("\\"), chars('"'), chars("/"), chars("b"), chars("f"), chars("n"), chars("r"), chars("t"), chars("u"), HEX, chars("dD"), chars("89abcdefABCDEF"), chars("\n"), chars("\r")]

    def __init__(self, al):
        self.al = al
        self.hex = al.mask(HEX); self.d = al.mask(chars("dD")); self.hi = al.mask(chars("89abcdefABCDEF"))
        self.one = {1 << i: a for i, (a, b) in enumerate(al.atoms) if a == b}
        self.simple = [(al.mask(((k, k),)), c) for k, c in SIMPLE.items()]
        self.u = al.mask(chars("u")); self.quote = al.mask(chars('"')); self.back = al.mask(chars("\\")); self.lf = al.mask(chars("\n")); self.cr = al.mask(chars("\r"))

    def groups(self, q, m, b, n, mem):
        """[(part of the characters m, state, output, {boundary: what its character then is})] after a character between b and n"""
        m &= ~(self.lf | self.cr)
        if q == "XE": return [(m, "X", (), {})]
        if q != "E": m &= ~self.quote
        bs = m & self.back
        if q == "X": return [(bs, "XE", (), {}), (m & ~bs, "X", (), {})]
        if q == "N": return [(bs, "E", (), {}), (m & ~bs, "N", (("copy", b, n),), {})]
        if q == "E":
            out = [(m & self.u, ("U", ()), (), {})]
            m &= ~self.u
            for x, c in self.simple: out.append((m & x, "N", (("c", c),), {})); m &= ~x
            return out + [(m, "X", (), {})]
        got = q[1]
        h = m & self.hex
        out = [(bs, "XE", (), {}), (m & ~bs & ~h, "X", (), {})]
        got += (b,)
        if len(got) < 4: return out + [(h, ("U", got), (), {})]
        d = dict(mem)
        x, y = d.get(got[0], self.hex), d.get(got[1], self.hex)
        if got[0] is None or got[1] is None: raise Unsupported("digits that are forgotten before the fourth is read")
        u = (("u", tuple(("ch", z) for z in got)),)
        out.append((h if x & self.d and y & self.hi else 0, "X", (), {got[0]: x & self.d, got[1]: y & self.hi}))
        out.append((h if x & ~self.d else 0, "N", u, {got[0]: x & ~self.d}))
        out.append((h if x & self.d and y & ~self.hi else 0, "N", u, {got[0]: x & self.d, got[1]: y & ~self.hi}))
        return out

    def name(self, m): return repr(self.al.char((m & -m).bit_length() - 1))

    def end(self, q):
        """is the end of the token possible here; the verdict: True (decodes) or False"""
        if q in ("E", "XE"): return None
        return q == "N"

    def ren(self, q, g):
        if isinstance(q, tuple): return ("U", tuple(g(b) for b in q[1]))
        return q


def product(I, edges, ref, al, spell):
    """runs implementation and reference together; -> ({key: message}, {panics}, states)"""
    dom = I.dom
    by = {}
    for s, ev, d in edges: by.setdefault(s, []).append((ev, d))
    # node, reference state, pending output of the reference, of the implementation, known characters, head, ended
    start = (0, ref.start, (), (), (), "Z", False)
    seen = {start: ""}
    wl = [start]
    found = {}; panics = {}; oks = errs = 0
    while wl:
        st = wl.pop(0)
        w = seen[st]
        for ev, d in by.get(st[0], ()):
            cur = [(st[1:], w)]
            try:
                for e in ev:
                    nxt = []
                    for q, x in cur: nxt += event(q, x, e, ref, al)
                    cur = list({q: (q, x) for q, x in reversed(nxt)}.values())
                    if not cur: break
            except Bad as b:
                found.setdefault(b.args[0], b.args[1] + example(b.args[2] if len(b.args) > 2 else w)); continue
            for q, x in cur:
                try:
                    if isinstance(d, tuple):
                        r = finish(dom, d, q, x, ref, al, panics)
                        if r is True: oks += 1
                        elif r is False: errs += 1
                    elif (d,) + q not in seen:
                        seen[(d,) + q] = x
                        wl.append((d,) + q)
                        if len(seen) > 300000: raise Unsupported("decoder too complex")
                except Bad as b:
                    found.setdefault(b.args[0], b.args[1] + example(b.args[2] if len(b.args) > 2 else x))
    return found, panics, len(seen), oks, errs


def example(w): return ", e.g. after %s" % repr(w)[:60] if w else ""


def settle(exp, got, mem, ref, w):
    """cancel equal output"""
    exp = list(exp); got = list(got)
    while exp and got:
        a, b = exp[0], got[0]
        if a[0] == "copy" and b[0] == "copy":
            if a[1] != b[1]: raise Bad("chars", "a character is left out, repeated or out of place", w)
            if a[2] == b[2]: exp.pop(0); got.pop(0)
            else: exp.pop(0); got[0] = ("copy", a[2], b[2])
            continue
        if a[0] == "copy" and b[0] == "c":
            i = dict((n, i) for n, i in mem).get(a[1])
            if i is not None and ref.one.get(i) == b[1]: exp.pop(0); got.pop(0); continue
            raise Bad("const", "%s is decoded to %s" % ("a character" if i is None else ref.name(i), uni(b[1])), w)
        if a[0] == "c" and b[0] == "copy":
            i = dict((n, i) for n, i in mem).get(b[1])
            if i is not None and ref.one.get(i) == a[1]: exp.pop(0); got.pop(0); continue
            raise Bad("escape", "an escape is decoded to %s instead of %s" % ("itself" if i is None else ref.name(i), uni(a[1])), w)
        if a != b:
            raise Bad("escape", "an escape is decoded to %s instead of %s" % (uni(b[1]) if b[0] == "c" else "something else", uni(a[1]) if a[0] == "c" else "the character its digits give"), w)
        exp.pop(0); got.pop(0)
    if len(exp) > 10 or len(got) > 10: raise Bad("late", "characters are not written when they are read", w)
    return tuple(exp), tuple(got)


def uni(c): return "U+%04X" % c


def event(s, w, e, ref, al):
    q, exp, got, mem, hd, ended = s
    k = e[0]
    if k == "rd":
        b, n, C = e[1:4]
        if ended: return []
        out = []
        for m, q2, o, fix in ref.groups(q, al.mask(C), b, n, mem):
            if not m: continue
            mem2 = tuple((z, fix.get(z, x)) for z, x in mem) + ((b, m),)
            x = w + al.char((m & -m).bit_length() - 1)
            if q2 in ("X", "XE"): e2, g2 = (), ()
            else: e2, g2 = settle(exp + o, got, mem2, ref, x)
            if n == "END" and ref.end(q2) is None: continue
            out.append(((q2, e2, g2, mem2[-12:], n, n == "END"), x))
        return out
    if k == "cl":
        if e[1] > len(mem): return [(s, w)]
        return narrow(s, w, len(mem) - e[1], al.mask(e[2]))
    if k == "clat":
        l = [i for i, x in enumerate(mem) if x[0] == e[1]]
        return narrow(s, w, l[0], al.mask(e[2])) if l else [(s, w)]
    if k == "at":
        if e[1] != "END": raise Unsupported("the text is compared with another position")
        if ref.end(q) is None: return []
        g = lambda x: "END" if x == hd else x
        return [((ref.ren(q, g), tuple(renitem(x, g) for x in exp), tuple(renitem(x, g) for x in got), mem, "END", True), w)]
    if k == "nat":
        return [] if ended and e[1] == "END" else [(s, w)]
    if k in ("pk",): return [(s, w)]
    if k == "out":
        if q in ("X", "XE"): return [(s, w)]
        try: e2, g2 = settle(exp, got + (e[1],), mem, ref, w)
        except Bad as bad: raise
        return [((q, e2, g2, mem, hd, ended), w)]
    if k == "ren":
        m = dict(e[1])
        g = lambda x: x if x in ("S", "Z", "END") else m.get(x)
        use = None
        if q not in ("X", "XE"):
            use = set()
            names((q, exp, got), use)
        mem2 = tuple((g(n), i) for j, (n, i) in enumerate(mem) if g(n) is not None and (use is None or n in use or j >= len(mem) - 1))
        exp2 = []
        for x in exp:
            y = renitem(x, g)
            if exp2 and y[0] == "copy" and exp2[-1][0] == "copy" and y[1] is None and exp2[-1][2] is None: exp2[-1] = ("copy", exp2[-1][1], y[2])
            else: exp2.append(y)
        return [((ref.ren(q, g), tuple(exp2), tuple(renitem(x, g) for x in got), mem2, g(hd), ended), w)]
    if k == "set": return [(s, w)]
    raise Unsupported("the decoder goes over the token more than once (%s)" % k)


def narrow(s, w, i, m):
    mem = s[3]
    x = mem[i][1] & m
    if not x: return []
    return [(s[:3] + (mem[:i] + ((mem[i][0], x),) + mem[i + 1:],) + s[4:], w)]


def names(v, acc):
    if isinstance(v, tuple):
        if v and v[0] == "c": return
        for x in v: names(x, acc)
    elif v is not None and v not in ("copy", "u", "ch"): acc.add(v)


def renitem(x, g):
    if x[0] == "copy": return ("copy", g(x[1]), g(x[2]))
    if x[0] == "u": return ("u", tuple(("ch", g(y[1])) if y[0] == "ch" else y for y in x[1]))
    return x


def finish(dom, d, s, w, ref, al, panics):
    """an exit of the decoder; what it looked at without moving over it is part of the token too"""
    fs = d[2]
    cur = [(s, w)]
    line = dom.line(fs)[len(fs.ext["win"]):]
    for b, n in zip(line, line[1:]):
        nxt = []
        for q, x in cur: nxt += event(q, x, ("rd", b, n, dom.klass(fs, b), False), ref, al)
        cur = nxt
    verdict = None
    for q, x in cur:
        ended = q[5]
        if d[0] == "panic":
            panics.setdefault(str(d[1][2] if len(d[1]) > 2 else d[1]), (d[1], x)); continue
        r = d[1]
        if r[0] != "adt" or r[1] != RES:
            r = ok(r)
        if r[2] == 1:
            if q[0] in ("X", "XE"): verdict = False; continue
            if not ended or ref.end(q[0]) is not False: 
                raise Bad("rejects", "a string without a wrong escape is rejected", x)
            verdict = False
            continue
        if not ended: raise Bad("part", "the decoder stops before the end of the token", x)
        e = ref.end(q[0])
        if e is None: continue
        if not e: raise Bad("accepts", "a string with a wrong escape is accepted", x)
        v = r[3][0]
        rest = () if v == ("obuf",) else tuple(dom.items(fs, v))
        e2, g2 = settle(q[1], q[2] + rest, q[3], ref, x)
        if e2 or g2: raise Bad("left", "what is returned is not all that was written" if g2 else "characters are left out at the end", x)
        verdict = True
    return verdict


def alphabet(I, edges, classes):
    cs = set(classes)
    for s, ev, d in edges:
        for x in ev:
            if x[0] == "rd": cs.add(x[3])
            elif x[0] in ("cl", "clat"): cs.add(x[2])
        if isinstance(d, tuple): cs |= {C for b, C, n in I.dom.ahead(d[2]) if C}
    return Alphabet(cs)


def quoted(P, raw):
    """compare a decoder of quoted strings with the reference"""
    I, n, e = explore(P, raw, 1)
    al = alphabet(I, e, Quoted.CLASSES)
    return (I, n, e) + product(I, e, Quoted(al), al, None)
