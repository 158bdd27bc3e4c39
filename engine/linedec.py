"""The decoder of block strings, interpreted over an unknown sequence of lines.  The lines of the token's text are known only by their
place (before, at, between, at, after the first and last line that is not blank), by whether they are blank, and by how their
indentation compares with the least one, m, of the lines other than the first; positions, lengths and indentations are linear terms over
these unknowns.  What is written is compared, line by line, with what BlockStringValue demands."""
from interp import Interp, Dom, St, Unsupported, refv, some, NONE, UNIT, OPT, RES
import models as M
from models import ok, err, to_lin, mk_lin, lin_add, range_bounds, IT, cat, V
import ovf
from tape import Tape, Widen, cls, chars, minus, ANY, ts, pos

BL = chars(" \t")
ESC, TQ = '\\"""', '"""'
BIG = 1 << 62


class Bad(Unsupported):
    """a wrong result: (key, message)"""
    def __init__(self, key, msg):
        Unsupported.__init__(self, msg)
        self.key = key


def predset(P, st, f, byte=False, ref=False):
    """the characters for which a predicate (of the character, or of a reference to it) holds"""
    dom = Tape()
    I = Interp(P, dom, 100000)
    s0 = St(); dom.start(s0)
    out = []
    for s, n in dom.peek(s0, "S", "END"):
        if n is None: continue
        todo = [(s, ("ch", "S"))]
        if byte:
            todo = []
            for s2, w in dom.widths(s, "S"): todo.append((s2, ("byte", "S") if w == 1 else ("hb",)))
        for s2, c in todo:
            s2.ev = []
            for s3 in I.invoke(s2, f, [refv(c) if ref else c]):
                I3 = s3
                n, e = I.explore(I3, 2000)
                for a, ev, d in e:
                    if not isinstance(d, tuple): continue
                    if d[0] == "panic": raise Unsupported("a predicate that can panic")
                    for s4, b in I.truth(d[2], d[1]):
                        if b: out += list(dom.klass(s4, "S"))
    return cls(*out)


def rewrite(v, f):
    """rewrite values bottom-up; f(v) -> new value or None"""
    if not isinstance(v, tuple): return v
    w = tuple(rewrite(x, f) for x in v)
    if w and w[0] == "lin" and len(w) == 3:
        d = mk_lin(w[1], {})
        for k, c in w[2]:
            for _ in range(abs(c)):
                d = lin_add(d, k, 1 if c > 0 else -1)
                if d is None: return ("stale",)
        w = d
    r = f(w)
    return w if r is None else r


class LineDom(Dom):
    lazy = True

    def __init__(self, P, raw, case, regs):
        self.P, self.raw, self.case, self.regs = P, raw, case, regs

    def start(self, st):
        kind, indF, indL = self.case
        st.facts["case"] = kind
        st.ext["e"] = self.F(st) if kind != "E" else ("i", 0)
        st.ext["mode"] = "line"
        st.ext["outs"] = 0
        self.fact(st, "0")
        if kind != "E":
            F, L = self.nF(st), self.nL(st)
            for i, d in ((F, indF), (L, indL)):
                st.facts[("nb", i)] = True
                if i != "0" and d: st.facts[("ind", i)] = d
            st.facts["m"] = L != "0"
            st.facts["need"] = st.facts["m"] and not any(st.facts.get(("ind", i)) == "=" for i in (F, L))
        else: st.facts["m"] = False
        return st

    def fact(self, st, i):
        k = st.facts["case"]
        if i == "0" and not k.startswith("F0"): st.facts[("nb", "0")] = False

    # ---- names of lines
    def nF(self, st):
        k = st.facts["case"]
        return None if k == "E" else "0" if k.startswith("F0") else "F"

    def nL(self, st):
        k = st.facts["case"]
        return None if k == "E" else self.nF(st) if k.endswith("=") else "L"

    def idx(self, i): return ("i", 0) if i == "0" else pos(i)
    def F(self, st): return self.idx(self.nF(st))
    def L(self, st): return self.idx(self.nL(st))

    def name(self, st, v):
        """the line at an index"""
        l = to_lin(v)
        if l is None: return None
        for i in ("0", self.nF(st), self.nL(st), "k"):
            if i is not None and to_lin(self.idx(i)) == l and (i != "k" or ("ph", "k") in st.facts): return i
        return None

    # ---- order
    def bounds(self, st):
        e = []
        ge = lambda a, b, w: e.append((a, b, w))       # a - b >= w
        f = st.facts
        F, L = self.nF(st), self.nL(st)
        idx = lambda i: 0 if i == "0" else pos(i)
        for i in {F, L} - {None, "0"}: ge(pos(i), 0, 1)
        if F != L: ge(idx(L), idx(F), 1)
        ge(pos("N"), 0, 0)
        if L is not None: ge(pos("N"), idx(L), 1)
        ph = f.get(("ph", "k"))
        k = pos("k")
        if ph: ge(k, 0, 1); ge(pos("N"), k, 1)
        if ph == "pre": ge(idx(F), k, 1)
        if ph == "mid": ge(k, idx(F), 1); ge(idx(L), k, 1)
        if ph == "post": ge(k, idx(L), 1)
        for i in {"0", F, L, "k"} - {None}:
            if i == "k" and not ph: continue
            ind, ln, rl, te = pos(("ind", i)), pos(("len", i)), pos(("rlen", i)), pos(("te", i))
            nb = f.get(("nb", i))
            ge(ind, 0, 0)
            for x in (ln, rl):
                ge(x, ind, 1 if nb else 0)
                if not nb: ge(ind, x, 0)
            if nb: ge(te, ind, 1); ge(ln, te, 0)
            if f["m"] and i != "0":
                if nb:
                    ge(ind, pos("m"), 0 if f.get(("ind", i)) == "=" else 1)
                    if f.get(("ind", i)) == "=": ge(pos("m"), ind, 0)
                else:
                    b = f.get(("bl", i))
                    if b == "<": ge(pos("m"), ind, 1)
                    if b in ("=", ">"): ge(ind, pos("m"), 0 if b == "=" else 1)
                    if b == "=": ge(pos("m"), ind, 0)
        ge(pos("m"), 0, 0); ge(pos("gm"), pos("m"), 1); ge(pos("many"), 0, 1)
        ge(pos("B"), 0, 0)
        return e

    def low(self, st, v):
        """a lower bound of a linear term, or None"""
        l = to_lin(v)
        if l is None: return None
        c, d = l
        if not d: return c
        plus = [k for k, x in d.items() if x == 1]; minus_ = [k for k, x in d.items() if x == -1]
        if len(plus) + len(minus_) != len(d) or len(plus) > 1 or len(minus_) > 1:
            return None
        e = self.bounds(st)
        if not minus_: return c + self.path(e, plus[0], 0) if self.path(e, plus[0], 0) is not None else None
        if not plus: return c - BIG * 2
        if c <= -BIG: return None
        r = self.path(e, plus[0], minus_[0])
        return None if r is None else c + r

    def path(self, e, a, b):
        """greatest w with a - b >= w"""
        best = {a: 0}
        ch = True
        n = 0
        while ch and n < 40:
            ch = False; n += 1
            for x, y, w in e:
                if x in best and best[x] + w > best.get(y, -BIG): best[y] = best[x] + w; ch = True
        return best.get(b)

    def decide(self, st, lt, a, b):
        loose = any(has((a, b), pos(x)) for x in ("gm", "many"))      # stand for several numbers
        if a == b and not loose: return not lt
        if to_lin(a) is None or to_lin(b) is None: raise Unsupported("comparison of %s and %s" % (a[:2], b[:2]))
        d = lin_add(b, a, -1)
        if loose and any(has(a, pos(x)) and has(b, pos(x)) for x in ("gm", "many")): return None
        l1, l2 = self.low(st, d), self.low(st, lin_add(a, b, -1))
        # numbers of the text are below 2^62
        if to_lin(d)[0] > BIG: l1 = 1
        if to_lin(d)[0] < -BIG: l2 = 1
        if lt:
            if l1 is not None and l1 >= 1: return True
            if l2 is not None and l2 >= 0: return False
            return None
        if (l1 is not None and l1 >= 1) or (l2 is not None and l2 >= 1): return False
        if l1 is not None and l2 is not None and l1 >= 0 and l2 >= 0: return True
        return None

    def condition(self, I, st, v):
        neg = False
        while v[0] == "not": neg = not neg; v = v[1]
        if v[0] in ("and", "or"):
            out = []
            for s, x in I.truth(st, v[1]):
                if x == (v[0] == "or"): out.append((s, x != neg))
                else: out += [(s2, y != neg) for s2, y in I.truth(s, v[2])]
            return out
        if v[0] in ("lt", "eq"):
            a, b = v[1], v[2]
            for x in (a, b):
                if has(x, ("stale",)): raise Unsupported("something about an earlier line is compared")
            a, b = self.norm(st, a), self.norm(st, b)
            v = (v[0], a, b)
            r = self.decide(st, v[0] == "lt", a, b)
            if r is not None: return [(st, r != neg)]
            i = self.undecided(st, a, b)
            if i is not None:
                out = []
                for b in ("<", "=", ">"):
                    s = st.copy(); s.facts[("bl", i)] = b
                    out += self.condition(I, s, ("not", v) if neg else v)
                return out
            return [(st.copy(), True), (st.copy(), False)]
        if v[0] == "fact":
            return [(s, x != neg) for s, x in I.fork_fact(st, v)]
        if v[0] == "ovf": return [(st, neg)]
        raise Unsupported("a test of %s" % (v[:2],))

    def norm(self, st, v):
        """the indentation of a line that is known to have the least one"""
        return rewrite(v, lambda x: pos("m") if len(x) == 2 and x[0] == "pos" and isinstance(x[1], tuple) and x[1][0] == "ind" and st.facts.get(x[1]) == "=" else None)

    def undecided(self, st, a, b):
        if not st.facts["m"]: return None
        for i in ("0", "k"):
            if i == "0": continue
            if st.facts.get(("nb", i)) is False and ("bl", i) not in st.facts and (has(a, pos(("ind", i))) or has(a, pos(("len", i))) or has(b, pos(("ind", i))) or has(b, pos(("len", i))) or has((a, b), pos(("rlen", i)))) and has((a, b), pos("m")): return i
        return None

    def binop(self, I, st, op, a, b):
        for x in (a, b):
            if x[0] == "stale" and op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne", "Add", "Sub"): raise Unsupported("something about an earlier line is used")
        return None

    def on_assert(self, I, st, kind, ops, cond, exp, site):
        return ovf.on_assert(I, st, kind, ops, lambda v: to_lin(v) is not None and abs(to_lin(v)[0]) < BIG and all(abs(k) < 64 for k in to_lin(v)[1].values()))

    # ---- iteration
    def lines(self, lo, hi, byref): return IT("lines", ("k", "start"), lo, lo, hi, ("b", False), NONE, ("b", byref), ("b", False))

    def make_iter(self, I, st, v, n, args, info):
        if v[0] == "body" and n == "str::lines": return self.lines(("i", 0), pos("N"), False)
        if v[0] == "body" and n in ("str::split", "str::split_terminator"):
            p = I.val(st, args[1])
            raise Bad("lines", "lines are separated by %s instead of LF or CRLF" % repr(p[1] if p[0] == "s" else chr(p[1]) if p[0] == "c" else p[0]))
        if v[0] == "lvec": return self.lines(v[1], v[2], args[0][0] == "ref")
        if v[0] == "lt" and n in ("str::chars", "str::bytes", "str::char_indices"): return IT("lchars", ("k", n[5:]), v)
        if v[0] == "by" or v[0] == "s": return None
        return None

    def consume(self, I, st, n, it, args, info):
        v = I.val(st, it)
        if v[0] != "adt": return None
        k = v[1]
        if k == "it::lines":
            if n == "collect" and v[3][0] == ("k", "start") and v[3][5] == NONE and v[3][7] == ("b", False): return I.ret(st, ("lvec", v[3][1], v[3][3]))
            if n == "count" and v[3][0] == ("k", "start"): return I.ret(st, lin_add(v[3][3], v[3][1], -1))
        if n in ("position", "rposition") and k == "it::lines":
            w = v
            if n == "rposition": w = setf(w, 7, ("b", True))
            if w[3][5] == NONE: w = setf(w, 5, some(w[3][1]))
            d = I.pushk(st, "c:lpos", it=w, f=args[1], acc=UNIT)
            return M.it_next(I, st, ("@", d, "it", ()))
        if k == "it::lchars":
            lt = v[3][1]
            if n in ("position", "all", "any"):
                p = predset(self.P, st, args[1], v[3][0] == ("k", "bytes"))
                q = p if n == "all" else minus(ANY, p)
                if q != BL or v[3][0] == ("k", "char_indices"): raise Bad("blanks", "not exactly spaces and tabs are taken as indentation")
                t = self.trimmed(st, lt)
                empty = self.isz(I, st, t)
                if n == "position": return [x for s, r in empty for x in I.ret(s, NONE if r else some(lin_add(t[2], lt[2], -1)))]
                return [x for s, r in empty for x in I.ret(s, ("b", r if n == "all" else not r))]
            if n == "collect": return I.ret(st, lt)
            if n == "count": raise Unsupported("the characters of a line are counted")
        if k == "it::lblank" and n == "count":
            lt = v[3][0]
            return I.ret(st, lin_add(self.trimmed(st, lt)[2], lt[2], -1))
        return None

    def adapt(self, I, st, it, n, args):
        v = I.val(st, it)
        if v[0] != "adt": return None
        f = v[3]
        if v[1] == "it::lines":
            fresh = f[0] == ("k", "start")
            if n == "enumerate" and f[5] == NONE and fresh and f[7] == ("b", False): return setf(v, 5, some(f[1]))
            if n == "rev" and fresh: return setf(v, 7, ("b", not f[7][1]))
            if n in ("skip", "take") and fresh and f[7] == ("b", False) and to_lin(args[1]) is not None:
                x = lin_add(f[1], args[1], 1)
                x = self.minl(st, x, f[3])
                return setf(setf(v, 1, x), 2, x) if n == "skip" else setf(v, 3, x)
            if n in ("cloned", "copied") and f[5] == NONE: return setf(v, 6, ("b", False))
            if n in ("skip", "take") and args[1][0] != "i": raise Unsupported("%s of some of the lines" % n)
            return None
        if v[1] == "it::lchars" and n in ("take_while", "skip_while", "skip"):
            lt = f[1]
            if n == "skip":
                t = self.trimmed(st, lt)
                if self.decide(st, True, t[2], lin_add(lt[2], args[1], 1)) is not False: raise Unsupported("characters of a line are skipped")
                return setf(v, 1, ("lt", lt[1], lin_add(lt[2], args[1], 1)) + lt[3:])
            p = predset(self.P, st, args[1], f[0] == ("k", "bytes"), True)
            if p != BL: raise Bad("blanks", "not exactly spaces and tabs are taken as indentation")
            if n == "skip_while": return setf(v, 1, self.trimmed(st, lt))
            return IT("lblank", lt)
        return None

    def minl(self, st, a, b):
        r = self.decide(st, True, b, a)
        if r is None:
            if a == ("i", 1): return a       # the only line may be missing
            raise Unsupported("a part of the lines of unknown extent")
        return b if r else a

    def isz(self, I, st, t):
        """whether a text that starts at the end of the indentation is empty"""
        return I.truth(st, self.is_empty(I, st, t))

    def iter_next(self, I, st, a, v):
        if v[0] != "adt" or v[1] != "it::lines": return None
        return self.next_line(I, st, a, v)

    def options(self, st, last, E, lo, hi, rev, seen):
        """[(phase of the next line | None)]"""
        k = st.facts["case"]
        F, L = self.nF(st), self.nL(st)
        need = st.facts.get("need") and not seen
        if k == "E":
            if rev and lo != ("i", 0): raise Unsupported("lines back to an unknown place")
            if last == "start": return ["blk", "zero", None] if rev else ["zero", None] if lo == ("i", 0) else ["blk", None]
            return ["blk", None] if not rev else ["blk", "zero"] if last == "blk" else [None]
        if last == "start":
            at = lo if not rev else lin_add(hi, ("i", 1), -1)
            end = hi if not rev else lo
            if not rev:
                if lo == ("i", 0): p = ["zero"] if F != "0" else ["F"]
                elif lo == ("i", 1) and F != "0": p = ["pre", "F"]
                elif lo == self.F(st): p = ["F"]
                elif lo == lin_add(self.F(st), ("i", 1), 1): p = self.after(st, "F", need)
                elif lo == self.L(st): p = ["L"]
                elif lo == lin_add(self.L(st), ("i", 1), 1): p = ["post", None]
                elif lo == pos("N"): p = [None]
                else: raise Unsupported("lines from an unknown place")
            else:
                if hi == pos("N"): p = ["post", "L" if L != F else "F"]
                elif hi == lin_add(self.L(st), ("i", 1), 1): p = ["L" if L != F else "F"]
                else: raise Unsupported("lines back from an unknown place")
        elif not rev: p = self.after(st, last, need)
        else: p = {"post": ["post", "L" if L != F else "F"], "L": ["mid"] + ([] if need else ["F"]), "mid": ["mid"] + ([] if need else ["F"]), "F": [None] if F == "0" else ["pre", "zero"], "pre": ["pre", "zero"], "zero": [None]}[last]
        out = []
        for x in p:
            if x == "F" and L == F and last == "start" and lo == self.L(st): x = "F"
            out.append(self.stop(st, x, lo, hi, rev))
        return list(dict.fromkeys(out))

    def stop(self, st, x, lo, hi, rev):
        """does the range end before phase x"""
        if x is None: return None
        rank = {"zero": 0, "pre": 1, "F": 2, "mid": 3, "L": 4, "post": 5}
        F, L = self.nF(st), self.nL(st)
        if x == "F" and F == L: rank = dict(rank, F=4)
        if not rev:
            if hi == pos("N"): return x
            if hi == lin_add(self.L(st), ("i", 1), 1): return None if rank[x] > 4 else x
            if hi == self.L(st): return None if rank[x] >= 4 else x
            if hi == lin_add(self.F(st), ("i", 1), 1): return None if rank[x] > 2 else x
            if hi == self.F(st): return None if rank[x] >= 2 else x
            raise Unsupported("lines up to an unknown place")
        if lo == ("i", 0): return x
        if lo == ("i", 1): return None if x == "zero" or x == "F" and F == "0" else x
        if lo == self.F(st): return None if rank[x] < 2 else x
        raise Unsupported("lines back to an unknown place")

    def after(self, st, last, need):
        F, L = self.nF(st), self.nL(st)
        if last in ("zero", "pre"): return ["pre", "F"]
        if last == "F": return ["post", None] if L == F else ["mid"] + ([] if need else ["L"])
        if last == "mid": return ["mid"] + ([] if need else ["L"])
        return ["post", None]

    def next_line(self, I, st, a, v):
        last, lo, E, hi, seen, base, byref, rev = v[3]
        last, seen, rev = last[1], seen[1], rev[1]
        if last == "end": return I.ret(st, NONE)
        if last in ("mid", "pre", "post", "blk") and not (st.ext.get("pass") == self.ident(v)): raise Unsupported("two walks over the lines at the same time")
        out = []
        for ph in self.options(st, last, E, lo, hi, rev, seen):
            subs = [()]
            if ph == "mid": subs = [(("nb", False),), (("nb", True), ("ind", "="))] + [(("nb", True), ("ind", ">"))] if st.facts["m"] else [(("nb", False),), (("nb", True),)]
            for sub in subs:
                s = st.copy()
                if ph is None:
                    I.addr_write(s, a, setf(v, 0, ("k", "end")))
                    out += I.ret(s, NONE); continue
                i = {"zero": "0", "F": self.nF(s), "L": self.nL(s)}.get(ph, "k")
                # the new line gets its name; what was known of an earlier one becomes its summary
                self.advance(s, E if not rev else None, i, ph)
                v2 = I.addr_read(s, a)
                f = list(v2[3])
                if i == "k":
                    s.facts[("ph", "k")] = ph
                    s.facts[("nb", "k")] = False
                    for x, y in sub: s.facts[(x, "k")] = y
                if sub and len(sub) > 1 and sub[1] == ("ind", "="): f[4] = ("b", True)
                f[0] = ("k", "F" if ph == "F" else ph)
                ix = self.idx(i)
                f[2] = lin_add(ix, ("i", 1), 1) if not rev else ("stale",)
                I.addr_write(s, a, ("adt", v2[1], 0, tuple(f)))
                s.ext["pass"] = self.ident(v)
                x = ("lt", i, ("i", 0), pos(("len", i)), False)
                x = refv(refv(x)) if byref[1] else refv(x)
                if base != NONE: x = ("tup", (lin_add(ix, base[3][0], -1), x))
                out += I.ret(s, some(x))
        return out

    def ident(self, v): return (v[3][1], v[3][3], v[3][7]) if not (has(v[3][1], pos("k")) or has(v[3][3], pos("k"))) else ("?",)

    def advance(self, st, E, new, ph):
        f = st.facts
        nb, ind, bl = f.get(("nb", "k")), f.get(("ind", "k")), f.get(("bl", "k"))
        one = E == ("i", 1)
        to = self.idx(new)
        nxt = to_lin(E) if E is not None else None

        def r(v):
            if v and v[0] in ("lin", "i", "pos") and nxt is not None and nxt[1] and to_lin(v) == nxt: return ("new",)
            return None

        def r2(v):
            if v == ("new",): return to
            if v == pos("k"): return ("stale",)
            if len(v) == 2 and v[0] == "pos" and isinstance(v[1], tuple) and v[1][1] == "k":
                if v[1][0] == "ind":
                    if nb: return pos("m") if ind == "=" else pos("gm")
                    if bl == "=": return pos("m")
                return ("stale",)
            if v[:2] == ("lt", "k"): return ("stale",)
            return None
        def top(x):      # whole terms first, so that k + 1 is not taken for a k
            if not isinstance(x, tuple): return x
            y = r(x)
            if y is not None: return y
            if x and x[0] in ("lin", "pos"): return x
            return tuple(top(z) for z in x)
        had = ("ph", "k") in f
        if had and st.ext["mode"] == "line" and st.ext["outs"] and not st.ext.get("vec") and st.ext["e"] == pos("k") and nb is False and bl in ("<", "="):
            self.line(st, ("s", ""))        # nothing was written between two line feeds
            st.ext["mode"] = "sep"
        for d, fr in enumerate(st.frames):
            for l in list(fr.loc):
                x = fr.loc[l]
                if not isinstance(x, tuple): continue
                if one and x == ("i", 1) and ("ctr", fr.raw, str(l)) in self.regs: x = ("new",)
                x = top(x)
                fr.loc[l] = rewrite(x, r2) if had or one or nxt is not None else x
        e = st.ext["e"]
        if one and e == ("i", 1) and ph != "post": e = ("new",)
        st.ext["e"] = rewrite(top(e) if ph != "post" else e, r2)
        for k in [k for k in f if isinstance(k, tuple) and k[-1] == "k"]: del f[k]

    def enum_index(self, I, st, a, v, x): return pos("many")

    # ---- text
    def trimmed(self, st, v):
        i, lo = v[1], v[2]
        ind = pos(("ind", i))
        if lo == ind: return v
        if self.decide(st, True, ind, lo) is False: return ("lt", i, ind) + v[3:]
        raise Unsupported("blanks inside a line are removed")

    def length(self, I, st, v):
        if v[0] == "qt": return mk_lin(6 - v[1] - v[2], {pos("B"): 1})
        if v[0] == "body": return pos("B")
        if v[0] == "lt": return lin_add(self.hi(v), v[2], -1)
        if v[0] == "lvec": return lin_add(v[2], v[1], -1)
        return None

    def hi(self, v):
        if v[4] and v[3] == pos(("len", v[1])): return pos(("rlen", v[1]))
        return v[3]

    def is_empty(self, I, st, v):
        if v[0] == "obuf" or v[0] == "ovec": return ("b", st.ext["outs"] == 0)
        if v[0] == "lt":
            nb = st.facts.get(("nb", v[1]))
            full = v[3] == pos(("len", v[1]))
            if v[2] == pos(("ind", v[1])) and full: return ("b", not nb)
            r = self.decide(st, False, self.hi(v), v[2])
            if r is not None: return ("b", r)
            return ("eq", self.hi(v), v[2])
        if v[0] == "body": return ("fact", "empty")
        if v[0] == "lvec":
            r = self.decide(st, False, v[1], v[2])
            return ("b", r) if r is not None else ("fact", "empty")
        if v[0] == "stale": raise Unsupported("an earlier line is looked at")
        if v[0] == "cat": return ("b", False) if any(x[0] == "s" for x in v[1]) else None
        return None

    def slice_index(self, I, st, v, ix, info):
        if v[0] == "qt": return self.qcut(I, st, v, ix, lambda s, x: I.ret(s, refv(x)), lambda s: I.do_panic(s, "slice", (v, ix)))
        if v[0] == "lt":
            if ix[0] != "adt": raise Unsupported("a byte of a line is read")
            return self.cut(I, st, v, ix, lambda s, x: I.ret(s, refv(x)), lambda s: I.do_panic(s, "slice", (v, ix)))
        if v[0] == "lvec":
            if ix[0] == "adt":
                lo, hi = range_bounds(ix)
                lo = v[1] if lo is None else lin_add(v[1], lo, 1)
                hi = v[2] if hi is None else lin_add(v[1], hi, 1)
                out = []
                for s, bad in [(s2, b1 or b2) for s1, b1 in I.truth(st, lt_(hi, lo)) for s2, b2 in I.truth(s1, lt_(v[2], hi))]:
                    out += I.do_panic(s, "slice", ix) if bad else I.ret(s, refv(("lvec", lo, hi)))
                return out
            return self.elem(I, st, v, ix, lambda s, x: I.ret(s, refv(x)), lambda s: I.do_panic(s, "index", ix))
        if v[0] == "body": raise Unsupported("a part of the text")
        return None

    def elem(self, I, st, v, ix, good, bad):
        x = lin_add(v[1], ix, 1)
        out = []
        for s, over in I.truth(st, lt_(x, v[2])):
            if not over: out += bad(s); continue
            i = self.name(s, x)
            if i is None: raise Unsupported("a line of unknown place")
            out += good(s, refv(("lt", i, ("i", 0), pos(("len", i)), False)))
        return out

    def seq_get(self, I, st, v, args):
        if v[0] != "lvec": return None
        return [self_ for self_ in self.elemopt(I, st, v, args[0])]

    def elemopt(self, I, st, v, ix):
        x = lin_add(v[1], ix, 1)
        out = []
        for s, inside in I.truth(st, lt_(x, v[2])):
            if not inside: out.append((s, NONE)); continue
            i = self.name(s, x)
            if i is None: raise Unsupported("a line of unknown place")
            out.append((s, some(refv(refv(("lt", i, ("i", 0), pos(("len", i)), False))))))
        return out

    def seq_first(self, I, st, v, args): return self.elemopt(I, st, v, ("i", 0)) if v[0] == "lvec" else None
    def seq_last(self, I, st, v, args): return self.elemopt(I, st, v, lin_add(lin_add(v[2], v[1], -1), ("i", 1), -1)) if v[0] == "lvec" else None

    def index(self, I, st, v, idx):
        if v[0] == "lvec" and idx and idx[0] != "set":
            i = self.name(st, lin_add(v[1], idx if isinstance(idx, tuple) else ("i", idx), 1))
            if i is not None: return refv(("lt", i, ("i", 0), pos(("len", i)), False))
            raise Unsupported("a line of unknown place")
        return None

    def qcut(self, I, st, v, ix, good, bad):
        lo, hi = range_bounds(ix)
        a = v[1] if lo is None else v[1] + lo[1] if lo[0] == "i" else unsup("a part of the token from an unknown place")
        n = self.length(I, st, v)
        d = lin_add(hi, n, -1) if hi is not None else ("i", 0)
        if d is None or d[0] != "i": raise Unsupported("a part of the token up to an unknown place")
        b = v[2] - d[1]
        if b < v[2]: return bad(st)
        if a > 3 or b > 3: raise Bad("body", "a part of the text is taken for quotes" if True else "")
        return good(st, self.qt(a, b))

    def qt(self, a, b): return ("body",) if a == 3 and b == 3 else ("qt", a, b)

    def cut(self, I, st, v, ix, good, bad):
        lo, hi = range_bounds(ix)
        lo = v[2] if lo is None else lin_add(v[2], lo, 1)
        i = v[1]
        if hi is None: hi = v[3]
        else:
            hi = lin_add(v[2], hi, 1)
            if hi is None: raise Unsupported("a part of a line up to an unknown place")
            if hi == self.hi(v): hi = v[3]
        if lo is None: raise Unsupported("a part of a line from an unknown place")
        out = []
        end = self.hi(v) if hi == v[3] else hi
        for s, over in I.truth(st, lt_(end, lo)):
            if over: out += bad(s); continue
            fine = hi == v[3] or self.decide(s, True, pos(("ind", i)), hi) is False or hi == pos(("te", i))
            at = self.decide(s, True, pos(("ind", i)), lo) is False
            if not (fine and at): out += bad(s.copy())
            out += good(s, ("lt", i, lo, hi, v[4]))
        return out

    def pattern(self, I, st, p, arg):
        """the characters a pattern matches, or a text"""
        if p[0] == "c": return cls((p[1], p[1]))
        if p[0] == "s": return p[1]
        if p[0] == "vec": return cls(*[(I.val(st, x)[1],) * 2 for x in p[1]])
        if p[0] in ("clo", "fn"): return predset(self.P, st, arg)
        raise Unsupported("a pattern %s" % p[0])

    def str_method(self, I, st, n, v, args, info):
        p = I.val(st, args[1]) if len(args) > 1 else None
        if v[0] == "stale": raise Unsupported("an earlier line is looked at")
        if v[0] == "qt":
            t = p[1] if p is not None and p[0] == "s" else chr(p[1]) if p is not None and p[0] == "c" else None
            if n in ("starts_with", "ends_with", "strip_prefix", "strip_suffix") and t is not None and t == '"' * len(t):
                i = 1 if n in ("starts_with", "strip_prefix") else 2
                if v[i] + len(t) > 3: raise Unsupported("more quotes than the token starts with")
                if n[-4:] == "with": return I.ret(st, ("b", True))
                return I.ret(st, some(refv(self.qt(v[1] + len(t), v[2]) if i == 1 else self.qt(v[1], v[2] + len(t)))))
            if n == "get" and p is not None and p[0] == "adt": return self.qcut(I, st, v, p, lambda s, x: I.ret(s, some(refv(x))), lambda s: I.ret(s, NONE))
            if n.startswith("trim"): raise Bad("body", "quotes or blanks that belong to the text are removed with the token's quotes")
            raise Unsupported("%s of the token with its quotes" % n)
        if v[0] == "body":
            if n in ("trim", "trim_start", "trim_end", "trim_matches", "trim_start_matches", "trim_end_matches"): raise Bad("body", "blanks at the ends of the whole text are removed before it is split into lines")
            raise Unsupported("%s of the whole text" % n)
        if v[0] == "obuf" or v[0] == "joined":
            if n == "replace":
                self.isesc(I, st, args)
                st.ext["unrep"] = False
                return I.ret(st, ("done",))
            raise Unsupported("%s of what was decoded" % n)
        if v[0] != "lt": return None
        i = v[1]
        if n in ("trim_start_matches", "trim_matches", "trim_end_matches"):
            c = self.pattern(I, st, p, args[1])
            if c != BL: raise Bad("blanks", "not exactly spaces and tabs are taken as blanks")
            if n == "trim_start_matches": return I.ret(st, refv(self.trimmed(st, v)))
            t = self.trimmed(st, v) if n == "trim_matches" else v
            if t[3] != pos(("len", i)): raise Unsupported("blanks inside a line are removed")
            if not st.facts.get(("nb", i)): return I.ret(st, refv(("lt", i, t[2], t[2], v[4])))
            return I.ret(st, refv(("lt", i, t[2], pos(("te", i)), v[4])))
        if n in ("trim", "trim_start", "trim_end", "trim_ascii", "trim_ascii_start", "trim_ascii_end"): raise Bad("blanks", "other characters than spaces and tabs are taken as blanks")
        if n == "find":
            c = self.pattern(I, st, p, args[1])
            if isinstance(c, str) or minus(ANY, c) != BL: raise Bad("blanks", "not exactly spaces and tabs are taken as indentation") if not isinstance(c, str) else Unsupported("a search in a line")
            t = self.trimmed(st, v)
            return [x for s, r in self.isz(I, st, t) for x in I.ret(s, NONE if r else some(lin_add(t[2], v[2], -1)))]
        if n == "contains":
            c = self.pattern(I, st, p, args[1])
            if c == ESC: return I.ret(st, ("fact", ("esc", i)))
            if not isinstance(c, str) and minus(ANY, c) == BL: return I.ret(st, ("not", self.is_empty(I, st, self.trimmed(st, v))) )
            raise Unsupported("a search in a line")
        if n == "replace":
            self.isesc(I, st, args)
            return I.ret(st, v[:4] + (True,))
        if n == "get" and p[0] == "adt": return self.cut(I, st, v, p, lambda s, x: I.ret(s, some(refv(x))), lambda s: I.ret(s, NONE))
        if n in ("split_at", "split_at_checked"):
            bad = (lambda s: I.do_panic(s, "slice", p)) if n == "split_at" else (lambda s: I.ret(s, NONE))
            good = (lambda s, x: I.ret(s, w(("tup", (refv(("lt", i, v[2], x[2], v[4])), refv(x))))))
            w = some if n == "split_at_checked" else lambda x: x
            return self.cut(I, st, v, ("adt", "std::ops::RangeFrom", 0, (p,)), good, bad)
        raise Unsupported("%s of a line" % n)

    def isesc(self, I, st, args):
        a, b = I.val(st, args[1]), I.val(st, args[2])
        if a != ("s", ESC): raise Bad("escape", "%r is replaced instead of %r" % (a[1] if len(a) > 1 else a, ESC))
        if b != ("s", TQ): raise Bad("escape", "an escaped quote is decoded to %r instead of %r" % (b[1] if len(b) > 1 else b, TQ))

    def call(self, I, st, name, info, args):
        f = info["fn"] if isinstance(info, dict) else None
        if f is None: return None
        p = f.get("respath") or f["path"]
        if p.startswith(("std::fmt::", "alloc::fmt::", "core::fmt::")) and not name.startswith(("Arguments::new", "Argument::new", "fmt::format")) : return None
        if name in ("From::from", "Into::into", "String::from", "ToString::to_string", "ToOwned::to_owned") and len(args) == 1:
            v = I.val(st, args[0])
            if v[0] in ("lt", "obuf", "joined", "done", "s"): return I.ret(st, v if name in ("From::from", "Into::into", "String::from", "ToString::to_string", "ToOwned::to_owned") else refv(v))
            if v[0] in ("qt", "body"): raise Bad("body", "the text is returned as it stands in the token")
        if name in ("Iterator::min", "Iterator::max", "Iterator::min_by_key", "Iterator::max_by_key") and name.endswith(("min", "max")):
            d = I.pushk(st, "c:minmax", it=args[0], acc=NONE, f=("k", name[10:]))
            return M.it_next(I, st, ("@", d, "it", ()))
        if name in ("Option::map_or",) : return None
        return None

    # ---- output
    def push_str(self, I, st, a, v, x):
        if v == ("obuf",):
            self.write(st, x)
            return UNIT
        if v[0] in ("s", "cat") and x[0] in ("lt", "s", "c", "cat"):
            I.addr_write(st, a, dcat(v, x))
            return UNIT
        if x == ("stale",): raise Unsupported("an earlier line is written")
        return None

    def clear(self, I, st, a):
        if I.addr_read(st, a) == ("obuf",): raise Unsupported("what was decoded is discarded")
        return None

    def vec_push(self, I, st, a, v, x):
        I.addr_write(st, a, self.collect_item(I, st, v, x))
        return I.ret(st, UNIT)

    def collect_item(self, I, st, acc, x):
        y = I.val(st, x)
        if acc[0] == "vec" and acc[1] == () or acc == ("ovec",):
            if y[0] == "lt" or y == ("s", ""):
                if acc != ("ovec",) and (st.ext["outs"] or st.ext.get("vec")): raise Unsupported("two lists of lines are built")
                st.ext["vec"] = True
                self.line(st, y)
                return ("ovec",)
        raise Unsupported("a list of %s" % y[0])

    def join(self, I, st, v, sep):
        if v[0] != "ovec": return None
        if sep != ("s", "\n"): raise Bad("separator", "lines are joined with %r instead of a line feed" % (sep[1],))
        return ("joined",)

    def write(self, st, x):
        k = x[0]
        if k == "cat":
            for y in x[1]: self.write(st, y)
        elif k == "s":
            for c in x[1]: self.write(st, ("c", ord(c)))
        elif k == "c":
            if x[1] != 10: raise Bad("extra", "%r is written, which is not in the text" % chr(x[1]))
            if st.ext["mode"] == "line": self.line(st, ("s", ""))
            st.ext["mode"] = "line"
        elif k == "lt":
            if st.ext["mode"] == "sep":
                if self.decide(st, False, self.hi(x), x[2]) is True: return
                raise Bad("separator", "a line is written without a line feed before it")
            self.line(st, x)
            st.ext["mode"] = "sep"
        else: raise Unsupported("the decoder writes %s" % k)

    def line(self, st, x):
        """the text x is written as the next line"""
        if st.facts["case"] == "E":
            raise Bad("blank", "something is written although every line is blank")
        e = st.ext["e"]
        if has(e, ("stale",)): raise Bad("order", "a line between the first and the last that is not blank is left out")
        L = self.L(st)
        if self.decide(st, True, L, e) is not False: raise Bad("last", "a line after the last line that is not blank is written")
        i = self.name(st, e)
        if x[0] == "lt":
            if self.decide(st, False, self.idx(x[1]), e) is not True: raise Bad("order", "%s line is written %s" % (("a blank" if st.facts.get(("nb", x[1])) is False else "a"), "before the first line that is not blank" if not st.ext["outs"] else "out of order, or a line is left out"))
            i = x[1]
        if i is None: raise Bad("order", "an empty line is written that is not in the text")
        nb = st.facts.get(("nb", i))
        what = "the first line" if i == "0" else "a line that is not blank" if nb else "a blank line"
        empty = x[0] == "s" or self.decide(st, False, self.hi(x), x[2]) is True
        if i == "0" or nb:
            if empty: raise Bad("line", "%s is written as an empty line" % what)
            if x[3] != pos(("len", i)): raise Bad("tail", "the end of %s is left out" % what)
            want = ("i", 0) if i == "0" else pos("m")
            if self.decide(st, False, x[2], want) is not True:
                raise Bad("indent", "%s is written %s" % (what, "without its indentation" if i == "0" else "with other than the common indentation removed"))
            if not x[4] and st.facts.get(("fact", ("esc", i))) is not False: st.ext["unrep"] = True
        else:
            b = st.facts.get(("bl", i))
            if empty:
                if b not in ("<", "="): raise Bad("blankline", "a blank line is written empty although it may be longer than the common indentation")
            else:
                if x[3] != pos(("len", i)): raise Bad("tail", "the end of %s is left out" % what)
                if b in (None, "<"): raise Bad("short", "a blank line shorter than the common indentation is not written empty")
                if self.decide(st, False, x[2], pos("m")) is not True: raise Bad("indent", "a blank line is written with other than the common indentation removed")
        st.ext["outs"] = 1
        st.ext["e"] = lin_add(e, ("i", 1), 1)

    def finish(self, I, d):
        """verdict on an exit; -> None or (key, message)"""
        fs = d[2]
        r = d[1]
        if r[0] == "adt" and r[1] == RES:
            if r[2] == 1: return "rejects", "a block string is rejected"
            r = r[3][0]
        v = I.val(fs, r)
        try:
            if v[0] in ("lt", "cat", "s"):
                if fs.ext["outs"]: return "left", "what was decoded is not what is returned"
                if v[0] != "s" or v[1]: self.write(fs, v)
            elif v[0] not in ("obuf", "joined", "done"): return "left", "%s is returned" % v[0]
            if fs.facts["case"] == "E": return ("blank", "a text of blank lines is not decoded to the empty text") if fs.ext["outs"] else None
            e = fs.ext["e"]
            if not fs.ext["outs"]: return "nothing", "a text with a line that is not blank is decoded to the empty text"
            if has(e, ("stale",)) or self.decide(fs, False, e, lin_add(self.L(fs), ("i", 1), 1)) is not True: return "end", "lines at the end of the text are left out"
            if fs.ext["mode"] == "line" and v[0] != "joined" and not fs.ext.get("vec"): return "end", "a line feed is written after the last line"
            if fs.ext.get("unrep"): return "escape", "an escaped quote (%s) is kept as it is" % ESC
        except Bad as b: return b.key, str(b)
        return None

    # ---- hash points
    def head(self, I, st):
        for fr in st.frames:
            for l, v in list(fr.loc.items()):
                if isinstance(v, tuple) and v[0] in ("pos", "lin"): fr.loc[l] = self.norm(st, v)
        for fr in st.frames:
            for l in sorted(fr.loc, key=str):
                v = fr.loc[l]
                if not isinstance(v, tuple): continue
                key = (fr.raw, str(l))
                if v[0] == "i" and v[1] in (3, 4) and self.counting(st) and ("ctr",) + key not in self.regs and fr.kind == "mir" and fr.raw == self.raw: raise Widen(("ctr",) + key)
                if ("str",) + key in self.regs and v[0] in ("s", "cat"):
                    if st.ext.get("obuf") and v != ("s", ""): raise Unsupported("two texts are built")
                    st.ext["obuf"] = True
                    self.write(st, v)
                    fr.loc[l] = ("obuf",)
                elif v[0] == "cat": raise Widen(("str",) + key)
        for k in [k for k in st.facts if isinstance(k, tuple) and k[0] == "fact" and isinstance(k[1], tuple) and k[1][1] == "k" and ("ph", "k") not in st.facts]: del st.facts[k]

    def counting(self, st): return True

    def key(self, I, st): return ()


def dcat(v, x):
    ps = (v[1] if v[0] == "cat" else (v,) if v != ("s", "") else ()) + (x[1] if x[0] == "cat" else (x,))
    if all(p[0] in ("s", "c") for p in ps) and not any(p == ("c", 10) or p[0] == "s" and "\n" in p[1] for p in ps): return cat(ps)
    return ("cat", ps)


def lt_(a, b): return M.arith("Lt", a, b)


def setf(v, i, x): return ("adt", v[1], v[2], v[3][:i] + (x,) + v[3][i + 1:])


def has(v, x):
    if v == x: return True
    return isinstance(v, tuple) and any(has(y, x) for y in v)


def unsup(m): raise Unsupported(m)


def it_lpos(I, s, fr, x):
    fr.loc["acc"] = x[1][0]
    return M.call_f(I, s, fr, [x[1][1]])


def got_lpos(I, s, fr, v):
    out = []
    for s2, b in I.truth(s, v):
        fr = s2.top
        out += M.fin(I, s2, some(fr.loc["acc"])) if b else M.again(I, s2)
    return out


M.consumer(["lpos"], it_lpos, lambda I, s, fr: NONE, got_lpos)


def it_minmax(I, s, fr, x):
    y = I.val(s, x)
    if fr.loc["acc"] == NONE:
        fr.loc["acc"] = some(y)
        return M.again(I, s)
    out = []
    a = fr.loc["acc"][3][0]
    c = M.arith("Lt", y, a) if fr.loc["f"] == ("k", "min") else M.arith("Lt", a, y)
    for s2, b in I.truth(s, c):
        if b: s2.top.loc["acc"] = some(y)
        out += M.again(I, s2)
    return out


M.consumer(["minmax"], it_minmax, lambda I, s, fr: fr.loc["acc"])

CASES = [("E", None, None), ("F0=", None, None), ("F0<", None, "="), ("F0<", None, ">"), ("F+=", "=", "=")] + [("F+<", a, b) for a in "=>" for b in "=>"]


def block(P, raw):
    """-> (abstract states, exits, {key: message}, {panics}, visited)"""
    regs = set()
    for _ in range(30):
        try: return once(P, raw, regs)
        except Widen as w: regs.add(w.args[0])
    raise Unsupported("too many counters")


def once(P, raw, regs):
    nodes = exits = 0
    found = {}; panics = {}; visited = set()
    b = P.body(raw)
    if b["argc"] != 1 or P.ty(b["locals"][1]) != ("ref", False, ("str",)): raise Unsupported("%s takes more than the token's text" % P.where(raw))
    for case in CASES:
        dom = LineDom(P, raw, case, regs)
        I = Interp(P, dom, 1000000)
        st = dom.start(St())
        I.push(st, raw, (), [refv(("qt", 0, 0))])
        try: n, e = I.explore(st, 20000)
        except Bad as x:
            found.setdefault(x.key, str(x)); continue
        nodes += n
        visited |= I.visited
        for s, ev, d in e:
            if not isinstance(d, tuple): continue
            exits += 1
            if d[0] == "panic": panics.setdefault(str(d[1][2] if len(d[1]) > 2 else d[1]), d[1]); continue
            r = dom.finish(I, d)
            if r: found.setdefault(*r)
    return nodes, exits, found, panics, visited
