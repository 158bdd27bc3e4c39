"""Tape domain: functions that scan text are interpreted over an unknown text of any length.

A boundary is a position between two characters, known by a name; the only facts about the text are which boundaries lie where
(events) and which classes the characters near them have.  Exploring a function gives a finite graph whose edges carry events:

  ("pk", n)       boundary n is created: the one after the last character looked at
  ("rd", b, n, C, pre)  the head moves over the character at boundary b, which is in class C, to boundary n (pre: known from before)
  ("cl", k, C)    the k-th character behind the head is in class C
  ("at", m) ("nat", m)        the head is / is not at boundary m
  ("bat", k, m) ("bnat", k, m)  the boundary k characters behind the head is / is not m
  ("bk", k, n)    boundary n is created k characters behind the head
  ("sw", b, ...)  the head moves elsewhere: a new pass over the text starts at boundary b
  ("ord", a, b, r, ...)  boundary a lies before / at / after boundary b
  ("ren", ((old, new), ...))   boundaries are renamed, all others are forgotten
  ("set", r, v)   counter r gets the value v

language() turns the graph into one automaton per exit: the texts, with the boundaries of interest marked, that lead there."""
from interp import Interp, Dom, St, Unsupported, refv, some, NONE, ok, err, UNIT, OPT, RES
import models as M
from models import IT, mk_lin, to_lin, lin_add, range_bounds, addr_of, kont, struct_eq, cat

MAXCH = 0x10FFFF
ENDCP = 0x110000
ANY = ((0, 0xD7FF), (0xE000, MAXCH))


# ------------------------------------------------------------------ classes: sorted tuples of code point intervals
def cls(*iv):
    out = []
    for a, b in sorted(iv):
        if a > b: continue
        if out and a <= out[-1][1] + 1: out[-1] = (out[-1][0], max(out[-1][1], b))
        else: out.append((a, b))
    return tuple(out)


def chars(s): return cls(*[(ord(c), ord(c)) for c in s])


def inter(a, b):
    out = []
    for x, y in a:
        for u, v in b:
            lo, hi = max(x, u), min(y, v)
            if lo <= hi: out.append((lo, hi))
    return cls(*out)


def minus(a, b):
    out = []
    for x, y in a:
        cur = x
        for u, v in b:
            if v < cur or u > y: continue
            if u > cur: out.append((cur, u - 1))
            cur = v + 1
        if cur <= y: out.append((cur, y))
    return cls(*out)


def width(c):
    w = set()
    for lo, hi, n in ((0, 0x7f, 1), (0x80, 0x7ff, 2), (0x800, 0xffff, 3), (0x10000, MAXCH, 4)):
        if inter(c, ((lo, hi),)): w.add(n)
    return w


WCLS = {1: ((0, 0x7f),), 2: ((0x80, 0x7ff),), 3: ((0x800, 0xffff),), 4: ((0x10000, MAXCH),)}


def show(c):
    def n(x): return repr(chr(x)) if 32 < x < 127 else "end" if x == ENDCP else "U+%04X" % x
    return ",".join(n(a) if a == b else n(a) + "-" + n(b) for a, b in c[:6])


def pos(b): return ("pos", b)
def ts(lo, hi): return ("ts", pos(lo), pos(hi))


def rename(v, m):
    """substitute boundary names in a value"""
    if not isinstance(v, tuple) or not v: return v
    if v[0] in ("pos", "ch", "byte") and len(v) == 2: return (v[0], m.get(v[1], v[1]))
    if v[0] == "lin":
        d = {}
        for k, x in v[2]:
            k = rename(k, m)
            d[k] = d.get(k, 0) + x
        return mk_lin(v[1], d)
    out = None
    for i, x in enumerate(v):
        if isinstance(x, tuple):
            y = rename(x, m)
            if y is not x:
                if out is None: out = list(v)
                out[i] = y
    return tuple(out) if out is not None else v


def bounds_in(v, acc):
    if not isinstance(v, tuple) or not v: return
    if v[0] in ("pos", "ch", "byte") and len(v) == 2:
        if v[1] not in acc: acc.append(v[1])
        return
    for x in v:
        if isinstance(x, tuple): bounds_in(x, acc)


def complex_in(v, acc, far):
    """boundaries that occur in sums with others"""
    if not isinstance(v, tuple) or not v: return
    if v[0] == "lin":
        for k, n in v[2]:
            if k[0] == "pos": acc.add(k[1])
        if any(n < 0 and k[0] == "pos" and k[1] not in ("S", "Z") for k, n in v[2]):
            for k, n in v[2]:
                if k[0] == "pos": far.add(k[1]); far.add((k[1],))
        return
    if v[0] == "ts" and v[1][1] != "S": acc.add(v[1][1]); far.add(v[1][1])
    if v[0] == "adt" and isinstance(v[1], str) and v[1].startswith("it::") and len(v[3]) > 1 and v[3][1][0] == "pos" and v[3][1][1] != "S": acc.add(v[3][1][1]); far.add(v[3][1][1])
    for x in v:
        if isinstance(x, tuple): complex_in(x, acc, far)


def starts_in(v, acc):
    """where slices of the text start"""
    if not isinstance(v, tuple) or not v: return
    if v[0] == "ts": bounds_in(v[1], acc)
    for x in v:
        if isinstance(x, tuple): starts_in(x, acc)


def ints_in(v, acc):
    if not isinstance(v, tuple) or not v: return
    if v[0] == "i": acc.add(v[1]); acc.add(-v[1]); return
    for x in v:
        if isinstance(x, tuple): ints_in(x, acc)


def chars_in(v, acc):
    if not isinstance(v, tuple) or not v: return
    if v[0] in ("ch", "byte") and len(v) == 2:
        if v[1] not in acc: acc.append(v[1])
        return
    for x in v:
        if isinstance(x, tuple): chars_in(x, acc)


FIXED = ("END", "Z")
PRIO = {"END": 3, "Z": 2, "S": 1}


def implied(st, k, op, c, n):
    """c + n*k == / < 0, as far as what is known about the unsigned k decides it"""
    lo, hi, out = 0, None, set()
    for f, b in st.facts.items():
        if f[0] not in ("eq", "lt"): continue
        l = to_lin(lin_add(f[1], f[2], -1))
        if not l or set(l[1]) != {k} or abs(l[1][k]) != 1: continue
        c2, n2 = l[0], l[1][k]
        x = -c2 * n2           # k == x; or k < x (n2 = 1), k > x (n2 = -1)
        if f[0] == "eq":
            if b: lo = max(lo, x); hi = x if hi is None else min(hi, x)
            else: out.add(x)
        elif (n2 == 1) == b:
            h = x - 1 if b else x
            hi = h if hi is None else min(hi, h)
        else: lo = max(lo, x + 1 if b else x)
    while lo in out: lo += 1
    while hi is not None and hi in out and hi >= lo: hi -= 1
    x = -c * n
    if op == "eq":
        if x < lo or (hi is not None and x > hi) or x in out: return False
        return True if lo == hi == x else None
    if n == 1:                 # k < x
        if hi is not None and hi < x: return True
        return False if lo >= x else None
    if lo > x: return True     # k > x
    return False if hi is not None and hi <= x else None


class Tape(Dom):
    """ext: hd head boundary, win boundaries behind the head (nearest last), ahd boundaries ahead (hd's successors looked at),
    nb number of the next fresh boundary.  facts: ("al", b) = b2 boundary b is b2; ("cl", b) class of the character at b;
    ("ord", a, b) = -1/1; ("pre", b): b, ahead of the head, is a boundary known from before"""
    eager_bool = True
    FAR = 16        # lengths are compared with constants up to this one exactly
    CAP = 0         # counters up to this value are told apart
    WIN = 8
    HWIN = 4
    REGLIM = 3      # more values than this: a counter
    lazy = True

    def keepwin(self, win, far):
        """how many characters behind the head stay known"""
        return max([2] + [i for i in range(3, self.HWIN + 1) if len(win) >= i and (win[-i],) in far])

    def __init__(self, regs=()):
        self.regs = set(regs)      # designated counters: location keys
        self.seen = {}             # loop site -> location -> constants seen

    def start(self, st, hd="S"):
        st.ext.update({"hd": hd, "win": (), "ahd": (), "nb": 1})

    # -------------------------------------------------- boundaries
    def fresh(self, st):
        n = st.ext["nb"]; st.ext["nb"] = n + 1
        return n

    def can(self, st, b):
        while ("al", b) in st.facts: b = st.facts[("al", b)]
        return b

    def line(self, st):
        e = st.ext
        return [self.can(st, x) for x in e["win"]] + [self.can(st, e["hd"])] + [self.can(st, x) for x in e["ahd"]]

    def hd(self, st): return self.can(st, st.ext["hd"])

    def dist(self, st, b):
        """how many characters b lies behind the head (negative: ahead); None when not near"""
        l = self.line(st)
        return len(st.ext["win"]) - l.index(b) if b in l else None

    def alias(self, st, a, b):
        a, b = self.can(st, a), self.can(st, b)
        if a == b: return True
        if self.before(st, a, b) or self.before(st, b, a): return False
        if PRIO.get(a, 0) > PRIO.get(b, 0): a, b = b, a
        st.facts[("al", a)] = b
        if ("cl", a) in st.facts:
            c = st.facts.pop(("cl", a))
            c = st.facts[("cl", b)] = inter(c, st.facts.get(("cl", b), ANY))
            if not c: return False
        return True

    def ahead(self, st):
        """what is known from the head on: ((boundary, class | None, boundaries it is not), ...)"""
        out = []
        for b in self.line(st)[len(st.ext["win"]):]:
            nats = tuple(sorted({self.can(st, k[2]) for k in st.facts if k[0] == "nat" and self.can(st, k[1]) == b}, key=str))
            out.append((b, st.facts.get(("cl", b)) if b != "END" else None, nats))
        return tuple(out)

    def switch_head(self, st, b):
        if self.hd(st) == b: return
        st.emit("sw", b, self.hd(st), self.ahead(st), tuple(self.names(st)))
        st.ext["hd"] = b; st.ext["win"] = (); st.ext["ahd"] = ()
        for k in [k for k in st.facts if k[0] in ("pre", "far")]: del st.facts[k]

    def names(self, st):
        return [x for x in range(1, st.ext["nb"]) if ("al", x) not in st.facts] + ["S"]

    def klass(self, st, b):
        return st.facts.get(("cl", self.can(st, b)), ANY)

    def refine(self, st, b, c):
        """[(st, bool)]: is the character at b in class c"""
        b = self.can(st, b)
        cur = self.klass(st, b)
        i, m = inter(cur, c), minus(cur, c)
        if not m: return [(st, True)]
        if not i: return [(st, False)]
        out = []
        for k, r in ((i, True), (m, False)):
            s = st.copy()
            self.setclass(s, b, k)
            out.append((s, r))
        return out

    def setclass(self, st, b, k):
        d = self.dist(st, b)
        st.facts[("cl", b)] = k
        if d is None: st.emit("clat", b, k, self.hd(st), self.ahead(st), tuple(self.names(st)))
        elif d > 0: st.emit("cl", d, k)

    # -------------------------------------------------- looking and moving
    def peek(self, st, b, hi):
        """[(st, boundary after the character at b | None when b is hi)]"""
        b, hi = self.can(st, b), self.can(st, hi)
        if b == "END" or b == hi: return [(st, None)]
        l = self.line(st)
        if b in l[:-1]:
            nx = l[l.index(b) + 1]
            if hi == "END" or self.before(st, b, hi): return [(st, nx)]
            if hi in l: return [(st, nx)]
            return self.limit(st, b, hi, lambda s: [(s, nx)])
        if b != l[-1]: self.switch_head(st, b)

        def cell(s):
            n = self.fresh(s)
            s.emit("pk", n)
            s.ext["ahd"] = s.ext["ahd"] + (n,)
            s.facts.setdefault(("cl", b), ANY)
            return [(s, n)]
        if hi == "END":
            if ("cl", b) in st.facts: return cell(st)
            s = st.copy()
            return ([(s, None)] if self.reach(s, b, "END") else []) + cell(st)
        return self.limit(st, b, hi, cell)

    def reach(self, st, b, m):
        """boundary b, the last one looked at, is m"""
        d = self.dist(st, b)
        if d is not None and d > 0: st.emit("bat", d, m)
        elif d == 0: st.emit("at", m)
        else: st.facts[("pre", m)] = True
        return self.alias(st, b, m)

    def before(self, st, a, b):
        """a is known to lie strictly before b"""
        return self.atleast(st, a, b) >= 1

    def edges(self, st):
        """known lower bounds of byte distances: (u, v, c) for pos(v) - pos(u) >= c"""
        out = []
        can = lambda b: self.can(st, b)
        for k, v in st.facts.items():
            if k[0] == "ord":
                a, b = can(k[1]), can(k[2])
                out.append((a, b, 1) if v == -1 else (b, a, 1))
            elif k[0] == "dist":
                a, b = can(k[1]), can(k[2])
                out.append((b, a, k[3])); out.append((a, b, -k[3]))
            elif k[0] == "le": out.append((can(k[1]), can(k[2]), 0))
            elif k[0] == "far": out.append((can(k[1]), self.hd(st), 3))
        l = self.line(st)
        for a, b in zip(l, l[1:]):
            w = width(st.facts.get(("cl", a), ANY))
            out.append((a, b, min(w) if w else 1)); out.append((b, a, -max(w) if w else -4))
        return out

    def atleast(self, st, a, b):
        """lower bound of pos(b) - pos(a); -1000 when none is known"""
        a, b = self.can(st, a), self.can(st, b)
        if a == b: return 0
        es = self.edges(st)
        ns = {a, b, self.can(st, "Z"), self.can(st, "END"), self.can(st, "S")}
        for u, v, c in es: ns.add(u); ns.add(v)
        z, e, S = self.can(st, "Z"), self.can(st, "END"), self.can(st, "S")
        for x in ns:
            if x != z: es.append((z, x, 0))
            if x != e: es.append((x, e, 0))
            if x != S and x != z and "bkS" not in st.ext: es.append((S, x, 0))
        d = {a: 0}
        for _ in range(len(ns) + 1):
            ch = False
            for u, v, c in es:
                if u in d and d.get(v, -1000) < d[u] + c: d[v] = d[u] + c; ch = True
            if not ch: break
        else: return 1 if b in d else -1000      # contradictory facts: any answer will do
        return d.get(b, -1000)

    def limit(self, st, b, hi, cell):
        """b against the end hi of the slice"""
        if self.before(st, b, hi) or self.before(st, hi, b): return cell(st)
        s = st.copy()
        r = [(s, None)] if self.reach(s, b, hi) else []
        self.notat(st, b, hi)
        st.facts[("ord", b, hi)] = -1
        return r + cell(st)

    def notat(self, st, b, m):
        d = self.dist(st, b)
        if d is not None and d > 0: st.emit("bnat", d, m)
        elif d == 0: st.emit("nat", m)
        else: st.facts[("nat", b, m)] = True

    def step_head(self, st):
        """the head passes a character it has looked at"""
        e = st.ext
        b = self.hd(st)
        n = self.can(st, e["ahd"][0])
        pre = bool(st.facts.pop(("pre", n), None))
        st.emit("rd", b, n, self.klass(st, b), pre)
        w = e["win"] + (b,)
        for x in w[:-self.WIN]: st.facts[("far", self.can(st, x))] = True
        e["win"] = w[-self.WIN:]
        e["hd"] = n
        e["ahd"] = e["ahd"][1:]
        for k in [k for k in st.facts if k[0] == "nat" and self.can(st, k[1]) == n]:
            st.emit("nat", self.can(st, k[2])); del st.facts[k]

    def take(self, st, b, hi):
        """[(st, next | None)]: like peek, and the head moves when it is at b"""
        out = []
        for s, n in self.peek(st, b, hi):
            if n is not None:
                l = self.line(s)[len(s.ext["win"]):]
                c = self.can(s, b)
                if c in l:      # the head follows, over what was skipped ahead of it
                    for _ in range(l.index(c) + 1): self.step_head(s)
            out.append((s, n))
        return out

    def resolve(self, st, v):
        """[(st, boundary | None)]: the boundary at byte offset v; None when there is none (inside a character, outside)"""
        l = to_lin(v)
        if l is None: raise Unsupported("offset %s" % (v[:2],))
        c, d = self.canlin(st, *l)
        if not d:
            if c == 0: return [(st, "Z")]
            if self.dist(st, "Z") is None: raise Unsupported("absolute offset %d" % c)
            return self.walk(st, "Z", c)
        if len(d) != 1: raise Unsupported("offset %s" % (v,))
        (k, n), = d.items()
        if k[0] != "pos" or n != 1: raise Unsupported("offset %s" % (v,))
        if c:
            t = self.at_dist(st, k[1], c)
            if t is not None: return [(st, t)]
        return self.walk(st, k[1], c)

    def exact(self, st, b):
        """{boundary: its known byte distance from b}"""
        b = self.can(st, b)
        es = {}
        for x in st.facts:
            if x[0] == "dist":
                u, v = self.can(st, x[2]), self.can(st, x[1])
                es.setdefault(u, []).append((v, x[3])); es.setdefault(v, []).append((u, -x[3]))
        l = self.line(st)
        for u, v in zip(l, l[1:]):
            w = width(st.facts.get(("cl", u), ANY))
            if len(w) == 1:
                c = min(w)
                es.setdefault(u, []).append((v, c)); es.setdefault(v, []).append((u, -c))
        d = {b: 0}
        wl = [b]
        while wl:
            x = wl.pop()
            for y, c in es.get(x, ()):
                if y not in d: d[y] = d[x] + c; wl.append(y)
        return d

    def at_dist(self, st, b, c):
        l = [x for x, n in self.exact(st, b).items() if n == c]
        return min(l, key=str) if l else None

    def base(self, st, b):
        d = self.exact(st, b)
        if len(d) == 1: return self.can(st, b), 0
        x = "S" if "S" in d else min(d, key=str)
        return x, -d[x]

    def canlin(self, st, c, d):
        out = {}
        for k, n in d.items():
            if k[0] == "pos": k = ("pos", self.can(st, k[1]))
            if k != ("pos", self.can(st, "Z")): out[k] = out.get(k, 0) + n
        out = {k: n for k, n in out.items() if n}
        if len(out) > 1:
            o2 = {}; c2 = c
            for k, n in out.items():
                if k[0] == "pos":
                    b, x = self.base(st, k[1])
                    k = ("pos", b); c2 += n * x
                o2[k] = o2.get(k, 0) + n
            o2 = {k: n for k, n in o2.items() if n}
            if len(o2) < len(out): return c2, o2
        return c, out

    def walk(self, st, b, c):
        if c == 0: return [(st, b)]
        if c < 0: return self.back(st, b, -c)
        out = []
        for s, n in self.peek(st, b, "END"):
            if n is None: out.append((s, None)); continue
            for s2, w in self.widths(s, b):
                if w <= c: out += self.walk(s2, n, c - w)
                else: out.append((s2, None))
        return out

    def widths(self, st, b):
        b = self.can(st, b)
        ws = width(self.klass(st, b))
        if len(ws) == 1: return [(st, ws.pop())]
        out = []
        for w in sorted(ws):
            s2 = st.copy()
            self.setclass(s2, b, inter(self.klass(s2, b), WCLS[w]))
            out.append((s2, w))
        return out

    def back(self, st, b, c):
        out = []
        for s0, p in self.prev(st, b, "Z"):
            if p is None: out.append((s0, None)); continue
            for s, w in self.widths(s0, p):
                if w <= c: out += self.walk(s, p, -(c - w))
                else: out.append((s, None))
        return out

    def order(self, st, a, b):
        """[(st, -1|0|1)]: boundary a before / at / after b"""
        a, b = self.can(st, a), self.can(st, b)
        if a == b: return [(st, 0)]
        if self.before(st, a, b): return [(st, -1)]
        if self.before(st, b, a): return [(st, 1)]
        if b == "END": return [(s, 0 if n is None else -1) for s, n in self.peek(st, a, "END")]
        if a == "END" or b == self.can(st, "Z"): return [(s, -r) for s, r in self.order(st, b, a)]
        return self.order_fork(st, a, b)

    def order_fork(self, st, a, b):
        out = []
        for r in (-1, 0, 1):
            if r == -1 and self.obviously(st, b, a) or r == 1 and self.obviously(st, a, b): continue
            s = st.copy()
            s.emit("ord", a, b, r, self.hd(s), self.ahead(s), tuple(self.names(s)))
            if r == 0:
                if not (self.alias(s, a, b) if a in self.line(s) else self.alias(s, b, a)): continue
            else: s.facts[("ord", a, b)] = r
            # a new pass starts where the head is
            out.append((s, r))
        return out

    # -------------------------------------------------- conditions
    def isch(self, v): return v[0] in ("ch", "byte", "hb")

    def binop(self, I, st, op, a, b):
        if self.isch(a) or self.isch(b):
            flip = self.isch(b)
            x, y = (b, a) if flip else (a, b)
            if y[0] not in ("c", "i"): return None
            n = y[1]
            o = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op) if flip else op
            iv = {"Eq": ((n, n),), "Ne": ((n, n),), "Lt": ((0, n - 1),), "Le": ((0, n),), "Gt": ((n + 1, MAXCH),), "Ge": ((n, MAXCH),)}.get(o)
            if iv is None: return None
            r = self.incl(x, cls(*iv))
            return ("not", r) if o == "Ne" else r
        return None

    def incl(self, x, iv):
        if x[0] == "hb":
            c = inter(iv, ((0x80, 0xff),))
            if not c: return ("b", False)
            if c == ((0x80, 0xff),): return ("b", True)
            raise Unsupported("bytes of multi-byte characters are told apart")
        return ("incl", ("ch", x[1]), iv)

    def char_class(self, I, st, v, iv):
        return self.incl(v, cls(*iv)) if self.isch(v) else None

    def eq(self, I, st, a, b):
        if self.isch(a) or self.isch(b):
            if not (self.isch(a) and self.isch(b)): return self.binop(I, st, "Eq", a, b)
            raise Unsupported("two characters of the text are compared")
        if b[0] == "ts": a, b = b, a
        if a[0] == "ts" and b[0] == "s": return ("tseq", a, b[1])
        if a[0] == "ts" and b[0] == "by": return ("tseq", a, b[1].decode())
        if a[0] == "ts" and b == a: return ("b", True)
        return None

    def condition(self, I, st, v):
        neg = False
        while v[0] == "not": neg = not neg; v = v[1]
        return [(s, b != neg) for s, b in self.cond(I, st, v)]

    def cond(self, I, st, v):
        k = v[0]
        if k == "b": return [(st, v[1])]
        if k == "not": return [(s, not b) for s, b in self.cond(I, st, v[1])]
        if k == "incl": return self.refine(st, v[1][1], v[2])
        if k == "tseq":
            out = []
            for s, b, m in self.match(st, v[1][1][1], v[1][2][1], v[2]):
                if m != "full": out.append((s, False)); continue
                for s2, n in self.peek(s, b, v[1][2][1]): out.append((s2, n is None))
            return out
        if k == "and":
            out = []
            for s, b in self.cond(I, st, v[1]): out += self.cond(I, s, v[2]) if b else [(s, False)]
            return out
        if k == "or":
            out = []
            for s, b in self.cond(I, st, v[1]): out += [(s, True)] if b else self.cond(I, s, v[2])
            return out
        if k in ("eq", "lt"):
            d = lin_add(v[1], v[2], -1)
            l = to_lin(d) if d else None
            if l is not None and any(x[0] == "pos" for x in l[1]): return self.compare(st, k, l)
        return self.other_condition(I, st, v)

    def other_condition(self, I, st, v):
        if v[0] in ("eq", "lt"):
            l = to_lin(lin_add(v[1], v[2], -1))
            if l and len(l[1]) == 1:
                c, ((k, n),) = l[0], l[1].items()
                z = st.facts.get(("rng", k))
                if n == -1 and v[0] == "eq": c, n = -c, 1
                r = None
                if z is not None:
                    lo = c + n * z[0] if n > 0 else None if z[1] is None else c + n * z[1]
                    hi = c + n * z[0] if n < 0 else None if z[1] is None else c + n * z[1]
                    if v[0] == "eq" and lo == hi: r = lo == 0
                    elif v[0] == "eq" and (lo is not None and lo > 0 or hi is not None and hi < 0): r = False
                    elif v[0] == "lt" and hi is not None and hi < 0: r = True
                    elif v[0] == "lt" and lo is not None and lo >= 0: r = False
                if r is None and abs(n) == 1 and k[0] == "sym" and k[2][0] == "uint": r = implied(st, k, v[0], c, n)
                if r is not None: return [(st, r)]
        if "'top'" in repr(v): raise Unsupported("the control flow depends on %s" % (v,))
        return I.fork_fact(st, v)

    def compare(self, st, k, l):
        """pos(a) - pos(b) + c  ==/<  0"""
        c, d = self.canlin(st, *l)
        if not d: return [(st, c == 0 if k == "eq" else c < 0)]
        plus = [x[1] for x, n in d.items() if n == 1]; mins = [x[1] for x, n in d.items() if n == -1]
        if any(x[0] != "pos" for x in d) or len(plus) + len(mins) != len(d) or len(plus) > 1 or len(mins) > 1: raise Unsupported("comparison of offsets")
        a = plus[0] if plus else "Z"; b = mins[0] if mins else "Z"
        if k == "lt" and self.atleast(st, b, a) >= -c: return [(st, False)]
        flip = c > 0
        if flip: a, b, c = b, a, -c
        # pos(a) against pos(b) + (-c)
        a, b = self.can(st, a), self.can(st, b)
        if self.atleast(st, b, a) > -c: return [(st, (False if k == "eq" else flip))]
        if self.atleast(st, a, b) > c: return [(st, (False if k == "eq" else not flip))]
        if c < -self.FAR: return [(st.copy(), True), (st, False)]       # far apart: either may be (an over-approximation)
        out = []
        for s, x, over in self.walk_cmp(st, b, -c, a):
            if x is None: out.append((s, -1)); continue
            for s2, r in self.order(s, a, x): out.append((s2, 1 if over and r >= 0 else r))
        return [(s, ((-r if flip else r) == 0) if k == "eq" else (-r if flip else r) < 0) for s, r in out]

    def walk_cmp(self, st, b, c, a):
        if c == 0: return [(st, b, 0)]
        out = []
        for s, n in self.peek(st, b, a):
            if n is None: out.append((s, None, 0)); continue
            for s2, w in self.widths(s, b):
                if w >= c: out.append((s2, n, w - c))
                else: out += self.walk_cmp(s2, n, c - w, a)
        return out

    def match(self, st, b, hi, text):
        """[(st, boundary reached, "full" | "no")]"""
        if not text: return [(st, b, "full")]
        out = []
        for s, n in self.peek(st, b, hi):
            if n is None: out.append((s, b, "no")); continue
            for s2, r in self.refine(s, b, ((ord(text[0]), ord(text[0])),)):
                if r: out += self.match(s2, n, hi, text[1:])
                else: out.append((s2, b, "no"))
        return out

    def switch(self, I, st, v, arms, els):
        if v[0] == "hb": return [(st, els)] if all(n < 0x80 for n, _ in arms) else None
        if v[0] not in ("ch", "byte"): raise Unsupported("switch on %s" % (v[:2],))
        b = self.can(st, v[1])
        cur = self.klass(st, b)
        by = {}
        for n, bb in arms:
            if inter(cur, ((n, n),)): by.setdefault(bb, []).append((n, n))
        rest = minus(cur, cls(*[x for l in by.values() for x in l]))
        if rest: by[els] = list(by.get(els, [])) + list(rest)
        out = []
        for bb, l in by.items():
            s = st.copy()
            c = cls(*l)
            if c != cur: self.setclass(s, b, c)
            out.append((s, bb))
        return out

    def cast(self, I, st, v, t, kind):
        if v[0] == "hb" and t[0] in ("uint", "int"): return v
        if v[0] in ("ch", "byte"):
            if t[0] in ("uint", "int"):
                bits = {"u8": 0xff, "u16": 0xffff}.get(t[1], MAXCH)
                if all(b <= bits for a, b in self.klass(st, v[1])): return v
                raise Unsupported("a character is truncated")
            if t == ("char",): return v
        if v[0] in ("lin", "pos", "cnt", "nchars") and t[0] in ("uint", "int") and t[1] in ("usize", "u64", "isize", "i64"): return v
        return None

    def len_utf8(self, I, st, v):
        if v[0] != "ch": return None
        return [x for s, w in self.widths(st, v[1]) for x in I.ret(s, ("i", w))]

    # -------------------------------------------------- strings
    def length(self, I, st, v):
        if v[0] == "ts": return lin_add(v[2], v[1], -1)
        return None

    def slice_index(self, I, st, v, ix, info):
        if v[0] != "ts": return None
        if ix[0] != "adt":
            out = []
            for s, a in self.resolve(st, lin_add(v[1], ix, 1)):
                if a is None: raise Unsupported("a byte inside a character is read")
                for s2, n in self.peek(s, a, v[2][1]):
                    if n is None: out += I.do_panic(s2, "index", (v, ix)); continue
                    for s3, w in self.widths(s2, a): out += I.ret(s3, refv(("byte", a) if w == 1 else ("hb",)))
            return out
        lo, hi = range_bounds(ix)
        lo = v[1] if lo is None else lin_add(v[1], lo, 1)
        hi = v[2] if hi is None else lin_add(v[1], hi, 1)
        return self.cut(I, st, v, lo, hi, lambda s, x: I.ret(s, refv(x)), lambda s: I.do_panic(s, "slice", (v, lo, hi)))

    def cut(self, I, st, v, lo, hi, good, bad):
        if lo is None or hi is None: raise Unsupported("slice bounds")
        out = []
        for s, a in self.resolve(st, lo):
            if a is None: out += bad(s); continue
            for s2, b in self.resolve(s, hi):
                if b is None: out += bad(s2); continue
                work = [s2]
                for x, y in ((a, b), (b, v[2][1]), (v[1][1], a)):
                    nxt = []
                    for s3 in work:
                        if self.obviously(s3, self.can(s3, x), self.can(s3, y)): nxt.append(s3); continue
                        for s4, r in self.order(s3, x, y):
                            if r <= 0: nxt.append(s4)
                            else: out += bad(s4)
                    work = nxt
                for s3 in work: out += good(s3, ("ts", pos(self.can(s3, a)), pos(self.can(s3, b))))
        return out

    def obviously(self, st, x, y):
        if x == y or x == self.can(st, "Z") or y == "END": return True
        return self.atleast(st, x, y) >= 0

    # -------------------------------------------------- iterators
    def make_iter(self, I, st, v, n, args, info):
        if v[0] == "ts":
            if n in ("str::chars", "str::char_indices"): return IT(n[5:], v[1], v[1], v[2])
            if n in ("str::match_indices", "str::matches") and len(args) > 1:
                p = I.val(st, args[1])
                if p[0] == "c": p = ("s", chr(p[1]))
                if p[0] == "s": return IT("matches", v[1], v[1], v[2], p, ("k", 0), ("b", n == "str::match_indices"))
            if n in ("str::bytes", "slice::iter", "IntoIterator::into_iter"): return IT("bytes", v[1], v[1], v[2], ("k", 0), ("b", n != "str::bytes"))
        return None

    def adapt(self, I, st, it, n, args):
        v = I.val(st, it)
        if n == "enumerate" and v[0] == "adt" and v[1] == "it::bytes" and v[3][0] == v[3][1]: return IT("byte_indices", *v[3])
        return None

    def iter_next(self, I, st, a, v):
        if v[0] != "adt": return None
        k = v[1]
        if k in ("it::chars", "it::char_indices"):
            cur, base, hi = v[3]
            out = []
            for s, n in self.take(st, cur[1], hi[1]):
                if n is None: out += I.ret(s, NONE); continue
                I.addr_write(s, a, IT(k[4:], pos(n), base, hi))
                x = ("ch", self.can(s, cur[1]))
                out += I.ret(s, some(x if k == "it::chars" else ("tup", (lin_add(pos(x[1]), base, -1), x))))
            return out
        if k in ("it::bytes", "it::byte_indices"):
            cur, base, hi, left, byref = v[3]
            rf = refv if byref[1] else lambda x: x
            idx = lin_add(lin_add(cur, base, -1), ("i", left[1]), -1) if left[1] else lin_add(cur, base, -1)
            wrap = rf if k == "it::bytes" else (lambda x: ("tup", (idx, rf(x))))
            if left[1]:
                I.addr_write(st, a, IT(k[4:], cur, base, hi, ("k", left[1] - 1), byref))
                return I.ret(st, some(wrap(("hb",))))
            out = []
            for s, n in self.take(st, cur[1], hi[1]):
                if n is None: out += I.ret(s, NONE); continue
                c = self.can(s, cur[1])
                for s2, w in self.widths(s, c):
                    I.addr_write(s2, a, IT(k[4:], pos(n), base, hi, ("k", w - 1), byref))
                    out += I.ret(s2, some(wrap(("byte", c) if w == 1 else ("hb",))))
            return out
        if k == "it::matches":
            I.pushk(st, "t:matches", a=a)
            st.stop = True
            return [st]
        return None

    def str_method(self, I, st, n, v, args, info):
        if v[0] != "ts": return None
        p = I.val(st, args[1]) if len(args) > 1 else None
        if n in ("starts_with", "strip_prefix") and p is not None:
            if p[0] == "c": p = ("s", chr(p[1]))
            out = []
            if p[0] in ("s", "by"):
                t = p[1] if p[0] == "s" else p[1].decode()
                for s, b, m in self.match(st, v[1][1], v[2][1], t):
                    if n == "starts_with": out += I.ret(s, ("b", m == "full"))
                    else: out += I.ret(s, some(refv(("ts", pos(b), v[2]))) if m == "full" else NONE)
                return out
            cs = self.charset(I, st, p)
            strip = n == "strip_prefix"
            for s, nx in self.peek(st, v[1][1], v[2][1]):
                if nx is None: out += I.ret(s, NONE if strip else ("b", False)); continue
                if cs is None:
                    if strip: I.pushk(s, "t:stripp", nx=pos(nx), hi=v[2])
                    out += I.invoke(s, args[1], [("ch", self.can(s, v[1][1]))]); continue
                for s2, r in self.refine(s, v[1][1], cs):
                    out += I.ret(s2, ("b", r) if not strip else some(refv(("ts", pos(nx), v[2]))) if r else NONE)
            return out
        if n == "ends_with" and p is not None:
            if p[0] == "c": p = ("s", chr(p[1]))
            if p[0] == "s": return [x for s, r in self.ends_with(st, v, p[1]) for x in I.ret(s, ("b", r))]
        if n == "get" and p is not None and p[0] == "adt":
            lo, hi = range_bounds(p)
            lo = v[1] if lo is None else lin_add(v[1], lo, 1)
            hi = v[2] if hi is None else lin_add(v[1], hi, 1)
            return self.cut(I, st, v, lo, hi, lambda s, x: I.ret(s, some(refv(x))), lambda s: I.ret(s, NONE))
        if n == "split_at":
            at = lin_add(v[1], p, 1)
            return self.cut(I, st, v, v[1], at, lambda s, x: I.ret(s, ("tup", (refv(x), refv(("ts", x[2], v[2]))))), lambda s: I.do_panic(s, "slice", (v, at)))
        if n in ("find", "contains") and p is not None:
            I.pushk(st, "t:find", base=v[1], hi=v[2], cur=v[1], pat=p, n=("s", n), kmp=("k", 0), arg=args[1])
            st.stop = True
            return [st]
        if n == "rfind" and p is not None:
            if p[0] == "s" and len(p[1]) == 1: p = ("c", ord(p[1]))
            cs = self.charset(I, st, p)
            if cs is not None:
                I.pushk(st, "t:rfind", base=v[1], hi=v[2], cur=v[1], cs=cs, last=NONE, must=("b", False))
                st.stop = True
                return [st]
        if n in ("trim_start_matches", "trim_start", "trim_left", "trim_left_matches"):
            cs = WS if n in ("trim_start", "trim_left") else self.charset(I, st, p)
            if cs is not None or n == "trim_start_matches":
                I.pushk(st, "t:trim", hi=v[2], cur=v[1], cs=cs, arg=args[1] if len(args) > 1 else None)
                st.stop = True
                return [st]
        return None

    def charset(self, I, st, p):
        if p[0] == "c": return ((p[1], p[1]),)
        if p[0] == "vec" and all(I.val(st, x)[0] == "c" for x in p[1]): return cls(*[(I.val(st, x)[1], I.val(st, x)[1]) for x in p[1]])
        return None

    def ends_with(self, st, v, text):
        """[(st, bool)]: the characters before boundary v.hi, not beyond v.lo"""
        if not text: return [(st, True)]
        out = []
        for s, p in self.prev(st, v[2][1], v[1][1]):
            if p is None: out.append((s, False)); continue
            for s2, r in self.refine(s, p, ((ord(text[-1]), ord(text[-1])),)):
                if r and len(text) > 1: out += self.ends_with(s2, (v[0], v[1], pos(p)), text[:-1])
                else: out.append((s2, r))
        return out

    def prev(self, st, b, lo):
        """[(st, boundary of the character before b | None when b is lo)]"""
        b, lo = self.can(st, b), self.can(st, lo)
        if b == lo: return [(st, None)]
        return self.behind(st, b, lo)

    def back_over(self, st, b, text):
        """the boundary before the text that is known to end at b"""
        for c in reversed(text):
            (st, b), = self.behind(st, self.can(st, b), None)
            st.facts[("cl", b)] = ((ord(c), ord(c)),)
        return b

    def behind(self, st, b, lo):
        l = self.line(st)
        if b not in l:
            self.switch_head(st, b)
            l = self.line(st)
        i = l.index(b)
        out = []
        if lo is None:
            if i: return [(st, l[i - 1])]
        elif i and (lo in l or self.before(st, lo, b)): return [(st, l[i - 1])] if lo not in l or l.index(lo) < i else [(st, None)]
        if lo is not None and not self.before(st, lo, b):
            s = st.copy()
            if self.reach(s, b, lo): out.append((s, None))
            self.notat(st, b, lo)
            st.facts[("ord", lo, b)] = -1
        if i: return out + [(st, l[i - 1])]
        # look behind the known part of the text
        n = self.fresh(st)
        # without lo, the text before b is one that was found there
        if lo is not None and not self.before(st, "S", l[0]): st.ext["bkS"] = True
        st.emit("bk", len(st.ext["win"]) + 1, n)
        st.ext["win"] = (n,) + st.ext["win"]
        st.facts[("cl", n)] = ANY
        return out + [(st, n)]

    # -------------------------------------------------- hash points
    SKIP = ("hd", "win", "ahd", "nb", "bkS")

    def head(self, I, st):
        e = st.ext
        al = {k[1]: self.can(st, k[1]) for k in st.facts if k[0] == "al"}
        if al:
            for f in st.frames:
                for k in f.loc: f.loc[k] = rename(f.loc[k], al)
            for k in e:
                if k not in self.SKIP: e[k] = rename(e[k], al)
            e["hd"] = self.can(st, e["hd"]); e["win"] = tuple(self.can(st, x) for x in e["win"]); e["ahd"] = tuple(self.can(st, x) for x in e["ahd"])
        for f in st.frames:
            for k in f.loc: f.loc[k] = self.simplify(st, f.loc[k])
        self.counters(I, st)
        acc = []
        for f in st.frames:
            for k in sorted(f.loc, key=str): bounds_in(f.loc[k], acc)
        for k in sorted(e, key=str):
            if k not in self.SKIP: bounds_in(e[k], acc)
        chs = []
        for f in st.frames:
            for k in f.loc: chars_in(f.loc[k], chs)
        for k in e:
            if k not in self.SKIP: chars_in(e[k], chs)
        # known byte distances between named boundaries
        bs, off = None, 0
        l = self.line(st)
        for i, b in enumerate(l):
            if bs is None:
                if b in acc: bs, off = b, 0
            elif b in acc and b not in FIXED and not any(k[0] == "dist" and k[1] == b for k in st.facts): st.facts[("dist", b, bs, off)] = True
            w = width(self.klass(st, b)) if i < len(l) - 1 else ()
            if len(w) == 1 and bs is not None: off += min(w)
            else: bs = None
        cx = set(); ints = set(); cx1 = set()
        for f in st.frames:
            for v in f.loc.values(): complex_in(v, cx, cx1); ints_in(v, ints)
        win = e["win"]
        n = self.keepwin(win, cx1)
        for b in win[:-n]:
            if b in acc: st.facts[("far", b)] = True
        win = win[-n:]
        while win and win[0] not in acc: win = win[1:]
        e["win"] = win
        line = [e["hd"]] + list(e["ahd"])
        for k in [k for k in st.facts if k[0] == "cl" and k[1] not in line and k[1] not in chs]:
            w = width(st.facts[k])
            if k[1] in win and len(w) == 1: st.facts[k] = WCLS[min(w)]
            else: del st.facts[k]
        for k in [k for k in st.facts if k[0] == "far" and k[1] not in cx or k[0] == "dist" and k[1] not in cx1 and k[2] not in cx1 and k[3] not in ints]: del st.facts[k]
        m = {}
        for b in list(win) + [e["hd"]] + list(e["ahd"]) + acc:
            if b in FIXED or b == "S" or b in m: continue
            m[b] = len(m) + 1
        keep = set(m) | {"S", "END", "Z"}
        st.emit("ren", tuple(sorted(m.items(), key=str)))
        for f in st.frames:
            for k in f.loc: f.loc[k] = rename(f.loc[k], m)
        e["hd"] = m.get(e["hd"], e["hd"]); e["win"] = tuple(m.get(x, x) for x in e["win"]); e["ahd"] = tuple(m.get(x, x) for x in e["ahd"])
        for k in list(e):
            if k not in self.SKIP: e[k] = rename(e[k], m)
        e["nb"] = len(m) + 1
        nf = {}
        g = lambda b: m.get(b, b)
        for k, v in st.facts.items():
            if k[0] == "al":
                if k[1] in PRIO: nf[k] = v
                continue
            if al and k[0] in ("cl", "ord", "le", "pre", "nat", "far"): k = (k[0],) + tuple(al.get(x, x) for x in k[1:])
            if k[0] in ("cl", "ord", "le", "pre", "nat", "far"):
                if all(x in keep for x in k[1:]) and (len(k) < 3 or k[1] != k[2]): nf[(k[0],) + tuple(g(x) for x in k[1:])] = v
            elif k[0] == "dist":
                b1, b2 = al.get(k[1], k[1]), al.get(k[2], k[2])
                if b1 in keep and b2 in keep and b1 != b2: nf[("dist", g(b1), g(b2), k[3])] = v
            else:
                if al: k = rename(k, al)
                b = []
                bounds_in(k, b)
                if all(x in keep for x in b): nf[rename(k, m)] = v
        st.facts = nf

    def simplify(self, st, v):
        """offsets made from others at known distances"""
        if not isinstance(v, tuple) or not v: return v
        if v[0] == "lin":
            l = to_lin(v)
            if not any(k[0] == "pos" for k in l[1]): return v
            c, d = self.canlin(st, *l)
            ps = [k for k, n in d.items() if k[0] == "pos" and n == 1]
            if c and len(ps) == 1:
                t = self.at_dist(st, ps[0][1], c)
                if t is not None:
                    d = dict(d); del d[ps[0]]; c = 0
                    d[("pos", t)] = d.get(("pos", t), 0) + 1
            return mk_lin(c, d) if any(k[0] == "pos" for k in d) else v
        out = None
        for i, x in enumerate(v):
            if isinstance(x, tuple):
                y = self.simplify(st, x)
                if y is not x:
                    if out is None: out = list(v)
                    out[i] = y
        return tuple(out) if out is not None else v

    def leaves(self, v, path, out):
        if v[0] in ("i", "lin", "cnt", "pos"): out.append((path, v))
        elif v[0] == "tup":
            for i, x in enumerate(v[1]): self.leaves(x, path + (i,), out)
        elif v[0] == "adt" and not v[1].startswith("std::ops::Range"):
            for i, x in enumerate(v[3]): self.leaves(x, path + (i,), out)

    def counters(self, I, st):
        """counters are kept symbolic: their updates become events"""
        site = tuple((f.raw, f.bb, f.i) for f in st.frames)
        tab = self.seen.setdefault(site, {})
        sets = []; put = []; moved = {}
        for d, f in enumerate(st.frames):
            for l in sorted(f.loc, key=str):
                v = f.loc[l]
                if not isinstance(v, tuple) or v[0] not in ("i", "lin", "tup", "adt", "cnt"): continue
                out = []
                self.leaves(v, (), out)
                for path, x in out:
                    key = (f.raw if f.kind == "mir" else self.within(st, d), str(l), path)
                    if key in self.regs:
                        name = self.regname(key)
                        if x != ("cnt", name):
                            st.emit("set", name, x)
                            moved[name] = self.shift(name, x)
                            l_ = to_lin(x)
                            z = None
                            if l_ and all(n > 0 for n in l_[1].values()):
                                known = [(st.facts.get(("rng", k)), n) for k, n in l_[1].items()]
                                lo = l_[0] + sum(n * r[0] for r, n in known if r)
                                hi = l_[0] + sum(n * r[1] for r, n in known) if all(r and r[1] is not None for r, n in known) else None
                                if lo == hi and 0 <= lo <= self.CAP: z = (lo, hi)
                                elif lo > 0 and (not known or any(r for r, n in known)): z = (min(lo, self.CAP + 1), None)
                            sets.append((("rng", ("cnt", name)), z))
                            put.append((f, l, path, name))
                    elif (x[0] == "i" or x[0] == "lin") and not has_pos(x):
                        if x[0] == "i" and x[1] > 0 and ("dist",) + key in self.regs:
                            y = self.as_distance(st, x[1])
                            if y is not None:
                                f.loc[l] = putleaf(f.loc[l], path, y)
                                continue
                        s = tab.setdefault(key, set())
                        s.add(x)
                        if len(s) > self.REGLIM: raise Widen(key if ("dist",) + key in self.regs or not self.DIST else ("dist",) + key)
                    elif x[0] == "lin" and ("dist",) + key in self.regs:
                        s = tab.setdefault(("dist",) + key, set())
                        s.add(x[1])
                        if len(s) > self.REGLIM: raise Widen(key)
                    elif x[0] == "lin":
                        s = tab.setdefault(("off",) + key, set())
                        s.add(x[1])
                        if len(s) > 4 * self.REGLIM: raise Widen(key)
        if moved:
            # what was taken from a counter before
            for f, l, path, name in put: f.loc[l] = putleaf(f.loc[l], path, ("i", 0))
            for f in st.frames:
                for l, v in list(f.loc.items()):
                    y = subcnt(v, moved)
                    if y is not v: f.loc[l] = y
            for f, l, path, name in put: f.loc[l] = putleaf(f.loc[l], path, ("cnt", name))
            for k in [k for k in st.facts if k[0] != "rng" and mentions(k, moved)]: del st.facts[k]
        for k, z in sets:
            st.facts.pop(k, None)
            if z is not None: st.facts[k] = z

    def within(self, st, d):
        """a name for a loop of the library by where it is called"""
        for g in reversed(st.frames[:d]):
            if g.kind == "mir": return "%s@%s:%d" % (st.frames[d].raw, g.raw.split("::")[-1], g.bb)
        return st.frames[d].raw

    DIST = True         # are counters that count bytes turned into distances

    def as_distance(self, st, n):
        """n as the distance of two boundaries"""
        bs = ["S"]
        for f in st.frames:
            for v in f.loc.values(): starts_in(v, bs)
        for b in bs:
            if b in FIXED: continue
            t = self.at_dist(st, b, n)
            if t is not None: return mk_lin(0, {("pos", t): 1, ("pos", self.can(st, b)): -1})
        return None

    def shift(self, name, x):
        """what the old value of a counter is in terms of its new one"""
        l = to_lin(x)
        if l and l[1] == {("cnt", name): 1}: return mk_lin(-l[0], l[1])
        return ("top", "an old counter")

    def regname(self, key): return "%s.%s%s" % (key[0].split("::")[-1], key[1], "".join(".%d" % i for i in key[2]))

    def display(self, I, st, how, spec, v): return ("s", "?") if v[0] != "s" else None


WS = ((9, 13), (32, 32), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a), (0x2028, 0x2029), (0x202f, 0x202f), (0x205f, 0x205f), (0x3000, 0x3000))


def mentions(v, names):
    if not isinstance(v, tuple): return False
    if len(v) == 2 and v[0] == "cnt": return v[1] in names
    return any(mentions(x, names) for x in v)


def subcnt(v, m):
    """v with counters replaced"""
    if not isinstance(v, tuple) or not v: return v
    if v[0] == "cnt" and len(v) == 2: return m.get(v[1], v)
    if v[0] == "lin":
        if not mentions(v, m): return v
        c, d = v[1], {}
        for k, n in v[2]:
            y = subcnt(k, m)
            l = to_lin(y)
            if l is None: return ("top", "an old counter")
            c += n * l[0]
            for k2, n2 in l[1].items(): d[k2] = d.get(k2, 0) + n * n2
        return mk_lin(c, d)
    out = None
    for i, x in enumerate(v):
        y = subcnt(x, m)
        if y is not x:
            if out is None: out = list(v)
            out[i] = y
    return tuple(out) if out is not None else v


def kmp_next(pat, k, c):
    """length of the longest prefix of pat that ends the text pat[:k] + c"""
    t = pat[:k] + c
    for n in range(min(len(pat), len(t)), 0, -1):
        if t.endswith(pat[:n]): return n
    return 0


def kmp_step(dom, st, b, pat, k):
    """[(st, next k)] for the character at b"""
    out = []
    rest = [st]
    for c in sorted(set(pat)):
        nxt = []
        for s in rest:
            for s2, r in dom.refine(s, b, ((ord(c), ord(c)),)):
                if r: out.append((s2, kmp_next(pat, k, c)))
                else: nxt.append(s2)
        rest = nxt
    return out + [(s, 0) for s in rest]


def r_matches(I, st, fr):
    """one character of a search for the next match"""
    a = fr.loc["a"]
    dom = I.dom
    cur, base, hi, pat, k, ind = I.addr_read(st, a)[3]
    out = []
    for s, n in dom.take(st, cur[1], hi[1]):
        if n is None:
            s.frames.pop()
            out += I.ret(s, NONE); continue
        for s2, k2 in kmp_step(dom, s, cur[1], pat[1], k[1]):
            if k2 == len(pat[1]):
                I.addr_write(s2, a, IT("matches", pos(n), base, hi, pat, ("k", 0), ind))
                s2.frames.pop()
                m = dom.back_over(s2, n, pat[1])
                if base[0] == "pos" and not dom.obviously(s2, base[1], m): s2.facts[("le", base[1], m)] = True
                off = lin_add(pos(m), base, -1)
                out += I.ret(s2, some(("tup", (off, refv(pat))) if ind[1] else refv(pat)))
            else:
                I.addr_write(s2, a, IT("matches", pos(n), base, hi, pat, ("k", k2), ind))
                s2.stop = True
                out.append(s2)
    return out


def r_find(I, st, fr):
    dom = I.dom
    L = fr.loc
    out = []
    cur = L["cur"]
    n_ = L["n"][1]
    pat = L["pat"]

    def done(s, b):
        s.frames.pop()
        if n_ == "contains": return I.ret(s, ("b", b is not None))
        return I.ret(s, NONE if b is None else some(lin_add(pos(b), L["base"], -1)))
    if pat[0] == "s" and pat[1] == "": return done(st, cur[1])
    for s, n in dom.take(st, cur[1], L["hi"][1]):
        if n is None: out += done(s, None); continue
        s.top.loc["cur"] = pos(n)
        if pat[0] == "s":
            for s2, k2 in kmp_step(dom, s, cur[1], pat[1], L["kmp"][1]):
                if k2 == len(pat[1]):
                    out += done(s2, dom.back_over(s2, n, pat[1]))
                else:
                    s2.top.loc["kmp"] = ("k", k2)
                    s2.stop = True
                    out.append(s2)
            continue
        cs = dom.charset(I, s, pat)
        if cs is None:
            s.top.loc["prev"] = cur
            s.top.raw = "t:findp"
            out += I.invoke(s, L["arg"], [("ch", dom.can(s, cur[1]))])
            continue
        for s2, r in dom.refine(s, cur[1], cs):
            if r: out += done(s2, dom.can(s2, cur[1]))
            else:
                s2.stop = True
                out.append(s2)
    return out


def r_rfind(I, st, fr):
    """the last match is guessed; the rest of the text confirms it"""
    dom = I.dom
    L = fr.loc
    out = []
    cur, last = L["cur"], L["last"]
    for s, n in dom.take(st, cur[1], L["hi"][1]):
        if n is None:
            if s.top.loc["must"][1]: continue
            x = last
            s.frames.pop()
            out += I.ret(s, x if x == NONE else some(lin_add(x, L["base"], -1)))
            continue
        for s2, r in dom.refine(s, cur[1], L["cs"]):
            s2.top.loc["cur"] = pos(n); s2.stop = True
            if not r: out.append(s2); continue
            if last != NONE: continue
            s3 = s2.copy(); s3.stop = True
            s3.top.loc["must"] = ("b", True)
            out.append(s3)
            s2.top.loc["must"] = ("b", False)
            s2.top.loc["last"] = pos(dom.can(s2, cur[1]))
            out.append(s2)
    return out


@kont("t:findp")
def k_findp(I, st, fr, v):
    out = []
    for s, r in I.truth(st, v):
        p = s.top.loc.pop("prev")
        s.top.raw = "t:find"
        if r:
            n_ = s.top.loc["n"][1]; base = s.top.loc["base"]
            s.frames.pop()
            out += I.ret(s, ("b", True) if n_ == "contains" else some(lin_add(pos(I.dom.can(s, p[1])), base, -1)))
        else:
            s.stop = True
            out.append(s)
    return out


def r_trim(I, st, fr):
    dom = I.dom
    L = fr.loc
    out = []
    for s, n in dom.peek(st, L["cur"][1], L["hi"][1]):
        b = dom.can(s, L["cur"][1])
        if n is None:
            s.frames.pop(); out += I.ret(s, refv(("ts", pos(b), L["hi"]))); continue
        if L["cs"] is None:
            s.top.raw = "t:trimp"
            s.top.loc["nx"] = pos(n)
            out += I.invoke(s, L["arg"], [("ch", b)]); continue
        for s2, r in dom.refine(s, b, L["cs"]):
            if r:
                dom.step_head(s2)
                s2.top.loc["cur"] = pos(n); s2.stop = True
                out.append(s2)
            else:
                s2.frames.pop(); out += I.ret(s2, refv(("ts", pos(b), L["hi"])))
    return out


@kont("t:trimp")
def k_trimp(I, st, fr, v):
    out = []
    for s, r in I.truth(st, v):
        s.top.raw = "t:trim"
        L = s.top.loc
        n = L.pop("nx")
        if r:
            I.dom.step_head(s)
            L["cur"] = n; s.stop = True
            out.append(s)
        else:
            cur, hi = L["cur"], L["hi"]
            s.frames.pop(); out += I.ret(s, refv(("ts", pos(I.dom.can(s, cur[1])), hi)))
    return out


@kont("t:stripp")
def k_stripp(I, st, fr, v):
    L = fr.loc
    st.frames.pop()
    return [x for s, r in I.truth(st, v) for x in I.ret(s, some(refv(("ts", L["nx"], L["hi"]))) if r else NONE)]


M.RESUME.update({"t:matches": r_matches, "t:find": r_find, "t:rfind": r_rfind, "t:trim": r_trim})


class Widen(Exception):
    pass


def putleaf(v, path, x):
    if not path: return x
    i = path[0]
    if v[0] == "tup": return ("tup", v[1][:i] + (putleaf(v[1][i], path[1:], x),) + v[1][i + 1:])
    return ("adt", v[1], v[2], v[3][:i] + (putleaf(v[3][i], path[1:], x),) + v[3][i + 1:])




def has_pos(v):
    acc = []
    bounds_in(v, acc)
    return bool(acc)
