"""Reference automata for the lexical grammar, and comparison with what was extracted from the code."""
from lang import Aut, E0, trim, once, relabel, product, det, marks_of, pick, word
from tape import cls, chars, minus, ANY
from interp import Unsupported

NAMESTART = cls((65, 90), (95, 95), (97, 122))
DIGIT = cls((48, 57))
NAMECONT = cls(*(NAMESTART + DIGIT))
PUNCT1 = chars("!$&():=@[]{|}")
BOM = ((0xfeff, 0xfeff),)
IGN1 = cls(*(chars(" \t\n\r,") + BOM))
HASH = chars("#")
EOL = chars("\n\r")
ESC = chars('"\\/bfnrt')
HEX = cls((48, 57), (65, 70), (97, 102))
START = cls(*(NAMESTART + DIGIT + PUNCT1 + chars('.-"')))      # characters that can start a token
CLASSES = (NAMESTART, DIGIT, NAMECONT, PUNCT1, BOM, IGN1, HASH, EOL, ESC, HEX, START, chars("0"), chars("-"), chars("+"), chars("."), chars("eE"), chars('"'), chars("\\"), chars("\n"), chars("\r"),
           chars("\t"), chars("(["), chars("{"), chars(")"), chars("]"), chars("}"), chars("u"), chars(" "), chars("!"), chars(","))


# ------------------------------------------------------------------ regular expressions over text
def C(c): return ("c", c)
def T(s): return ("seq",) + tuple(C(chars(x)) for x in s)
def Seq(*l): return ("seq",) + l
def Alt(*l): return ("alt",) + l
def Star(x): return ("star", x)
def Plus(x): return Seq(x, Star(x))
def Opt(x): return Alt(Seq(), x)
def Mk(*n): return ("mark",) + n
END = ("end",)
def Ahead(c, end=True):
    """the next character is in c (or the text ends)"""
    return ("ahead", c, end)


class Nfa:
    def __init__(self, al, weights=None):
        self.al = al
        self.eps = []
        self.let = []

    def new(self):
        self.eps.append([]); self.let.append([])
        return len(self.eps) - 1

    def add(self, x, s):
        """-> end state"""
        k = x[0]
        if k == "c":
            t = self.new(); self.let[s].append((self.al.mask(x[1]) & self.al.CHARS, x[2] if len(x) > 2 else 0, t)); return t
        if k == "end":
            t = self.new(); self.let[s].append((self.al.END, 0, t)); return t
        if k == "seq":
            for y in x[1:]: s = self.add(y, s)
            return s
        if k == "alt":
            t = self.new()
            for y in x[1:]:
                a = self.new(); self.eps[s].append((None, a))
                self.eps[self.add(y, a)].append((None, t))
            return t
        if k == "star":
            a = self.new(); self.eps[s].append((None, a))
            self.eps[self.add(x[1], a)].append((None, a))
            t = self.new(); self.eps[a].append((None, t))
            return t
        if k == "mark":
            t = self.new(); self.eps[s].append((("m",) + x[1:], t)); return t
        if k == "ahead":
            t = self.new()
            m = self.al.mask(x[1]) & self.al.CHARS
            if x[2]: m |= self.al.END
            self.eps[s].append((("a", m), t)); return t
        raise Unsupported(k)


def build(al, x):
    """the automaton of a regular expression over whole texts (it ends with END)"""
    n = Nfa(al)
    s0 = n.new()
    f = n.add(x, s0)
    r = Aut()
    num = {}
    wl = [s0]
    num[s0] = r.new()
    r.start[num[s0]] = 0
    while wl:
        s = wl.pop()
        st = [(s, E0, al.ALL)]
        seen = set(st)
        while st:
            u, P, m = st.pop()
            for e, v in n.eps[u]:
                P2, m2 = P, m
                if e is not None and e[0] == "m": P2 = P | set(e[1:])
                if e is not None and e[0] == "a": m2 = m & e[1]
                if m2 and (v, P2, m2) not in seen: seen.add((v, P2, m2)); st.append((v, P2, m2))
            for c, w, v in n.let[u]:
                if not c & m: continue
                if c == al.END: t = 0
                else:
                    if v not in num: num[v] = r.new(); wl.append(v)
                    t = num[v]
                r.tr[num[s]].append((frozenset(P), E0, c & m, w, t))
    return trim(r)


def expand(a, M):
    """all marks of M explicit, each once"""
    if a is None: return None
    r = Aut()
    ids = {}
    wl = []
    for s, w in a.start.items(): ids[(s, E0)] = r.new(); wl.append((s, E0)); r.start[ids[(s, E0)]] = w
    M = frozenset(M)
    while wl:
        q = wl.pop()
        s, k = q
        for P, A, m, w, t in a.tr[s]:
            free = sorted(M - P - A - k, key=str)
            if P & k: continue
            sets = [P]
            for x in free: sets += [y | {x} for y in sets]
            for X in sets:
                k2 = k | X
                if t == 0:
                    if k2 == M: r.tr[ids[q]].append((frozenset(X), M - X, m, w, 0))
                    continue
                q2 = (t, k2)
                if q2 not in ids: ids[q2] = r.new(); wl.append(q2)
                r.tr[ids[q]].append((frozenset(X), M - X, m, w, ids[q2]))
    return trim(r)


def without(a, bs, marks=()):
    """a shortest word of a that is in none of the automata bs, as text; None when there is none"""
    if a is None: return None
    bs = [b for b in bs if b is not None]
    M = set(marks) | marks_of(a)
    for b in bs: M |= marks_of(b)
    a = expand(a, M)
    if a is None: return None
    rev = [[] for _ in a.tr]
    for s, l in enumerate(a.tr):
        for P, A, m, w, t in l: rev[t].append((P, m, s))
    rb = []
    for b in bs:
        x = [[] for _ in b.tr]
        for s, l in enumerate(b.tr):
            for P, A, m, w, t in l: x[t].append((P, A, m, s))
        rb.append(x)
    first = (0, tuple(frozenset((0,)) for _ in bs))
    seen = {first: None}
    wl = [first]
    for q in wl:
        s, sub = q
        for P, m, p in rev[s]:
            parts = [(m, tuple(frozenset() for _ in bs))]
            for i, x in enumerate(rb):
                for u in sub[i]:
                    for P2, A2, m2, v in x[u]:
                        if not P2 <= P or A2 & P: continue
                        nxt = []
                        for mm, it in parts:
                            k = mm & m2
                            if k:
                                nxt.append((k, it[:i] + (it[i] | {v},) + it[i + 1:]))
                            if mm & ~m2: nxt.append((mm & ~m2, it))
                        parts = nxt
            for mm, it in parts:
                n = (p, it)
                if n in seen: continue
                seen[n] = (q, P, mm)
                if len(seen) > 300000: raise Unsupported("comparison too large")
                if p in a.start and not any(set(b.start) & it[i] for i, b in enumerate(bs)):
                    return n, seen
                wl.append(n)
    return None


def show(al, w):
    n, seen = w
    out = []
    while seen[n] is not None:
        n, P, m = seen[n]
        out.append((P, pick(al, m)))
    # built backwards: n runs from the start of the text to its end
    return "".join("".join("<%s>" % x for x in sorted(map(str, P))) + ("" if c == "end" else c if c.isascii() and c.isprintable() else "\\u{%x}" % ord(c)) for P, c in out)


ANYC = C(ANY)
PRE = Star(ANYC)
REST = Seq(Star(ANYC), END)
NOTNAME = minus(ANY, NAMECONT)
INT = Seq(Opt(T("-")), Alt(T("0"), Seq(C(minus(DIGIT, chars("0"))), Star(C(DIGIT)))))
FRAC = Seq(T("."), Plus(C(DIGIT)))
EXP = Seq(C(chars("eE")), Opt(C(chars("+-"))), Plus(C(DIGIT)))
EXPZ = Seq(C(chars("eE")), T("0"), Star(C(DIGIT)))         # unsigned, starts with 0
EXPN = Seq(C(chars("eE")), Alt(Seq(C(chars("+-")), Plus(C(DIGIT))), Seq(C(minus(DIGIT, chars("0"))), Star(C(DIGIT)))))
NUMBAD = cls(*(NAMECONT + chars(".")))                     # may not follow a number
NUMGOOD = minus(cls(*(START + IGN1 + HASH)), NUMBAD)       # what can follow it in a document
NUMEND = Ahead(minus(ANY, NUMBAD))
NUMSURE = Ahead(NUMGOOD)
S = Mk("S"); V = Mk("v"); EE = Mk("e")
PUNCT = Alt(C(PUNCT1), T("..."))
STRCH = minus(ANY, chars('"\\\n\r'))
STRANY = Seq(T('"'), Star(Alt(C(STRCH), Seq(T("\\"), C(minus(ANY, EOL))))), T('"'))
STROK = Seq(T('"'), Star(Alt(C(STRCH), Seq(T("\\"), C(ESC)), Seq(T("\\u"), C(HEX), C(HEX), C(HEX), C(HEX)))), T('"'))
STR1 = Alt(C(STRCH), Seq(T("\\"), C(minus(ANY, EOL))))
STROK1 = Alt(C(STRCH), Seq(T("\\"), C(ESC)), Seq(T("\\u"), C(HEX), C(HEX), C(HEX), C(HEX)))
STRNE = Seq(T('"'), STR1, Star(STR1), T('"'))               # not empty
STROKNE = Seq(T('"'), STROK1, Star(STROK1), T('"'))


COMMENT = Seq(T("#"), Star(C(minus(ANY, EOL))), Ahead(EOL))
IGN = Star(Alt(C(IGN1), COMMENT))


def around(x): return Seq(PRE, S, V, x, EE, REST)


def blockaut(al):
    """any* S v <block string> e any*"""
    r = Aut()
    names = ("pre", "o1", "o2", "loop", "q1", "q2", "b0", "b1", "b2", "rest", "fin")
    n = {k: r.new() for k in names}
    Q = al.mask(chars('"')); B = al.mask(chars("\\")); N = al.CHARS & ~(Q | B)
    P0 = frozenset(("S", "v"))

    def t(a, m, b, P=E0): r.tr[n[a]].append((P, E0, m, 0, n[b]))
    t("pre", al.CHARS, "pre")
    t("pre", Q, "o1", P0)
    t("o1", Q, "o2"); t("o2", Q, "loop")
    for a in ("loop", "q1", "q2", "b0", "b1", "b2"): t(a, N, "loop")
    t("loop", Q, "q1"); t("loop", B, "b0")
    t("q1", Q, "q2"); t("q1", B, "b0")
    t("q2", Q, "fin"); t("q2", B, "b0")
    t("b0", Q, "b1"); t("b0", B, "b0")
    t("b1", Q, "b2"); t("b1", B, "b0")
    t("b2", Q, "loop"); t("b2", B, "b0")
    E = frozenset(("e",))
    t("fin", al.CHARS, "rest", E)
    r.tr[n["fin"]].append((E, E0, al.END, 0, 0))
    t("rest", al.CHARS, "rest")
    r.tr[n["rest"]].append((E0, E0, al.END, 0, 0))
    r.start = {n["pre"]: 0}
    return r
