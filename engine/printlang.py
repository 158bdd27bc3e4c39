"""Compares what the formatter writes (graphs of engine/printer.py) with the grammar, letter by letter.

Texts are cut into tokens by the lexical grammar while the graph is walked; what separates tokens is dropped; two texts that would
run into one token, or that are no token, are a letter no rule has."""
from gram import C, EOF
from auto import build, OTHER, show_letter, tok_text, skel
from interp import Unsupported
import printer as R

START = ("start",)
FREE = None


class Lang:
    """languages of all the roots of one context"""
    def __init__(self, X, cur):
        self.X = X; self.S = X.S
        self.cur = cur
        self.firsts = {r: frozenset() for r in cur}      # what kinds of characters a root may begin with
        self.lasts = {r: frozenset() for r in cur}       # how it may end
        while True:
            self.nfa = {r: self.build(r) for r in cur}
            f = {r: n.first for r, n in self.nfa.items()}; l = {r: n.last for r, n in self.nfa.items()}
            if f == self.firsts and l == self.lasts: break
            self.firsts, self.lasts = f, l

    def build(self, root):
        return NFA(self, root, self.cur[root])


class NFA:
    """states: hashable; E: state -> [(letter or None, state)]"""
    def __init__(self, L, root, R_):
        self.L = L; self.S = L.S; self.R = R_
        self.E = {}
        self.first = frozenset(); self.last = frozenset()
        self.n = 0
        self.start = ("s",); self.final = ("f",)
        self.E[self.start] = []; self.E[self.final] = []
        self.words = set()
        for gi, (alt, n, edges) in enumerate(R_.graphs):
            adj = {}
            for src, ev, dst in edges:
                if isinstance(dst, tuple) and dst[0] == "panic": continue
                adj.setdefault(src, []).append((ev, dst))
            s0 = (gi, 0, START)
            self.E[self.start].append((None, s0))
            wl = [s0]; seen = {s0}
            while wl:
                s = wl.pop()
                self.E.setdefault(s, [])
                for ev, dst in adj.get(s[1], ()):
                    cur = [(s, s[2])]
                    for e in ev:
                        nxt = []
                        for x in cur: nxt += self.event(x[0], x[1], e)
                        cur = list(dict.fromkeys(nxt))
                    for st, lex in cur:
                        if isinstance(dst, tuple):
                            if lex == START: st = self.bad(st, "nothing is written")
                            if lex is not None and lex[0] == "rep": st = self.bad(st, "open repetition")
                            st, _ = self.flush(st, lex)
                            self.edge(st, None, self.final)
                            self.last |= {self.ending(lex)}
                            continue
                        t = (gi, dst, lex)
                        self.edge(st, None, t)
                        if t not in seen: seen.add(t); wl.append(t)

    def new(self):
        self.n += 1
        s = ("n", self.n)
        self.E[s] = []
        return s

    def edge(self, a, l, b): self.E[a].append((l, b))

    def go(self, s, l):
        n = self.new()
        self.edge(s, l, n)
        return n

    def bad(self, s, msg): return self.go(s, ("bad", msg))

    def ending(self, lex):
        if lex is None or lex == START: return None
        if lex[0] == "n": return ("ga", "num" if lex[1][0].isdigit() else "name")
        if lex[0] == "d": return ("ga", "dots")
        return lex

    def flush(self, s, lex):
        """-> (state, None)"""
        if lex is None or lex[0] in ("start", "ga"): return s, None
        if lex[0] == "n":
            t = lex[1]
            if t[0].isdigit():
                if not t.isdigit() or t[0] == "0" and t != "0": return self.bad(s, "`%s` is no token" % t), None
                return self.go(s, ("tok", ("IntValue", t), frozenset())), None
            self.words.add(t)
            return self.go(s, ("tok", ("Name", t), frozenset())), None
        if lex[0] == "d": return self.bad(s, "`%s` is no token" % ("." * lex[1])), None
        raise Unsupported("lexical state %s" % (lex,))

    def glue(self, lex, c):
        """does the token before run into a text beginning with this kind of character: N name, D number, S quote, ."""
        if lex is None or lex == START: return None
        k = lex[1] if lex[0] == "ga" else {"n": "name", "d": "dots"}[lex[0]]
        if lex[0] == "n" and lex[1][0].isdigit(): k = "num"
        if k == "name" and c in "ND": return "a name runs into the next token"
        if k == "num" and c in "ND.": return "a number runs into the next token"
        if k == "str" and c == "S": return "two strings run into one token"
        if k == "dots" and c == ".": return "`...` runs into the next token"
        return None

    def note(self, lex, c):
        if lex == START: self.first |= {c}

    def event(self, s, lex, e):
        k = e[0]
        if lex is not None and lex[0] == "rep":
            if k == "t":
                if all(c in R.LAYOUT for c in e[1]): return [(s, lex)]
                return [(self.bad(s, "`%s` is written a varying number of times" % e[1]), lex)]
            if k == "rep": return [(s, ("rep", lex, e[1]))]
            if k == "endrep":
                if lex[2] == ("i", 0): return [(s, lex[1])]
                o = lex[1]
                if o is not None and o[0] == "rep": return [(s, o)]
                if o == START:
                    self.note(o, "L")
                    return [(s, None)] + ([] if lex[2][0] == "i" else [(s, o)])
                n, _ = self.flush(s, o)
                return [(n, None)] + ([] if lex[2][0] == "i" else [(s, o)])
            return [(self.bad(s, "a part of the document is written a varying number of times"), lex)]
        if k == "t":
            cur = [(s, lex)]
            for c in e[1]: cur = [y for x in cur for y in self.char(x[0], x[1], c)]
            return cur
        if k == "rep": return [(s, ("rep", lex, e[1]))]
        if k == "leaf":
            _, how, cls, tags, ints = e
            c = {"name": "N", "num": "D", "str": "S"}[how]
            self.note(lex, c)
            g = self.glue(lex, c)
            if g: s = self.bad(s, g)
            s, _ = self.flush(s, lex)
            if how == "str": cls = R.strkind(cls)
            return [(self.go(s, ("leaf", cls, tags)), ("ga", how))]
        if k == "call":
            _, root, nt, tags, ints = e
            if lex == START: self.first |= self.L.firsts[root]
            for c in self.L.firsts[root]:
                g = self.glue(lex, c)
                if g: s = self.bad(s, g)
            s, _ = self.flush(s, lex)
            s = self.go(s, ("call", root, nt, tags))
            return [(s, x) for x in sorted(self.L.lasts[root], key=repr)]
        if k in ("end", "result"): return [(self.go(s, e), lex)] if lex is None or lex[0] in ("ga", "start") else [self.late(s, lex, e)]
        if k == "bad": return [(self.bad(s, e[1]), lex)]
        if k == "eof":
            s, _ = self.flush(s, lex)
            return [(self.go(s, ("eof",)), FREE)]
        if k == "final": return [(self.go(s, ("final",)), lex)]
        raise Unsupported("event %s" % k)

    def late(self, s, lex, e):
        """an element ends while a constant word is still open: the word belongs to it"""
        g = ("ga", "num" if lex[1][0].isdigit() else "name") if lex[0] == "n" else None
        s, _ = self.flush(s, lex)
        return self.go(s, e), g

    def char(self, s, lex, c):
        if lex == ("d", 3): lex = ("ga", "dots")
        if c in R.LAYOUT:
            self.note(lex, "L")
            return [self.flush(s, lex)]
        if c in R.PUNCT:
            self.note(lex, "P")
            s, _ = self.flush(s, lex)
            return [(self.go(s, ("tok", ("Punctuator", c), frozenset())), None)]
        if c == ".":
            self.note(lex, ".")
            if lex is not None and lex[0] == "d":
                if lex[1] == 2: return [(self.go(s, ("tok", ("Punctuator", "..."), frozenset())), ("ga", "dots"))]
                return [(s, ("d", lex[1] + 1))]
            g = self.glue(lex, ".")
            if g: s = self.bad(s, g)
            s, _ = self.flush(s, lex)
            return [(s, ("d", 1))]
        if c in R.NAMECH:
            self.note(lex, "D" if c.isdigit() else "N")
            if lex is not None and lex[0] == "n": return [(s, ("n", lex[1] + c))]
            g = self.glue(lex, "D" if c.isdigit() else "N")
            if g: s = self.bad(s, g)
            s, _ = self.flush(s, lex)
            return [(s, ("n", c))]
        self.note(lex, "S" if c == '"' else "P")
        s, _ = self.flush(s, lex)
        return [(self.bad(s, "the character `%s` is written" % c), None)]


# ---------------------------------------------------------------------- letters
def expand(l, texts):
    """letters of the comparison for a letter of a printed language"""
    if l[0] == "leaf":
        for k, neg, t in l[1]:
            if neg:
                for x in sorted(texts.get(k, ())):
                    if x not in t: yield ("tok", (k, x), l[2])
                yield ("tok", (k, OTHER), l[2])
            else:
                for x in sorted(t): yield ("tok", (k, x), l[2])
    elif l[0] == "tok":
        k, x = l[1]
        yield ("tok", (k, x if x in texts.get(k, ()) else OTHER), l[2])
    else: yield l


def plainpunct(l): return l[0] == "tok" and l[1][0] == "Punctuator" and not l[2]


class Delay:
    """the same language with the end of an element reported as late as possible: before the next token that is kept or is no
    punctuator.  E(state) -> [(letter or None, state)]; the final state has no way out"""
    def __init__(self, E, final):
        self.E = E; self.final = final
        self.memo = {}

    def out(self, s):
        """-> [(letter or None, state)]; states (q, pending, queue)"""
        r = self.memo.get(s)
        if r is not None: return r
        q, pend, queue = s
        r = []
        if queue: r.append((queue[0], (q, pend, queue[1:])))
        else:
            if q == self.final and pend: r.append((pend[0], (q, pend[1:], ())))
            for l, d in self.E(q):
                if l is None: r.append((None, (d, pend, ())))
                elif l[0] == "end":
                    if len(pend) > 8: raise Unsupported("too many ends of elements at once")
                    r.append((None, (d, pend + (l,), ())))
                elif plainpunct(l) or not pend: r.append((l, (d, pend, ())))
                else: r.append((pend[0], (d, (), pend[1:] + (l,))))
        self.memo[s] = r
        return r

    def isfinal(self, s): return s[0] == self.final and not s[1] and not s[2]


def closure(D, items):
    out = set(); wl = list(items)
    while wl:
        x = wl.pop()
        if x in out: continue
        out.add(x)
        for l, d in D.out(x):
            if l is None: wl.append(d)
    return frozenset(out)


class Det:
    """subset construction, on demand"""
    def __init__(self, D, start):
        self.D = D
        self.start = closure(D, [start])
        self.m = {}

    def moves(self, Q):
        r = self.m.get(Q)
        if r is None:
            acc = {}
            for s in Q:
                for l, d in self.D.out(s):
                    if l is not None: acc.setdefault(l, set()).add(d)
            r = self.m[Q] = {l: closure(self.D, t) for l, t in acc.items()}
        return r

    def accepts(self, Q): return any(self.D.isfinal(s) for s in Q)


class SpecLang:
    """the grammar's rules as deterministic automata over the letters of the comparison"""
    def __init__(self, S):
        self.S = S
        self.autos = {}
        self.fins = {}
        self.texts = {}
        self.dets = {}

    def auto(self, nt):
        if nt not in self.autos: self.autos[nt] = build(self.S, self.S.rule((nt, ())), lambda k: k[0], False, True)
        return self.autos[nt]

    def prepare(self, nts, words):
        for nt in nts:
            self.auto(nt).texts(self.texts)
        self.dfas = {nt: self.auto(nt).dfa(None, self.texts) for nt in nts}

    def det(self, nt):
        if nt in self.dets: return self.dets[nt]
        start, D = self.dfas[nt]
        E = {}
        for q, m in D.items():
            es = E[q] = []
            for l, d in m.items():
                if l[0] == "fin": es.append((None, "F")); self.fins.setdefault(nt, set()).add(l[1])
                elif l[0] == "tok":
                    k, x = l[1]
                    es.append((("tok", ("StringValue" if k == "BlockString" else k, x), l[2]), d))
                else: es.append((l, d))
        E["F"] = []
        r = self.dets[nt] = Det(Delay(lambda q: E[q], "F"), (start, (), ()))
        return r

    # ---- a recursive rule must not be followed by what it would have read itself
    def follow_conflicts(self, root):
        S = self.S
        first = {}
        def nexts(nt, q):
            """tokens that can come next from a state, and whether the rule may end"""
            k = (nt, q)
            if k in first: return first[k]
            c = C.NONE; fin = False
            seen = {q}; wl = [q]
            while wl:
                x = wl.pop()
                for l, d in self.dfas[nt][1].get(x, {}).items():
                    if l[0] == "tok":
                        kk, t = l[1]
                        c = C.union(c, C.one(kk) if t == OTHER else C.one(kk, t))
                    elif l[0] == "call": c = C.union(c, l[3] or S.first_key((l[1], ())))
                    elif l[0] == "eof": c = C.union(c, C.one(EOF))
                    elif l[0] == "fin": fin = True
                    elif d not in seen: seen.add(d); wl.append(d)
            first[k] = c, fin
            return first[k]
        follow = {nt: C.NONE for nt in self.dfas}
        while True:
            old = dict(follow)
            for nt, (start, D) in self.dfas.items():
                for q, m in D.items():
                    for l, d in m.items():
                        if l[0] == "call":
                            c, fin = nexts(nt, d)
                            if fin: c = C.union(c, follow[nt])
                            follow[l[1]] = C.union(follow[l[1]], c)
            if follow == old: break
        out = []
        for nt in self.dfas:
            for nn in self.fins.get(nt, ()):
                x = C.inter(nn, follow[nt])
                if x and nt != root: out.append((nt, x))
        return out


def include(Pr, nfa, SL, nt, drop=("final",)):
    """None, or a description of a printed text that is not in the rule"""
    D = Delay(lambda q: nfa.E[q], nfa.final)
    det = SL.det(nt)
    texts = SL.texts
    S = SL.S
    start = ((nfa.start, (), ()), det.start)
    seen = {start: None}
    q = [start]
    for p in q:
        a, b = p
        if D.isfinal(a) and not det.accepts(b): return "it may stop after %s" % trace(seen, p)
        for l, d in D.out(a):
            if l is None or l[0] in drop: ns = [(d, b)]
            else:
                if l[0] == "bad": return "%s, after %s" % (l[1], trace(seen, p))
                mv = det.moves(b)
                if l[0] == "call":
                    _, root, cnt, tags = l
                    key, proj = root[5], root[6]
                    f = S.first([x for x in S.rule(key) if not x.fail and (proj is None or x.out[2] == proj[0])])[0]
                    t = [n for m, n in mv.items() if m[0] == "call" and m[1] == cnt and m[2] == tags and (m[3] is None or not C.minus(f, m[3]))]
                    if not t: return explain(seen, p, ("call", cnt, tags, None), mv)
                    ns = [(d, n) for n in t]
                else:
                    ns = []
                    for x in expand(l, texts):
                        if x not in mv: return explain(seen, p, x, mv)
                        ns.append((d, mv[x]))
            for n in ns:
                if n not in seen:
                    seen[n] = (p, l)
                    q.append(n)
    include.states = len(seen)
    return None


def trace(seen, p):
    tr = []
    while seen[p] is not None:
        p, l = seen[p]
        if l is not None and l[0] in ("tok", "call", "leaf"): tr.append(shown(l))
    tr.reverse()
    return " ".join(tr[-25:]) or "nothing"


def shown(l):
    if l[0] == "call": return "<%s>" % l[2]
    if l[0] == "tok": return l[1][1]
    if l[0] == "leaf":
        k, n, t = sorted(l[1], key=repr)[0]
        return sorted(t)[0] if not n else tok_text((0, (k, OTHER))) if False else {"Name": "x", "IntValue": "1", "FloatValue": "1.0", "StringValue": '"s"'}.get(k, k)
    return str(l)


def explain(seen, p, x, mv):
    return "after %s\n  it writes: %s\n  the grammar has: %s" % (trace(seen, p), show_letter(x), " | ".join(show_letter(m) for m in sorted(mv, key=lambda m: (m[0]=="tok", repr(m)))[:int(__import__("os").environ.get("NL", "5"))]) or "nothing")


# ---------------------------------------------------------------------- styles against each other
def tokens_only(nfa, texts):
    """the printed language with the same names for calls whatever the style"""
    E = {}
    for s, es in nfa.E.items():
        out = E[s] = []
        for l, d in es:
            if l is None or l[0] in ("final",): out.append((None, d))
            elif l[0] == "call": out.append((("call", l[2], l[1][6], l[3]), d))
            else:
                for x in expand(l, texts): out.append((x, d))
    return Det(Delay(lambda q: E[q], nfa.final), (nfa.start, (), ()))


def same(A, B):
    seen = {(A.start, B.start): None}
    q = [(A.start, B.start)]
    for p in q:
        a, b = p
        ma, mb = A.moves(a), B.moves(b)
        if A.accepts(a) != B.accepts(b) or ma.keys() != mb.keys():
            x = sorted(set(ma) ^ set(mb), key=repr)
            tr = []
            y = p
            while seen[y] is not None:
                y, l = seen[y]
                if l[0] in ("tok", "call"): tr.append(l[1][1] if l[0] == "tok" else "<%s>" % l[1])
            tr.reverse()
            return "after %s one style writes %s and another does not" % (" ".join(tr[-20:]) or "nothing", show_letter(x[0][:3] + (None,) if x[0][0] == "call" else x[0]) if x else "nothing more")
        for l in ma:
            n = (ma[l], mb[l])
            if n not in seen: seen[n] = (p, l); q.append(n)
    return None
