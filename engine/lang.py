"""From the graph of an exploration over an unknown text (tape.py) to automata.

A word is a text, every boundary of which may carry marks; the last letter is the end.  An automaton is a list of states with
transitions (marks required, marks excluded, set of characters, weight, next); weights are added up along a run."""
from interp import Unsupported
from tape import ENDCP, ANY, width, WCLS, inter, cls
from models import to_lin

E0 = frozenset()


class Alphabet:
    def __init__(self, classes):
        pts = {0, 0xD800, 0xE000, 0x110000}
        for c in classes:
            for a, b in c: pts.add(a); pts.add(b + 1)
        for n in WCLS:
            for a, b in WCLS[n]: pts.add(a); pts.add(b + 1)
        p = sorted(x for x in pts if x <= 0x110000)
        self.atoms = [(a, b - 1) for a, b in zip(p, p[1:]) if not (0xD800 <= a <= 0xDFFF)]
        self.n = len(self.atoms)
        self.END = 1 << self.n
        self.CHARS = self.END - 1
        self.ALL = self.END | self.CHARS
        self.memo = {}
        self.w = {n: self.mask(c) for n, c in WCLS.items()}

    def mask(self, c):
        if c is None: return self.ALL
        if c not in self.memo:
            m = 0
            for i, (a, b) in enumerate(self.atoms):
                for x, y in c:
                    if x <= a and b <= y: m |= 1 << i; break
                    if not (y < a or b < x): raise Unsupported("class outside of the alphabet")
            self.memo[c] = m
        return self.memo[c]

    def widths(self, m):
        return [(n, m & x) for n, x in self.w.items() if m & x]

    def text(self, i): return "end" if i == self.n else self.char(i)

    def char(self, i):
        a, b = self.atoms[i]
        for x in (0x61, 0x41, 0x30, 0x37):
            if a <= x <= b: return chr(x)
        return chr(a)


class Aut:
    """state 0: accepted; start: state -> weight"""
    def __init__(self):
        self.tr = [[]]
        self.start = {}

    def new(self):
        self.tr.append([])
        return len(self.tr) - 1


def trim(a):
    """useful states only"""
    n = len(a.tr)
    rev = [[] for _ in range(n)]
    for s, l in enumerate(a.tr):
        for t in l: rev[t[4]].append(s)
    good = {0}; wl = [0]
    while wl:
        for s in rev[wl.pop()]:
            if s not in good: good.add(s); wl.append(s)
    reach = set(x for x in a.start if x in good); wl = list(reach)
    while wl:
        for t in a.tr[wl.pop()]:
            if t[4] in good and t[4] not in reach: reach.add(t[4]); wl.append(t[4])
    if not reach: return None
    num = {0: 0}
    r = Aut()
    for s in sorted(reach):
        if s: num[s] = r.new()
    for s in reach:
        if s: r.tr[num[s]] = [(P, A, m, w, num[t]) for P, A, m, w, t in a.tr[s] if t in num]
    r.start = {num[s]: w for s, w in a.start.items() if s in num}
    return r


SUB = {}


def subsets(M):
    if M not in SUB:
        l = [frozenset()]
        for x in sorted(M, key=str): l += [y | {x} for y in l]
        SUB[M] = l
    return SUB[M]


def cubes(l):
    """a set of (P, A) cubes with neighbours merged"""
    l = set(l)
    ch = True
    while ch:
        ch = False
        for P, A in list(l):
            if (P, A) not in l: continue
            for x in P:
                q = (P - {x}, A | {x})
                if q in l:
                    l.discard((P, A)); l.discard(q); l.add((P - {x}, A)); ch = True
                    break
    return l


def once(a):
    """every mark that is required on all paths occurs nowhere else"""
    if a is None: return None
    req = {}
    for l in a.tr:
        for P, A, m, w, t in l:
            for x in P: req[x] = req.get(x, 0) + 1
    D = set()
    for x in req:
        # is it required on all paths?
        seen = set(a.start); wl = list(seen)
        while wl and 0 not in seen:
            for P, A, m, w, t in a.tr[wl.pop()]:
                if t not in seen and x not in P: seen.add(t); wl.append(t)
        if 0 not in seen: D.add(x)
    if not D: return a
    D = frozenset(D)
    r = Aut()
    ids = {(0, D): 0}
    wl = []
    for s, w in a.start.items():
        ids[(s, E0)] = r.new(); wl.append((s, E0)); r.start[ids[(s, E0)]] = w
    memo = {}
    while wl:
        q = wl.pop()
        s, k = q
        out = r.tr[ids[q]]
        for P, A, m, w, t in a.tr[s]:
            if P & k: continue
            c = (P, A, k)
            if c not in memo: memo[c] = (k | (P & D), A | (D - P))
            k2, A2 = memo[c]
            if t == 0 and k2 != D: continue
            q2 = (t, k2)
            if q2 not in ids: ids[q2] = r.new(); wl.append(q2)
            out.append((P, A2, m, w, ids[q2]))
    return trim(r)


def atmost(a, marks):
    """no mark is required twice"""
    cnt = {}
    for l in a.tr:
        for P, A, m, w, t in l:
            for x in P & marks: cnt[x] = cnt.get(x, 0) + 1
    D = frozenset(x for x, n in cnt.items() if n > 1)
    if not D: return a
    r = Aut()
    ids = {}
    wl = []
    for s, w in a.start.items():
        ids[(s, E0)] = r.new(); wl.append((s, E0)); r.start[ids[(s, E0)]] = w
    while wl:
        q = wl.pop()
        s, k = q
        out = r.tr[ids[q]]
        for P, A, m, w, t in a.tr[s]:
            if P & k: continue
            if t == 0: out.append((P, A, m, w, 0)); continue
            q2 = (t, k | (P & D))
            if q2 not in ids: ids[q2] = r.new(); wl.append(q2)
            out.append((P, A, m, w, ids[q2]))
    return trim(r)


def det(a):
    """an equivalent automaton that is deterministic from the end of the text backwards, and minimal"""
    a = once(trim(a))
    if a is None: return None
    rev = [[] for _ in a.tr]
    for s, l in enumerate(a.tr):
        for P, A, m, w, t in l: rev[t].append((P, A, m, w, s))
    first = ((0, 0),)
    ids = {first: 0}
    wl = [first]
    back = {0: []}      # state -> [(P, A, mask, w, previous)]
    while wl:
        q = wl.pop()
        by = {}
        items = []
        M = frozenset()
        for s, r in q:
            for P, A, m, w, p in rev[s]:
                items.append((P, A, m, p, r + w))
                M |= P | A
        if len(M) > 8: raise Unsupported("too many boundaries at once")
        groups = {}      # (N, base, mask)
        lab = {}
        for P, A, m, p, r in items: lab.setdefault((P, A), []).append((m, p, r))
        memo = {}
        out = {}
        for X in subsets(M):
            use = [k for k in lab if k[0] <= X and not k[1] & X]
            if not use: continue
            ck = tuple(sorted(map(id, use)))
            ck = frozenset(use)
            if ck not in memo:
                om = {}
                for k in use:
                    for m, p, r in lab[k]: om[(p, r)] = om.get((p, r), 0) | m
                bym = {}
                for x, m in om.items(): bym.setdefault(m, []).append(x)
                parts = []      # disjoint masks with their items
                for m, xs in bym.items():
                    xs = frozenset(xs)
                    rest = m
                    nxt = []
                    for m2, it in parts:
                        i = m2 & rest
                        if not i: nxt.append((m2, it)); continue
                        if m2 != i: nxt.append((m2 ^ i, it))
                        nxt.append((i, it | xs))
                        rest ^= i
                    if rest: nxt.append((rest, xs))
                    parts = nxt
                g = {}
                for m, it in parts: g[it] = g.get(it, 0) | m
                res = []
                for it, m in g.items():
                    base = min(r for p, r in it)
                    if len({p for p, r in it}) != len(it): raise Unsupported("ambiguous count")
                    N = tuple(sorted((p, r - base) for p, r in it))
                    if N not in ids:
                        ids[N] = len(ids); back[ids[N]] = []
                        if len(ids) > 20000: raise Unsupported("automaton too large")
                        wl.append(N)
                    res.append((m, base, ids[N]))
                memo[ck] = res
            for m, base, n in memo[ck]: out.setdefault((m, base, n), []).append((X, M - X))
        ol = back[ids[q]]
        for (m, base, n), l in out.items():
            for P, A in cubes(l): ol.append((P, A, m, base, n))
    fin = {}
    for q, i in ids.items():
        ws = {r + a.start[s] for s, r in q if s in a.start}
        if len(ws) > 1: raise Unsupported("ambiguous count")
        if ws: fin[i] = ws.pop()
    fw = {}
    for i, l in back.items():
        for P, A, m, w, p in l: fw.setdefault(p, []).append(i)
    good = set(fin); wl = list(good)
    while wl:
        for i in fw.get(wl.pop(), ()):
            if i not in good: good.add(i); wl.append(i)
    if 0 not in good: return None
    blk = {i: (0, fin.get(i)) if i else (1, None) for i in good}
    cnt = 0

    def canonical(i, blk):
        d = {}
        for P, A, m, w, p in back[i]:
            if p in good:
                k = (w, blk[p])
                d.setdefault(k, []).append((P, A, m))
        out = []
        for k, l in d.items():
            by = {}
            for P, A, m in l: by[(P, A)] = by.get((P, A), 0) | m
            inv = {}
            for c, m in by.items(): inv.setdefault(m, []).append(c)
            for m, cs in inv.items():
                for c in cubes(cs): out.append((k, c, m))
        return out
    while True:
        sig = {}
        nb = {}
        for i in good:
            nb[i] = sig.setdefault((blk[i], frozenset(canonical(i, blk))), len(sig))
        blk = nb
        if len(sig) == cnt: break
        cnt = len(sig)
    r = Aut()
    num = {blk[0]: 0}
    rep = {}
    for i in sorted(good):
        if blk[i] not in num: num[blk[i]] = r.new()
        rep.setdefault(blk[i], i)
    for b, i in rep.items():
        for (w, bp), (P, A), m in canonical(i, blk): r.tr[num[bp]].append((P, A, m, w, num[b]))
        if i in fin: r.start[num[b]] = fin[i]
    return r


def product(a, b):
    if a is None or b is None: return None
    r = Aut()
    ids = {(0, 0): 0}
    wl = []

    def node(p):
        if p not in ids: ids[p] = r.new(); wl.append(p)
        return ids[p]
    r.start = {node((x, y)): v + w for x, v in a.start.items() for y, w in b.start.items()}
    while wl:
        p = wl.pop()
        out = r.tr[ids[p]]
        for P, A, m, w, t in a.tr[p[0]]:
            for P2, A2, m2, w2, t2 in b.tr[p[1]]:
                m3 = m & m2
                if not m3 or (t == 0) != (t2 == 0): continue
                if P & A2 or P2 & A: continue
                out.append((P | P2, A | A2, m3, w + w2, node((t, t2))))
    return trim(r)


def relabel(a, m):
    """marks renamed by m; a mark mapped to None is forgotten"""
    r = Aut()
    r.start = dict(a.start)
    memo = {}

    def f(X):
        if X not in memo: memo[X] = frozenset(y for y in (m.get(x, x) for x in X) if y is not None)
        return memo[X]
    r.tr = []
    for l in a.tr:
        o = []
        for P, A, c, w, t in l:
            P, A = f(P), f(A)
            if not P & A: o.append((P, A, c, w, t))
        r.tr.append(o)
    return r


def union(l):
    l = [x for x in map(once, l) if x is not None]
    if not l: return None
    if len(l) == 1: return det(l[0])
    r = Aut()
    for a in l:
        off = len(r.tr) - 1
        g = lambda t: 0 if t == 0 else t + off
        for s in range(1, len(a.tr)): r.tr.append([(P, A, m, w, g(t)) for P, A, m, w, t in a.tr[s]])
        r.start.update({g(x): w for x, w in a.start.items()})
    return det(r)


def quotient(a):
    """states with the same future, then states with the same past, merged; keeps nondeterminism and weights"""
    a = trim(a)
    if a is None: return None
    while True:
        n = len(a.tr)
        for back in (False, True):
            adj = [[] for _ in a.tr]
            for s, l in enumerate(a.tr):
                for P, A, m, w, t in l:
                    if back: adj[t].append((P, A, w, m, s))
                    else: adj[s].append((P, A, w, m, t))
            blk = [(0, None) if i == 0 else (1, a.start.get(i) if back else None) for i in range(len(a.tr))]
            cnt = 0
            while True:
                sig = {}
                nb = []
                for i, l in enumerate(adj):
                    d = {}
                    for P, A, w, m, t in l:
                        k = (P, A, w, blk[t])
                        d[k] = d.get(k, 0) | m
                    nb.append(sig.setdefault((blk[i], frozenset(d.items())), len(sig)))
                blk = nb
                if len(sig) == cnt: break
                cnt = len(sig)
            r = Aut()
            num = {blk[0]: 0}
            for i in range(len(a.tr)):
                if blk[i] not in num: num[blk[i]] = r.new()
            tr = [{} for _ in r.tr]
            for s, l in enumerate(a.tr):
                for P, A, m, w, t in l:
                    k = (P, A, w, num[blk[t]])
                    d = tr[num[blk[s]]]
                    d[k] = d.get(k, 0) | m
            r.tr = [[(P, A, m, w, t) for (P, A, w, t), m in d.items()] for d in tr]
            for i, w in a.start.items():
                if r.start.get(num[blk[i]], w) != w: raise Unsupported("ambiguous count")
                r.start[num[blk[i]]] = w
            a = r
        if len(a.tr) == n: return trim(a)


def sums(l):
    """the union of automata that count, without making it deterministic"""
    l = [x for x in map(once, l) if x is not None]
    if not l: return None
    r = Aut()
    for a in l:
        off = len(r.tr) - 1
        g = lambda t: 0 if t == 0 else t + off
        for s in range(1, len(a.tr)): r.tr.append([(P, A, m, w, g(t)) for P, A, m, w, t in a.tr[s]])
        r.start.update({g(x): w for x, w in a.start.items()})
        if len(r.tr) != off + len(a.tr): raise AssertionError
    return quotient(r)


def marks_of(a):
    out = set()
    for l in a.tr:
        for P, A, m, w, t in l: out |= P | A
    return out


ENDERS = ("sw", "ord", "clat", "pred")


class Lang:
    """graph: (nodes, edges); start head; classify(exit) -> (key, {mark: boundary}, (expression, ...)) or None"""
    def __init__(self, dom, edges, hd, alpha, classify, pred=None, counting=False):
        self.al = alpha
        self.union = sums if counting else union
        self.det = quotient if counting else det
        self.dom = dom
        self.edges = edges
        self.classify = classify
        self.pred = pred
        self.out = {}
        for i, (s, ev, d) in enumerate(edges): self.out.setdefault(s, []).append(i)
        self.memo = {}
        self.phases = 0
        self.result = self.phase(("n", 0), hd)

    # -------------------------------------------------- phases
    def pkey(self, p, hd):
        if p[0] == "n": return (p, hd)
        ev, d = self.edges[p[1]][1], self.edges[p[1]][2]
        return (ev[p[2]:], d if isinstance(d, int) else p[1], hd)

    def phase(self, p, hd):
        k = self.pkey(p, hd)
        if k in self.memo:
            if self.memo[k] is None: raise Unsupported("the text is scanned again and again")
            return self.memo[k]
        self.memo[k] = None
        r = self.memo[k] = self.build(p, hd)
        self.phases += 1
        return r

    def succ(self, p):
        if p[0] == "n": return [(None, ("e", i, 0)) for i in self.out.get(p[1], ())]
        s, ev, d = self.edges[p[1]]
        if p[2] < len(ev):
            e = ev[p[2]]
            q = ("e", p[1], p[2] + 1)
            return [(e, q)] if e[0] not in ENDERS else [(e, ("x", p[1], p[2]))]
        return [(None, ("n", d) if isinstance(d, int) else ("x", p[1], p[2]))]

    def build(self, p, hd):
        pred = {}
        seen = {p}; wl = [p]; exits = []
        while wl:
            q = wl.pop()
            for e, r in self.succ(q):
                if r[0] == "x": exits.append((q, e, r)); continue
                pred.setdefault(r, []).append((q, e))
                if r not in seen: seen.add(r); wl.append(r)
        res = {}
        for q, e, x in exits:
            for key, E, aut, finals, tail in self.exit(q, e, x):
                for E2, a in self.run(p, hd, q, pred, E, aut, finals, tail): res.setdefault((key, E2), []).append(a)
        return {k: v for k, v in ((k, self.union(l)) for k, l in res.items()) if v is not None}

    def exit(self, q, e, x):
        """[(target, expression, automaton of the rest | None, {boundary: marks}, what is ahead)]"""
        if e is None or e[0] not in ENDERS:
            s, ev, d = self.edges[x[1]]
            c = self.classify(d)
            if c is None: return []
            key, marks, E = c
            f = {}
            st = d[2]
            for m, b in marks.items(): f.setdefault(self.dom.can(st, b), set()).add(m)
            E = tuple((c, canon2((("pos", self.dom.can(st, k[1])) if k[0] == "pos" else k, n) for k, n in t)) for c, t in E)
            return [(key, E, None, f, (self.dom.hd(st), self.dom.ahead(st)))]
        if e[0] == "sw": nh, hd, ahead = e[1], e[2], e[3]; cons = None
        elif e[0] == "ord": hd, ahead = e[4], e[5]; cons = self.order(e[1], e[2], e[3]); nh = hd
        elif e[0] == "clat": hd, ahead = e[3], e[4]; cons = self.at(e[1], e[2]); nh = hd
        elif e[0] == "pred":
            hd, ahead = e[4], e[5]; nh = hd
            cons = self.pred(e[1], e[3])
            if cons is None: return []
            cons = relabel(cons, {i + 1: n for i, n in enumerate(e[2])})
        out = []
        for (key, E), a in self.phase(("e", x[1], x[2] + 1), nh).items():
            if cons is not None:
                a = product(a, cons)
                if a is not None: a = self.det(a)
                if a is None: continue
            names = [m for m in marks_of(a) if isinstance(m, int)]
            out.append((key, E, relabel(a, {m: ("f", m) for m in names}), {m: {("f", m)} for m in names}, (hd, ahead)))
        return out

    def cell(self, name):
        return (E0, self.al.END) if name == "END" else (frozenset((name,)), self.al.ALL)

    def order(self, a, b, r):
        A = Aut()
        no = frozenset(x for x in (a, b) if isinstance(x, str) and x not in ("S", "Z", "END"))
        ca, cb = self.cell(a), self.cell(b)
        C, N = self.al.CHARS, self.al.END
        s = [A.new() for _ in range(3)]
        for x in s: A.tr[x].append((E0, no, C, 0, x))
        A.tr[s[2]].append((E0, no, N, 0, 0))

        def add(x, P, m, y):
            if m & C: A.tr[x].append((P, E0, m & C, 0, y))
            if m & N and y == s[2]: A.tr[x].append((P, E0, N, 0, 0))
        if r == 0: add(s[0], ca[0] | cb[0], ca[1] & cb[1], s[2])
        else:
            if r == 1: ca, cb = cb, ca
            add(s[0], ca[0], ca[1], s[1]); add(s[1], cb[0], cb[1], s[2])
        A.start = {s[0]: 0}
        return A

    def at(self, b, C):
        A = Aut()
        s = [A.new() for _ in range(2)]
        for x in s: A.tr[x].append((E0, E0, self.al.CHARS, 0, x))
        A.tr[s[1]].append((E0, E0, self.al.END, 0, 0))
        A.tr[s[0]].append((frozenset((b,)), E0, self.al.mask(C), 0, s[1]))
        A.start = {s[0]: 0}
        return A

    # -------------------------------------------------- one pass, from an exit backwards
    def run(self, p, hd, q, pred, E, rest, finals, tail):
        al = self.al
        R = Aut()      # transitions hold (P, explicit A)
        T = R.new()
        R.tr[T] += [(E0, E0, al.CHARS, 0, T), (E0, E0, al.END, 0, 0)]
        fm = {b: frozenset(m) for b, m in finals.items() if b != "END"}
        endmarks = frozenset(finals.get("END", ()))
        if endmarks:
            # marks of the end: on the last letter
            T2 = T
            R.tr[T] = [(E0, E0, al.CHARS, 0, T), (endmarks, E0, al.END, 0, 0)]
        allm = set(endmarks)
        for m in fm.values(): allm |= m
        toks = set()

        def mark(fm, m, tok):
            if m not in fm:
                fm[m] = frozenset((tok,)); toks.add(tok)
            return fm[m]
        # what is ahead of the head
        thd, ahead = tail
        E = self.dropz(E)
        cells = []
        cum = 0
        for i, (b, C, nats) in enumerate(ahead):
            P, A, m, w = set(), set(), al.mask(C), 0
            if b == "END": m = al.END; P |= endmarks
            elif i < len(ahead) - 1: m &= al.CHARS
            if i and b != "END": P |= mark(fm, b, ("t", q, i))
            if i and b == "END": P |= endmarks
            for x in nats:
                if x == "END": m &= al.CHARS
                else: A |= set(list(mark(fm, x, ("t", q, i, x)))[:1])
            cells.append([P, A, m, w])
        # byte offsets of boundaries ahead, from the head
        Ed = [dict(x[1]) for x in E]
        w0 = 0
        for i, (b, C, nats) in enumerate(ahead):
            if i == 0: continue
            for d in Ed:
                k = ("pos", b)
                if k in d and b not in ("END", "Z", "S"):
                    n = d.pop(k)
                    d[("pos", thd)] = d.get(("pos", thd), 0) + n
                    for j in range(i):
                        ws = al.widths(cells[j][2])
                        if len(ws) != 1: raise Unsupported("length of unknown characters")
                        cells[j][3] += n * ws[0][0]
        c0 = sum(x[0] for x in E)
        E = tuple((0, canon(d)) for d in Ed)
        succ = T
        for P, A, m, w in reversed(cells[1:]):
            s = R.new()
            self.put(R, s, P, A, m, w, succ, endmarks)
            succ = s
        P, A, m, w = cells[0] if cells else (set(), set(), al.ALL, 0)
        if thd == "END": P |= endmarks; m &= al.END
        cur0 = (q, frozenset(fm.items()), (), E, frozenset(P), frozenset(A), m, w + c0, succ)
        # cursor: position, names, constraints behind, expressions, cell at the head (P, A, mask, weight, next)
        seen = {cur0}
        wl = [cur0]
        states = {}
        arrivals = {}
        while wl:
            c = wl.pop()
            pos, fmf, pend, E, P, A, m, w, succ = c
            if pos == p: arrivals.setdefault((fmf, E), []).append((pend, P, A, m, w, succ))
            for pp, e in pred.get(pos, ()):
                n = self.undo(R, e, pp, fmf, pend, E, P, A, m, w, succ, states, mark, endmarks)
                for n in n if isinstance(n, list) else (n,):
                    if n is not None and n not in seen: seen.add(n); wl.append(n)
        out = []
        for (fmf, E), l in arrivals.items():
            G = Aut()
            G.tr = [list(x) for x in R.tr]
            fm = dict(fmf)
            ren = {}
            same = []
            for x, ms in fm.items():
                for mm in ms:
                    if isinstance(mm, str): same.append((mm, x))
                    else: ren[mm] = x
            absent = frozenset((allm | toks) - set(ren) - {mm for mm, x in same})
            idle = G.new()
            G.tr[idle].append((E0, E0, al.CHARS, 0, idle))
            for pend, P, A, m, w, succ in l:
                s = G.new()
                P = set(P)
                if hd == "END": m &= al.END
                else:
                    P |= {("hd",)}
                self.put(G, s, P, A, m, w, succ, endmarks)
                for k, (P2, A2, m2) in enumerate(pend):
                    s2 = G.new()
                    self.put(G, s2, P2, A2, m2 & al.CHARS, 0, s, endmarks)
                    s = s2
                G.start[s] = 0
                for t in G.tr[s]: G.tr[idle].append(t)
            G.start[idle] = 0
            for s in range(len(G.tr)):
                o = []
                for P, A, m, w, t in G.tr[s]:
                    A = A | (absent - P)
                    if not P & A: o.append((P, A, m, w, t))
                G.tr[s] = o
            if hd != "END": ren[("hd",)] = hd
            # the marks of the rest that are boundaries known from before
            G = relabel(G, ren)
            G = trim(G)
            if G is None: continue
            if rest is not None: G = product(G, relabel(rest, ren))
            gone = frozenset(x for x in absent if not isinstance(x, str))
            if G is not None and gone: G = atmost(G, gone)
            if G is not None: G = trim(relabel(G, {x: None for x in gone}))
            for mm, x in same:
                if G is not None: G = product(G, self.order(mm, x, 0))
            if G is not None: out.append((E, G))
        return out

    def put(self, R, s, P, A, m, w, succ, endmarks):
        P = frozenset(P); A = frozenset(A)
        if P & A: return
        al = self.al
        c = m & al.CHARS
        if c: R.tr[s].append((P, A, c, w, succ))
        if m & al.END:
            P2 = P | endmarks
            if not P2 & A: R.tr[s].append((P2, A, al.END, w, 0))

    def dropz(self, E):
        out = []
        for x in E:
            l = x if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int) else None
            out.append((l[0], tuple((k, n) for k, n in l[1] if k != ("pos", "Z"))))
        return tuple(out)

    def undo(self, R, e, pp, fmf, pend, E, P, A, m, w, succ, states, mark, endmarks):
        al = self.al
        if e is None or e[0] in ("len", "out", "rep", "endrep"): return (pp, fmf, pend, E, P, A, m, w, succ)
        k = e[0]
        if k == "ren":
            inv = {n: o for o, n in e[1]}
            # names that do not survive are not in e[1]; S, Z and END keep theirs
            fm = frozenset((inv.get(b, b), ms) for b, ms in fmf)
            E2 = tuple((0, tuple(sorted((((("pos", inv.get(x[1], x[1])) if x[0] == "pos" else x), n) for x, n in d), key=str))) for _, d in E)
            return (pp, fm, pend, E2, P, A, m, w, succ)
        if k == "pk":
            fm = dict(fmf); fm.pop(e[1], None)
            for _, d in E:
                if any(x == ("pos", e[1]) for x, n in d): raise Unsupported("length up to a boundary ahead")
            return (pp, frozenset(fm.items()), pend, E, P, A, m, w, succ)
        if k == "set":
            out = []; w2 = w
            for _, d in E:
                d = dict(d); n = d.pop(("cnt", e[1]), 0)
                if n:
                    l = to_lin(e[2])
                    if l is None: raise Unsupported("counter set to %s" % (e[2],))
                    w2 += n * l[0]
                    for x, y in l[1].items():
                        if x != ("pos", "Z"): d[x] = d.get(x, 0) + n * y
                out.append((0, canon(d)))
            return (pp, fmf, pend, tuple(out), P, A, m, w2, succ)
        fm = dict(fmf)
        if k in ("cl", "bat", "bnat", "bk"):
            i = e[1] - 1
            pl = list(pend)
            while len(pl) <= i: pl.append((E0, E0, al.CHARS))
            P2, A2, m2 = pl[i]
            if k == "cl": m2 &= al.mask(e[2])
            elif k == "bat":
                if e[2] == "END": return None
                P2 |= mark(fm, e[2], ("t", pp))
            elif k == "bnat":
                if e[2] != "END": A2 |= frozenset(list(mark(fm, e[2], ("t", pp)))[:1])
            else:
                for _, d in E:
                    if any(x == ("pos", e[2]) for x, n in d): raise Unsupported("length from a boundary behind")
                P2 |= fm.pop(e[2], E0)
            if not m2 or P2 & A2: return None
            pl[i] = (P2, A2, m2)
            return (pp, frozenset(fm.items()), tuple(pl), E, P, A, m, w, succ)
        if k == "at":
            if e[1] == "END": m &= al.END
            else: P = P | mark(fm, e[1], ("t", pp))
        elif k == "nat":
            if e[1] == "END": m &= al.CHARS
            else: A = A | frozenset(sorted(mark(fm, e[1], ("t", pp)), key=str)[:1])
        elif k == "rd":
            _, b, n, C, pre = e
            if n == "END": m &= al.END
            else: P = P | (mark(fm, n, ("t", pp)) if pre else fm.pop(n, E0))
            if P & A: return None
            mc = al.mask(C) & al.CHARS
            lens = 0
            E2 = []
            for _, d in E:
                d = dict(d); x = 0 if pre else d.pop(("pos", n), 0)
                if x:
                    d[("pos", b)] = d.get(("pos", b), 0) + x
                    lens += x
                E2.append((0, canon(d)))
            fmf2 = frozenset(fm.items())
            key = (pp, fmf2, pend, tuple(E2))
            s = states.get(key)
            fresh = s is None
            if fresh: s = states[key] = R.new()
            self.put(R, s, P, A, m, w, succ, endmarks)
            if not fresh: return None
            P1, A1, m1 = pend[0] if pend else (E0, E0, al.CHARS)
            m1 &= mc
            if not m1: return None
            if not lens: return (pp, fmf2, pend[1:], tuple(E2), P1, A1, m1, 0, s)
            return [(pp, fmf2, pend[1:], tuple(E2), P1, A1, mw, lens * n, s) for n, mw in al.widths(m1)]
        else: raise Unsupported("event %s" % k)
        if not m or P & A: return None
        return (pp, frozenset(fm.items()), pend, E, P, A, m, w, succ)


def canon2(l):
    d = {}
    for k, n in l:
        if k != ("pos", "Z"): d[k] = d.get(k, 0) + n
    return canon(d)


def canon(d): return tuple(sorted(((k, n) for k, n in d.items() if n), key=str))


def lin_of(v):
    """(constant, ((term, coefficient), ...)) of a value"""
    l = to_lin(v)
    if l is None: return None
    return (l[0], canon(l[1]))


def shortest(a, al):
    """a shortest word, as [(marks, character)]"""
    if a is None: return None
    seen = {s: None for s in a.start}
    wl = list(a.start)
    for s in wl:
        for P, A, m, w, t in a.tr[s]:
            if t in seen: continue
            seen[t] = (s, P, m)
            if t == 0:
                out = []
                while seen[t] is not None:
                    t, P, m = seen[t]
                    c = pick(al, m)
                    out.append((sorted(map(str, P)), c))
                return out[::-1]
            wl.append(t)
    return None


def pick(al, m):
    l = [i for i in range(al.n + 1) if m >> i & 1]
    for i in l:
        if i == al.n: return "end"
        if al.atoms[i][0] < 128 and al.char(i).isprintable(): return al.char(i)
    return al.text(l[0])


def word(a, al):
    w = shortest(a, al)
    if w is None: return None
    return "".join(("".join("<%s>" % x for x in P)) + ("" if c == "end" else c if c.isprintable() else "\\u%04x" % ord(c)) for P, c in w)
