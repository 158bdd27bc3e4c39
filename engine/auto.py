"""Turns the alternatives of a parser rule into a finite automaton over tagged tokens and compares two of them.

A letter is a token together with the places of the result in which its text is put (and, when wanted, the places in which the
position read just before it is put), a use of a recursive rule with the places its result is put in, or the constructor skeleton of
a finished list element or of the whole result.  Two rules with the same letters sequences accept the same token sequences and
build the same trees from them."""
from interp import Unsupported, St
from gram import C, EOF, KINDS, ids_of

OTHER = "<other>"


class Auto:
    def __init__(self, G, ntname, positions):
        """ntname(key) -> canonical name of a recursive rule"""
        self.G = G; self.nt = ntname; self.positions = positions
        self.E = {}
        self.n = 0
        self.obl = 0
        self.late = False        # the end of an element is reported after all its tokens, not after the last one that is kept

    def new(self):
        self.n += 1
        self.E[self.n] = []
        return self.n

    def edge(self, a, l, b): self.E[a].append((l, b))

    # -------------------------------------------------- values
    def walk(self, v, path, T):
        """-> skeleton; T collects id -> set of tags, list id -> paths, literal list elements"""
        k = v[0]
        P = self.G.P
        if k == "ref": return self.walk(v[2][1] if v[2][0] == "v" else ("top", "ref"), path, T)
        if k == "ttext":
            T["tok"].setdefault(v[1], set()).add((path, "text")); return "."
        if k == "unq":
            T["tok"].setdefault(v[2][1], set()).add((path, "decoded")); return "."
        if k == "conv":
            T["tok"].setdefault(v[2][1], set()).add((path, "number:" + v[1])); return "."
        if k == "pos":
            if self.positions: T["pos"].setdefault(v[1], set()).add((path, "position"))
            return "@"
        if k == "pcall":
            T["tok"].setdefault(v[1], set()).add((path, "result")); return "."
        if k == "plist":
            T["list"].setdefault(v[1], set()).add(path); return "[]"
        if k == "vec":
            for x in v[1]:
                if x[0] == "splice": T["list"].setdefault(x[1][1], set()).add(path)
                else:
                    ids = set(); leaf_ids(x, ids)
                    sk = self.walk(x, path + ("[]",), T)
                    T["elem"].append((ids, path, sk))
            return "[]"
        if k == "adt":
            a = P.adts.get(v[1])
            name = v[1].split("::")[-1]
            var = a["variants"][v[2]] if a and a["variants"] else None
            if name == "Box": return self.walk(v[3][0], path, T)
            en = a and a["kind"] == "enum"
            kids = []
            for i, x in enumerate(v[3]):
                fn = var["fields"][i]["name"] if var else str(i)
                kids.append(self.walk(x, path + ((name + "." + var["name"] if en else name) + "." + fn,), T))
            return (v[1] + ("::" + var["name"] if en else ""),) + tuple(kids)
        if k == "tup": return ("tuple",) + tuple(self.walk(x, path + (str(i),), T) for i, x in enumerate(v[1]))
        if k in ("i", "b", "s", "c"): return v
        raise Unsupported("a parser builds its result from %s" % (v[:2],))

    # -------------------------------------------------- alternatives
    def alts(self, alts, paths, s, f, kind, extra=None):
        """kind: 'rule' (skeleton letter at the end), 'elem' (after the last item used), None"""
        for a in alts:
            if a.fail: continue
            self.alt(a, paths, s, f, kind, extra)

    def alt(self, a, paths, s, f, kind, extra=None):
        for k in a.facts:
            if k[0] not in ("cls", "parses", "finite", "pempty"): raise Unsupported("a parser decides on %s" % (k[0],))
        self.obl += 1
        T = {"tok": {}, "pos": {}, "list": {}, "elem": []}
        skels = []
        for p in paths: skels.append(self.walk(a.out, p, T))
        if extra:      # tags a list walk gave to the parts of this element
            for x, tags in extra["tok"].items(): T["tok"].setdefault(x, set()).update(tags)
            for x, tags in extra["pos"].items(): T["pos"].setdefault(x, set()).update(tags)
            for x, tags in extra["list"].items(): T["list"].setdefault(x, set()).update(tags)
        facts = dict(a.facts)
        if extra: facts.update(extra["facts"])
        used = set(T["tok"]) | set(T["pos"]) | set(T["list"])
        used |= {x[1] for x in used if x[0] == "el"}
        last = max([i for i, it in enumerate(a.items) if len(it) > 1 and it[0] != "nn" and it[1] in used], default=len(a.items) - 1)
        if self.late: last = len(a.items) - 1
        ends = {}
        for ids, path, sk in T["elem"]:
            at = max([i for i, it in enumerate(a.items) if len(it) > 1 and it[0] != "nn" and it[1] in ids], default=None)
            if at is None: at = len(a.items) - 1
            ends.setdefault(at, []).append(("end", (path,), sk))
        cur = s
        if not a.items: last = -1
        if kind == "elem" and last < 0: cur = self.emit(cur, ("end", tuple(paths), skels[0]))
        for l in ends.get(-1, ()): cur = self.emit(cur, l)
        for i, it in enumerate(a.items):
            nxt = self.new()
            self.item(it, facts, T, cur, nxt)
            cur = nxt
            for l in ends.get(i, ()): cur = self.emit(cur, l)
            if kind == "elem" and i == last: cur = self.emit(cur, ("end", tuple(paths), skels[0]))
        if kind == "rule": cur = self.emit(cur, ("result", skels[0]))
        self.edge(cur, ("e",), f)

    def emit(self, cur, l):
        n = self.new()
        self.edge(cur, l, n)
        return n

    def item(self, it, facts, T, s, f):
        G = self.G
        k = it[0]
        if k == "tok": self.edge(s, ("tok", G.cls(it[1], facts), frozenset(T["tok"].get(it[1], ()))), f)
        elif k == "pos": self.edge(s, ("pos", frozenset(T["pos"].get(it[1], ()))), f)
        elif k == "nn": self.edge(s, ("nn", G.nncls(it[1])), f)
        elif k == "eof": self.edge(s, ("eof",), f)
        elif k == "call": self.edge(s, ("call", self.nt(it[2]), frozenset(T["tok"].get(it[1], ())), G.first_key(it[2])), f)
        elif k == "rep":
            emp = facts.get(("pempty", it[1]))
            paths = sorted(T["list"].get(it[1], ()))
            self.rep(it, paths, emp, s, f)
        elif k == "nfa": self.walked(it, T, s, f)
        else: raise Unsupported("item %s" % k)

    def rep(self, it, paths, emp, s, f):
        G = self.G
        _, i, alts, mn, sep = it
        fi, _ = G.first(alts)
        if emp is True:
            self.edge(s, ("nn", fi), f); return
        if mn == 0 and emp is None: self.edge(s, ("nn", fi), f)
        a, b = self.new(), self.new()
        self.edge(s, ("e",), a)
        self.alts(alts, paths, a, b, "elem" if paths else None)
        if sep is None:
            self.edge(b, ("e",), a)
            self.edge(b, ("nn", fi), f)
        else:
            fs, _ = G.first(sep)
            self.alts(sep, (), b, a, None)
            self.edge(b, ("nn", fs), f)

    def walked(self, it, T, s, f):
        G = self.G
        _, lid, rep, edges, final, mn = it
        _, _, alts, _, sep = rep
        fi, _ = G.first(alts)
        fs = G.first(sep)[0] if sep is not None else None
        paths = sorted(T["list"].get(lid, ()))
        nodes = {}
        def node(x, started):
            k = (x, started if sep is not None else 0)
            if k not in nodes:
                nodes[k] = self.new(); todo.append(k)
            return nodes[k]
        todo = []
        self.edge(s, ("e",), node(0, 0))
        while todo:
            x, st = todo.pop()
            me = nodes[(x, st)]
            if x == final: self.edge(me, ("nn", fs if (sep is not None and st) else fi), f)
            for src, lab, dst in edges:
                if src != x: continue
                if lab is None:
                    self.edge(me, ("e",), node(dst, st)); continue
                i, narrow = lab
                a = me
                if sep is not None and st:
                    a = self.new()
                    self.alts(sep, (), me, a, None)
                ex = {"tok": {}, "pos": {}, "list": {}, "facts": {("cls", y): c for y, c in narrow}}
                for part in ("tok", "pos", "list"):
                    for key, tags in T[part].items():
                        if key[0] == "el" and key[1] == lid and key[2] == i and key[3] == narrow: ex[part][key[4]] = tags
                self.alt(alts[i], paths, a, node(dst, 1), "elem" if paths else None, ex)

    # -------------------------------------------------- determinisation
    def letters(self, c, texts):
        for k, neg, t in c:
            if k == EOF: yield (EOF, ""); continue
            if neg:
                for x in sorted(texts.get(k, ())):
                    if x not in t: yield (k, x)
                yield (k, OTHER)
            else:
                for x in sorted(t): yield (k, x)

    def texts(self, acc):
        for es in self.E.values():
            for l, _ in es:
                for c in ((l[1],) if l[0] in ("tok", "nn") else (l[3],) if l[0] == "call" else ()):
                    for k, neg, t in c: acc.setdefault(k, set()).update(t)

    def closure(self, items):
        out = set(); wl = list(items)
        while wl:
            x = wl.pop()
            if x in out: continue
            out.add(x)
            s, nn, pos = x
            for l, d in self.E.get(s, ()):
                if l[0] == "e": wl.append((d, nn, pos))
                elif l[0] == "nn": wl.append((d, C.union(nn, l[1]), pos))
                elif l[0] == "pos": wl.append((d, nn, pos | l[1]))
        return frozenset(x for x in out if x[0] == self.final or any(l[0] not in ("e", "nn", "pos") for l, _ in self.E.get(x[0], ())))

    def moves(self, S, texts):
        out = {}
        for s, nn, pos in S:
            if s == self.final:
                out.setdefault(("fin", frozenset(nn), pos), set()).add((0, C.NONE, frozenset()))
            for l, d in self.E.get(s, ()):
                if l[0] == "tok":
                    c = C.minus(l[1], nn) if nn else l[1]
                    for a in self.letters(c, texts):
                        out.setdefault(("tok", a, l[2] | pos), set()).add((d, C.NONE, frozenset()))
                elif l[0] == "call":
                    c = C.minus(l[3], nn) if nn else l[3]
                    if c: out.setdefault(("call", l[1], l[2] | pos, None if c == l[3] else c), set()).add((d, C.NONE, frozenset()))
                elif l[0] == "eof":
                    if not C.inter(nn, C.one(EOF)): out.setdefault(("eof",), set()).add((d, C.NONE, frozenset()))
                elif l[0] in ("end", "result"):
                    out.setdefault(l, set()).add((d, nn, pos))
        return out

    def dfa(self, alts, texts):
        s, self.final = self.start, self.final
        start = self.closure([(s, C.NONE, frozenset())])
        D = {}
        wl = [start]
        while wl:
            S = wl.pop()
            if S in D: continue
            D[S] = {}
            if len(D) > 60000: raise Unsupported("the grammar's automaton is too large")
            for l, t in self.moves(S, texts).items():
                if l[0] == "fin": D[S][l] = None; continue
                n = self.closure(t)
                D[S][l] = n
                wl.append(n)
        # drop what cannot finish
        rev = {}
        live = set()
        for S, m in D.items():
            for l, n in m.items():
                if n is None: live.add(S)
                else: rev.setdefault(n, []).append(S)
        wl = list(live)
        while wl:
            x = wl.pop()
            for y in rev.get(x, ()):
                if y not in live: live.add(y); wl.append(y)
        for S in list(D):
            if S not in live: del D[S]
            else: D[S] = {l: n for l, n in D[S].items() if n is None or n in live}
        return start, D


def leaf_ids(v, acc):
    if not isinstance(v, tuple) or not v: return
    if v[0] in ("ttext", "tkind", "pos", "pcall", "plist"): acc.add(v[1]); return
    for x in v[1:]: leaf_ids(x, acc)
    if isinstance(v[0], tuple): leaf_ids(v[0], acc)


def build(G, alts, nt, positions, late=False):
    A = Auto(G, nt, positions)
    A.late = late
    A.start = A.new(); A.final = A.new()
    A.alts(alts, ((),), A.start, A.final, "rule")
    return A


def show_letter(l):
    if l[0] == "tok":
        k, t = l[1]
        x = "`%s`" % t if t != OTHER else k
        return x + (" -> " + ", ".join(sorted("/".join(p[-3:]) + ("" if h == "text" else "(%s)" % h) for p, h in l[2])) if l[2] else "")
    if l[0] == "call": return "%s%s" % (l[1], " -> " + ", ".join(sorted("/".join(p[-3:]) + ("(position)" if h == "position" else "") for p, h in l[2])) if l[2] else "") + (" (starting with %s)" % C.show(l[3]) if l[3] else "")
    if l[0] == "end": return "end of element of %s: %s" % (" and ".join("/".join(p[-2:]) for p in l[1]), skel(l[2]))
    if l[0] == "result": return "result %s" % skel(l[1])
    if l[0] == "fin": return "end" + (" when not followed by %s" % C.show(l[1]) if l[1] else "") + ((" position kept in " + ", ".join("/".join(p[-2:]) for p, h in l[2])) if l[2] else "")
    if l[0] == "eof": return "end of input"
    return str(l)


def skel(s):
    if isinstance(s, str): return s
    if s and s[0] in ("i", "b", "s", "c") and len(s) == 2 and not isinstance(s[1], tuple): return str(s[1])
    return s[0].split("::ast::")[-1].replace("std::option::Option::", "") + ("(" + " ".join(skel(x) for x in s[1:]) + ")" if len(s) > 1 else "")


def compare(A, B, what=("the parser", "the grammar")):
    """None, or a description of the shortest difference"""
    texts = {}
    A.texts(texts); B.texts(texts)
    sa, DA = A.dfa(None, texts)
    sb, DB = B.dfa(None, texts)
    stats = (len(DA), len(DB))
    if sa not in DA or sb not in DB:
        return ("one of the two accepts nothing", stats) if (sa in DA) != (sb in DB) else (None, stats)
    seen = {(sa, sb): None}
    q = [(sa, sb)]
    for p in q:
        a, b = p
        la, lb = DA[a], DB[b]
        if la.keys() != lb.keys():
            only_a = [l for l in la if l not in lb]; only_b = [l for l in lb if l not in la]
            tr = []
            x = p
            while seen[x] is not None:
                x, l = seen[x]
                tr.append(l)
            tr.reverse()
            toks = [tok_text(l) for l in tr if l[0] in ("tok", "call", "eof")]
            msg = "after %s" % (" ".join(toks[-25:]) or "nothing")
            if only_a: msg += "\n  %s has: %s" % (what[0], " | ".join(show_letter(l) for l in sorted(only_a, key=repr)[:4]) + (" ..." if len(only_a) > 4 else ""))
            if only_b: msg += "\n  %s has: %s" % (what[1], " | ".join(show_letter(l) for l in sorted(only_b, key=repr)[:4]) + (" ..." if len(only_b) > 4 else ""))
            return msg, stats
        for l in la:
            if la[l] is None: continue
            n = (la[l], lb[l])
            if n not in seen:
                seen[n] = (p, l)
                q.append(n)
    return None, stats


def tok_text(l):
    if l[0] == "call": return "<%s>" % l[1]
    if l[0] == "eof": return "<end>"
    k, t = l[1]
    return t if t != OTHER else {"Name": "x", "IntValue": "1", "FloatValue": "1.0", "StringValue": '"s"', "BlockString": '"""s"""', "Punctuator": "<punctuator>"}.get(k, k)
