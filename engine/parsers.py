"""Shared by the grammar checks: extraction of the parser, the reference grammar, and their comparison rule by rule."""
from gram import Grammar, C, Alt
from spec import Spec
from auto import build, compare
from interp import Unsupported, RES

NTS = ("SelectionSet", "Type", "Value", "ConstValue")


class Parsers:
    def __init__(self, P, entries):
        """entries: names of public functions, e.g. parse_query"""
        self.P = P
        self.G = Grammar(P)
        self.entry = {}
        for e in entries:
            r = [r for r, f in P.fns.items() if f.get("name") == e and f["path"].startswith("graphql_parser::") and "implself" not in f]
            if len(r) != 1: raise Unsupported("function %s not found" % e)
            self.entry[e] = (r[0], ())
        self.G.solve(list(self.entry.values()))
        self.S = Spec(P, self.G)

    def ntname(self, key):
        t = self.G.output(key[0])
        n = t[1].split("::")[-1] if t[0] == "adt" else "?"
        if n == "Value":
            has = any(k == "Punctuator" and not neg and "$" in tx for k, neg, tx in self.G.firsts.get(key, C.NONE))
            return "Value" if has else "ConstValue"
        if n in NTS: return n
        return "%s (%s)" % (n, key[0].split("::")[-1])

    def solve_spec(self, roots):
        S = self.S
        for _ in range(20):
            S.memo.clear(); S.unsettled = False
            for k in roots: S.rule(k)
            done = set()
            while True:
                todo = [k for k in S.firsts if k not in done]
                if not todo: break
                for k in todo: S.rule(k); done.add(k)
            for k in list(S.firsts):
                c, n = S.first(S.rule(k))
                if c != S.firsts[k]: S.firsts[k] = c; S.unsettled = True
            if not S.unsettled: return
        raise Unsupported("reference grammar")

    def compare_rule(self, key, specname, positions):
        S = self.S
        self.solve_spec([(specname, ())])
        a = build(self.G, self.G.rule(key), self.ntname, positions)
        b = build(S, S.rule((specname, ())), lambda k: k[0], positions)
        d, stats = compare(a, b, ("the parser", "the grammar"))
        return d, stats, a.obl

    def reachable(self, key):
        """recursive rules used from key"""
        out = []; wl = [key]
        while wl:
            k = wl.pop()
            for c in calls_of(self.G.rule(k)):
                if c not in out: out.append(c); wl.append(c)
        return out


def calls_of(alts):
    for a in alts:
        for it in a.items:
            if it[0] == "call": yield it[2]
            elif it[0] == "rep":
                yield from calls_of(it[2])
                if it[4]: yield from calls_of(it[4])
            elif it[0] == "nfa":
                yield from calls_of(it[2][2])
                if it[2][4]: yield from calls_of(it[2][4])
