"""The layout of what the formatter writes: lines, indentation and blank lines, monitored over the graphs of the printer analysis."""
from models import to_lin
from interp import Unsupported
from prcheck import find

OPEN = {"(": ")", "[": "]", "{": "}"}
ITEMS = ("definitions", "items", "fields", "values")
MULTI = (("Selection.Field.0", "Field.arguments"), ("Directive.arguments",), ("Value.List.0",), ("Value.Object.0",))
OPS = ("SchemaDefinition.query", "SchemaDefinition.mutation", "SchemaDefinition.subscription")


class Bad(Exception):
    pass


# ---------------------------------------------------------------- polynomials over the style and the formatter's numbers
def sym(k):
    while k[0] == "cast": k = k[2]
    if k[0] != "sym": raise Unsupported("an indentation that depends on %s" % (k[0],))
    return k[1]


def poly(v):
    l = to_lin(v)
    if l is None: raise Unsupported("an indentation that depends on %s" % (v[0],))
    p = {}
    if l[0]: p[()] = l[0]
    for k, n in l[1].items():
        m = (sym(k),)
        p[m] = p.get(m, 0) + n
    return frozenset((m, n) for m, n in p.items() if n)


def padd(a, b, s=1):
    p = dict(a)
    for m, n in b: p[m] = p.get(m, 0) + s * n
    return frozenset((m, n) for m, n in p.items() if n)


def pmul(a, b):
    p = {}
    for m, n in a:
        for q, k in b:
            r = tuple(sorted(m + q, key=repr))
            p[r] = p.get(r, 0) + n * k
    return frozenset((m, n) for m, n in p.items() if n)


def const(n): return frozenset([((), n)]) if n else frozenset()


def show(p):
    if not p: return "0"
    return " + ".join("*".join(["%d" % n] * (n != 1 or not m) + [".".join(str(y) for y in x) for x in m]) for m, n in sorted(p, key=repr))


ZERO = frozenset()
ENTRY = {"start": ("LS", ZERO, "first"), "ls": ("LS", ZERO, 1), "ind": ("LS", None, 1), "mid": ("MID", None, 0)}


class Layout:
    """kind: what the formatter's number stands for - the indentation in columns ("width") or the nesting depth ("depth")"""
    def __init__(self, x, cur, kind):
        self.x = x; self.cur = cur; self.kind = kind
        fs = x.P.adts[x.styleadt]["variants"][0]["fields"]
        w = [f["name"] for f in fs if x.P.ty(f["ty"])[0] in ("uint", "int")]
        if len(w) > 1: w = [n for n in w if n == "indent"]
        if len(w) != 1: raise Unsupported("the configured width is not found in the style")
        self.W = frozenset([((("style", w[0]),), 1)])
        self.exits = {}         # (root, entry) -> set of exits
        self.users = {}
        self.found = {}         # messages
        self.entries = {}

    # ------------------------------------------------------------ expectations
    def columns(self, root, depth):
        """indentation of a line with depth blocks around it in this function"""
        base = pmul(const(depth), self.W)
        F = self.fsym(root)
        if F is None: return base
        return padd(base, F if self.kind == "width" else pmul(F, self.W))

    def fsym(self, root):
        if root[0] == "doc": return None
        s = ints(root[4])
        if not s: return None
        if len(s) > 1: raise Unsupported("two numbers in the formatter")
        return frozenset([((s[0],), 1)])

    def number(self, root, depth):
        """value of the formatter's number"""
        if self.kind == "width": return self.columns(root, depth)
        F = self.fsym(root)
        return padd(const(depth), F) if F is not None else const(depth)

    def multi(self, root):
        """are arguments and the parts of values to be on lines of their own"""
        st = root[2] if root[0] == "doc" else find(root[4], self.x.styleadt)
        if st is None: return False
        for f, v in zip(self.x.P.adts[self.x.styleadt]["variants"][0]["fields"], st[3]):
            if f["name"] == "multiline_arguments": return v == ("b", True)
        return False

    # ------------------------------------------------------------ exploration
    def run(self):
        """mon: (position, columns so far on a fresh line, newlines since the last token, open brackets, item ended, definition ended, after '{')"""
        work = [(r, "start") for r in self.cur if r[0] == "doc" and r[1] == "format"]
        self.queued = set(work)
        while work:
            key = work.pop()
            self.queued.discard(key)
            ex, need = self.explore(*key)
            for k in need:
                if k not in self.exits:
                    self.exits[k] = set()
                    work.append(k); self.queued.add(k)
            if ex - self.exits.setdefault(key, set()):
                self.exits[key] |= ex
                for u in self.users.get(key, ()):
                    if u not in self.queued: work.append(u); self.queued.add(u)
        return self.found

    def explore(self, root, entry):
        R = self.cur[root]
        exits = set(); need = set()
        self.pairs = getattr(self, "pairs", 0)
        for a, n, edges in R.graphs:
            by = {}
            for s, ev, d in edges: by.setdefault(s, []).append((ev, d))
            m0 = ENTRY[entry][:3] + ((), False, False)
            m0 = (m0, ())
            seen = {(0, m0)}; wl = [(0, m0)]
            while wl:
                s, m = wl.pop()
                self.pairs += 1
                for ev, d in by.get(s, ()):
                    if isinstance(d, tuple) and d[0] == "panic": continue
                    for m2 in self.events(root, entry, m, ev, need):
                        if isinstance(d, tuple):
                            m3 = m2[0]
                            exits.add((m3[0], m3[1] if m3[0] == "LS" else None, m3[2], m3[4]))
                            if m3[3]: self.report(root, "bracket", "a bracket is left open")
                        elif (d, m2) not in seen: seen.add((d, m2)); wl.append((d, m2))
        return exits, need

    def report(self, root, key, msg):
        R = self.cur[root]
        self.found.setdefault((R.nt, key), (root, msg))

    def events(self, root, entry, m, evs, need):
        cur = [m]                # (monitor, stack of repetitions)
        for e in evs:
            nxt = []
            for m, reps in cur:
                try: nxt += self.event(root, entry, m, reps, e, need)
                except Bad as b:
                    self.report(root, b.args[0], b.args[1])
            cur = nxt
        return cur

    def event(self, root, entry, m, reps, e, need):
        k = e[0]
        if k == "rep": return [(m, reps + (poly(e[1]),))]
        if k == "endrep": return [(m, reps[:-1])]
        if k == "t":
            for c in e[1]: m = self.char(root, m, reps, c)
            return [(m, reps)]
        if k == "leaf":
            if reps: raise Unsupported("text that is repeated")
            if e[4]: self.ints(root, m, e[4], "the value of a string")
            m = self.token(root, m, "a name" if e[1] == "name" else "a value")
            if any(p and p[-1] in OPS or len(p) > 1 and p[-2] in OPS for p, _ in e[3]): m = m[:4] + (True,) + m[5:]
            return [(m, reps)]
        if k == "call":
            if reps: raise Unsupported("text that is repeated")
            _, callee, nt, tags, iv = e
            self.ints(root, m, iv, "a " + nt)
            pos, acc, nl, stack, pend, defend = m
            if pos == "LS":
                self.line(root, m, "a " + nt, None)
                if acc == ZERO and self.columns(root, self.depth(stack)) != ZERO: en = "ls"
                elif acc == self.columns(root, self.depth(stack)): en = "ind" if acc != ZERO else "ls"
                elif acc == ZERO: en = "ls"
                else: raise Bad("indent", "a line that starts with %s %s is indented by %s instead of %s" % (art(nt), nt, show(acc), show(self.columns(root, self.depth(stack)))))
            else: en = "mid"
            stack = self.mark(stack)
            key = (callee, en)
            need.add(key)
            self.users.setdefault(key, set()).add((root, entry))
            if pend and pos != "LS": raise Bad("line", "%s %s does not start on a line of its own" % (art(nt), nt))
            out = []
            for p2, acc2, nl2, pend2 in self.exits.get(key, ()):
                if p2 == "LS" and acc2: raise Bad("trail", "%s leaves spaces at the start of a line" % nt)
                out.append(((p2, ZERO if p2 == "LS" else None, nl2, stack, pend2 and p2 != "LS", False), reps))
            return out
        if k == "end":
            pos, acc, nl, stack, pend, defend = m
            for p in e[1]:
                f = p[-1].split(".")[-1] if p else ""
                if f not in ITEMS and not (self.multi(root) and (p[-1:] in MULTI or p[-2:] in MULTI)): continue
                if stack and stack[-1][1] == "?": stack = stack[:-1] + ((stack[-1][0], "inline"),)
                if f != "definitions" and (not stack or stack[-1][1] != "block"): raise Bad("block", "the elements of %s do not each have a line of their own" % p[-1])
                if f == "definitions": defend = True
                pend = pos != "LS"
            return [((pos, acc, nl, stack, pend, defend), reps)]
        if k == "eof":
            pos, acc, nl = m[:3]
            if m[5] and not (pos == "LS" and nl == 1 and acc == ZERO): raise Bad("eof", "the text does not end with one line break")
            return [(m, reps)]
        if k == "bad": return [(m, reps)]
        return [(m, reps)]

    def ints(self, root, m, iv, what):
        if not iv: return
        if len(iv) > 1: raise Unsupported("two numbers in the formatter")
        want = self.number(root, self.depth(self.mark(m[3])))
        have = poly(iv[0][1])
        if have != want: raise Bad("level", "%s is written at indentation %s instead of %s" % (what, show(have), show(want)))

    def depth(self, stack): return sum(1 for c, f in stack if f == "block")

    def mark(self, stack):
        return stack[:-1] + ((stack[-1][0], "inline"),) if stack and stack[-1][1] == "?" else stack

    def line(self, root, m, what, closer):
        """the first token of a line"""
        pos, acc, nl, stack, pend, defend = m
        if nl == "first": return
        if defend:
            if nl != 2: raise Bad("blank", "definitions are separated by %s instead of one blank line" % ("no blank line" if nl == 1 else "several blank lines"))
        elif nl not in (1, "first"): raise Bad("blank", "a blank line inside a definition, before %s" % what)

    def token(self, root, m, what, closer=None):
        pos, acc, nl, stack, pend, defend = m
        if pos == "LS":
            self.line(root, m, what, closer)
            if acc is not None:
                want = self.columns(root, self.depth(stack))
                if acc != want: raise Bad("indent", "a line that starts with %s is indented by %s instead of %s" % (what, show(acc), show(want)))
        elif pend: raise Bad("line", "%s is written on the line of the element before it" % what)
        elif defend: raise Bad("line", "%s is written on the last line of the definition before it" % what)
        return ("MID", None, 0, stack, False, False)

    def char(self, root, m, reps, c):
        pos, acc, nl, stack, pend, defend = m
        if c == "\n":
            if reps: raise Unsupported("line breaks that are repeated")
            if pos == "LS" and acc: raise Bad("trail", "a line of nothing but spaces")
            if stack and stack[-1][1] == "?": stack = stack[:-1] + ((stack[-1][0], "block"),)
            n = nl + 1 if nl in (0, 1, 2) else nl
            if nl == "first": raise Bad("blank", "the text starts with a line break")
            return ("LS", ZERO, n, stack, False, defend)
        if c == " ":
            if pos == "LS":
                n = const(1)
                for r in reps: n = pmul(n, r)
                if acc is None: raise Bad("indent", "a line is indented twice")
                return (pos, padd(acc, n), nl, stack, pend, defend)
            return m
        if c == ",":
            if pos == "LS": raise Bad("indent", "a line starts with a comma")
            return m
        if c in "\t\r\ufeff":
            raise Bad("indent", "a %s is written" % {"\t": "tab", "\r": "carriage return"}.get(c, "byte order mark"))
        if reps: raise Unsupported("text that is repeated")
        if c in ")]}":
            if stack and stack[-1][1] == "block":
                if pos != "LS": raise Bad("block", "`%s` is not on a line of its own" % c)
            elif pos == "LS": raise Bad("block", "`%s` starts a line but its block did not" % c)
            stack = stack[:-1]
            m = self.token(root, (pos, acc, nl, stack, False, defend), "`%s`" % c)
            return m
        m = self.token(root, (pos, acc, nl, self.mark(stack), pend, defend), "`%s`" % c)
        if c in OPEN: m = m[:3] + (m[3] + ((c, "?"),),) + m[4:]
        return m


def art(s): return "an" if s[:1] in "AEIOU" else "a"


def ints(can):
    out = []
    def w(v):
        if not isinstance(v, tuple) or not v: return
        if v[0] == "sym" and isinstance(v[1], tuple) and v[1][:1] == ("F",):
            if v[1] not in out: out.append(v[1])
            return
        for x in v: w(x)
    w(can)
    return out
