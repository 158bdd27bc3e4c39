"""What the formatter writes, as a tagged token automaton.

The formatting functions are interpreted abstractly on the trees the grammar's alternatives build: every part of such a tree is the
name of the token, list or recursive rule it came from.  What is written to the output is a sequence of constant texts, names of
parts and calls of formatting functions for recursive parts (each of which is analysed on its own, as an induction hypothesis).
The texts are cut into tokens by the lexical grammar, which gives, for every rule, an automaton over the same letters as the
grammar's own automaton: printing and parsing again returns the document iff every word of it is a word of the grammar's."""
from gram import PDom, Grammar, C, Alt, KINDS, EOF, close, mention, ids_of
from spec import Spec
from auto import Auto, build, OTHER, show_letter, tok_text
from interp import Interp, Dom, St, Unsupported, refv, some, NONE, ok, err, UNIT, RES, OPT, BOX
import models as M
import ovf
from mir import succs, op_places, rv_ops
from models import IT, addr_of, to_lin, mk_lin, lin_add, range_bounds, kont, cat

PUNCT = set("{}()[]:!$@=|&")
LAYOUT = set(" \n,\t\r\ufeff")
NAMECH = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789")
LEAVES = ("ttext", "unq", "conv", "pcall", "plist", "psub", "pos", "idx")


class Split(Exception):
    """the output depends on this condition on the style"""


class InPlace(Unsupported):
    def __init__(self, nt):
        Unsupported.__init__(self, "the parts of a recursive element (%s) are looked at in place" % nt)
        self.nt = nt


class PSpec(Spec):
    """the grammar with selections instead of selection sets as the recursive rule (selection sets are written in place) and
    with the parts in cut as rules of their own"""
    CUT = {"Directive": "directive", "VariableDefinition": "var_def", "Field": "field_def", "InputValue": "input_value", "EnumValue": "enum_value"}

    def __init__(self, P, base, cut):
        Spec.__init__(self, P, base)
        for nt in cut:
            body = getattr(self, self.CUT[nt])
            setattr(self, "r_" + nt, body)
            setattr(self, self.CUT[nt], lambda nt=nt: self.call(nt))

    def call(self, nt):
        if nt == "SelectionSet": return self.r_SelectionSet()
        return Spec.call(self, nt)

    def selection(self): return self.call("Selection")
    def r_Selection(self): return Spec.selection(self)

    def solve(self, roots):
        for _ in range(20):
            self.memo.clear(); self.reps.clear(); self.unsettled = False
            for k in roots: self.rule(k)
            done = set()
            while True:
                todo = [k for k in self.firsts if k not in done]
                if not todo: break
                for k in todo: self.rule(k); done.add(k)
            for k in list(self.firsts):
                c, n = self.first(self.rule(k))
                if c != self.firsts[k]: self.firsts[k] = c; self.unsettled = True
            if not self.unsettled: return
        raise Unsupported("reference grammar")


def narrowed(S, items, facts):
    """facts about the tokens of an alternative, with what a token must not be because of what came before"""
    f = dict(facts)
    block = C.NONE
    for it in items:
        if it[0] == "nn": block = C.union(block, S.nncls(it[1]))
        elif it[0] == "tok":
            if block: f[("cls", it[1])] = C.minus(S.cls(it[1], f), block)
            block = C.NONE
        elif it[0] == "pos": pass
        elif it[0] == "rep" and f.get(("pempty", it[1])) is True: block = C.union(block, S.first(it[2])[0])
        else: block = C.NONE
    return f


@kont("pjoin")
def k_pjoin(I, st, fr, v):
    def f(s, x):
        fr = s.top
        if x[2] == 0:
            rest, ret = fr.loc["rest"][1], fr.loc["ret"]
            s.frames.pop()
            return I.dom.put_parts(I, s, rest, ret)
        if not fr.loc["first"][1]: I.dom.put(I, s, fr.loc["sep"])
        fr.loc["first"] = ("b", False)
        I.dom.put(I, s, x[3][0])
        return M.again(I, s)
    return M.each(I, st, v, f)


def mutates(v):
    if not isinstance(v, tuple): return False
    if len(v) == 3 and v[0] == "ref" and v[1] is True: return True
    return any(mutates(x) for x in v)


@kont("proot")
def k_root(I, st, fr, v):
    return I.dom.finish(I, st, fr, v)


class PrDom(PDom):
    def __init__(self, X):
        self.X = X
        self.G = X.S
        self.S = X.S

    # ------------------------------------------------------------ scopes
    def tab(self, st, i): return self.X.tabs[i]

    def scopes(self, st):
        yield self.X.tabs[st.ext[("S0",)]]
        for k, L in st.ext.items():
            if k[0] == "L" and L[0] in ("cur0", "curN"): yield self.X.tabs[L[5]]

    def lookup(self, st, kind, x):
        for T, _, _ in self.scopes(st):
            if x in T[kind]: return T[kind][x]
        return None

    def tags(self, st, x):
        r = self.lookup(st, "tok", x)
        if r is None: raise Unsupported("a part of the document that is not kept is written")
        return frozenset(r)

    # ------------------------------------------------------------ lists
    def L(self, st, i): return st.ext.get(("L", i))

    def empties(self, st, lst):
        """None unknown, True, False"""
        L = self.L(st, lst[1])
        if L is not None and L[0] != "empty": return False
        k = st.facts.get(("pempty", lst[1]))
        if k is None and self.S.reps[lst[1]][3] >= 1: k = False
        return k

    def begin(self, I, st, lst, state="cur0", mode=None, before=None):
        i = lst[1]
        rep = self.S.reps[i]
        if rep[0] != "rep": raise Unsupported("list")
        paths = self.lookup(st, "list", i)
        if paths is None: raise Unsupported("a list that is not kept is written")
        out = []
        for j, alt in enumerate(self.X.alts(i)):
            if before is not None and not self.X.may_follow(i, before, j): continue
            s = st.copy()
            s.facts[("pempty", i)] = False
            s.facts.update(alt.facts)
            s.ext[("L", i)] = (state, j, False, mode, None, self.X.table(i, j, tuple(sorted(paths)), alt.out))
            out.append(s)
        return out

    def cur(self, st, lst):
        L = self.L(st, lst[1])
        return self.X.box(self.X.alts(lst[1])[L[1]].out)

    def leave(self, I, st, lst):
        """the current element is done"""
        i = lst[1]
        state, j, printed, mode, last, tab = self.L(st, i)
        alt = self.X.alts(i)[j]
        T, paths, skel = self.X.tabs[tab]
        m = "p" if printed else "s"
        if mode not in (None, m): st.emit("bad", "an element of %s is left out" % show_paths(paths))
        if printed:
            self.complete_all(I, st, alt.out)
            st.emit("end", paths, skel)
        ids = set(ids_of(alt))
        for k in [k for k in st.ext if k[0] == "L" and k[1] in ids]: del st.ext[k]
        for k in [k for k in st.facts if any(mention(k, x) for x in ids)]: del st.facts[k]
        msg = ("bad", "a part of another element of %s is written" % show_paths(paths))
        for fr in st.frames:
            for l in list(fr.loc):
                if isinstance(fr.loc[l], tuple): fr.loc[l] = stale(fr.loc[l], ids, msg)
        return m

    def complete_all(self, I, st, out):
        for i in lists_of(out):
            L = self.L(st, i[1])
            if st.facts.get(("pempty", i[1])) is True and L is None: continue
            if L is not None and L[0] in ("cur0", "curN") and L[4] is True:
                m = self.leave(I, st, i)
                st.ext[("L", i[1])] = ("done", 0, False, m, None, 0)
                L = self.L(st, i[1])
            if L is None or L[0] != "done" or L[3] != "p":
                st.emit("bad", "%s is not written" % show_paths(self.lookup(st, "list", i[1]) or ((),)))

    def advance(self, I, st, lst, what=("end", "next")):
        """[(state, has a next element)]"""
        out = []
        L = self.L(st, lst[1])
        last = L[4]
        if "end" in what and last is not False:
            s = st.copy()
            m = self.leave(I, s, lst)
            if m == "p": s.ext[("L", lst[1])] = ("done", 0, False, m, None, 0)
            else: s.ext.pop(("L", lst[1]), None)
            s.facts[("pempty", lst[1])] = False
            out.append((s, False))
        if "next" in what and last is not True:
            s = st.copy()
            m = self.leave(I, s, lst)
            s.ext.pop(("L", lst[1]), None)
            for s2 in self.begin(I, s, lst, "curN", m, L[1]): out.append((s2, True))
        return out

    def is_empty(self, I, st, v):
        if v[0] in ("later", "joined"): raise Unsupported("emptiness of a collected sequence")
        if v[0] == "plist":
            e = self.empties(st, v)
            return ("pempty", v[1]) if e is None else ("b", e)
        if v[0] == "psub": return I.binop(st, "Eq", ("len", v[1]), ("i", v[2]))
        if v == ("obuf",): return ("b", not st.ext.get(("W",), False))
        if v[0] in ("unq", "ttext"): return ("strcond", "is_empty", v) if v[0] == "unq" else ("b", False)
        return None

    def length(self, I, st, v):
        if v[0] == "psub": return lin_add(("len", v[1]), ("i", v[2]), -1)
        return None

    def make_iter(self, I, st, v, n, args, info):
        if v[0] == "later" and n.split("::")[1] in ("into_iter", "iter"): return v[1]
        if n.split("::")[1] not in ("into_iter", "iter"):
            if v[0] in ("plist", "psub"): raise Unsupported("%s of a list of the document" % n)
            return None
        if v[0] == "plist": return IT("plist", v, ("b", args[0][0] == "ref"), ("i", 0), ("i", 0))
        if v[0] == "psub": return IT("plist", v[1], ("b", args[0][0] == "ref"), ("i", v[2]), ("i", v[2]))
        return None

    def item(self, I, s, lst, byref):
        x = self.cur(s, lst)
        if lst[2] == "BTreeMap" and byref and x[0] == "tup": return ("tup", tuple(refv(y) for y in x[1]))
        return refv(x) if byref else x

    def start(self, I, st, lst):
        """[(state, nonempty)] before any element"""
        out = []
        e = self.empties(st, lst)
        if e is not False:
            s = st.copy(); s.facts[("pempty", lst[1])] = True
            out.append((s, False))
        if e is not True:
            for s in self.begin(I, st, lst): out.append((s, True))
        return out

    def step(self, I, st, lst, k):
        """[(state, has item)]; k = 0: the iterator stands before the first element, 1: behind the current one"""
        L = self.L(st, lst[1])
        if k == 0:
            if L is None: return self.start(I, st, lst)
            if L[0] == "cur0": return [(st, True)]
            raise Unsupported("a list of the document is gone through again")
        out = []
        if L is None:
            for s, b in self.start(I, st, lst):
                if b: out += self.advance(I, s, lst)
                else: out.append((s, False))
            return out
        if L[0] == "done": return [(st, False)]
        return self.advance(I, st, lst)

    def iter_next(self, I, st, a, v):
        if v[0] != "adt": return None
        if v[1] == "it::plist":
            lst, byref, k, base = v[3]
            out = []
            for s, b in self.step(I, st, lst, k[1]):
                if b:
                    I.addr_write(s, a, IT("plist", lst, byref, ("i", 1), base))
                    out += I.ret(s, some(self.item(I, s, lst, byref[1])))
                else:
                    I.addr_write(s, a, IT("vec", ("vec", ()), ("i", 0), ("b", False)))
                    out += I.ret(s, NONE)
            return out
        if v[1] in ("std::ops::Range", "std::ops::RangeInclusive"):
            lo, hi = v[3][0], v[3][1]
            if lo[0] == "i" and hi[0] == "i": return None
            if v[1] == "std::ops::RangeInclusive": hi = lin_add(hi, ("i", 1), 1)
            if hi and hi[0] == "len" and hi[1][0] == "plist" and lo in (("i", 0), ("i", 1)):
                lst = hi[1]
                out = []
                for s, b in self.step(I, st, lst, lo[1]):
                    if b:
                        I.addr_write(s, a, ("adt", v[1], 0, (("i", 1),) + tuple(v[3][1:])))
                        out += I.ret(s, some(("i", 0) if self.L(s, lst[1])[0] == "cur0" else ("idx", lst[1])))
                    else:
                        I.addr_write(s, a, IT("vec", ("vec", ()), ("i", 0), ("b", False)))
                        out += I.ret(s, NONE)
                return out
            n = lin_add(hi, lo, -1) if hi else None
            return self.repeat(I, st, a, n, ("top", "counter"))
        if v[1] == "it::take" and v[3][1][0] != "i" and v[3][0][0] == "adt" and v[3][0][1] == "it::repeat":
            return self.repeat(I, st, a, v[3][1], v[3][0][3][0])
        if v[1] == "it::repbody":
            n, h, x = v[3]
            if self.snap(I, st, a) != h[1]: raise Unsupported("a loop over the indentation changes more than the output")
            st.emit("endrep")
            I.addr_write(st, a, IT("vec", ("vec", ()), ("i", 0), ("b", False)))
            return I.ret(st, NONE)
        return None

    def repeat(self, I, st, a, n, x):
        """a loop that runs n times, n unknown"""
        if n is None or not self.styl(n): raise Unsupported("loop over %s" % (n,))
        st.emit("rep", n)
        I.addr_write(st, a, IT("repbody", n, ("h", self.snap(I, st, a)), x))
        return I.ret(st, some(x))

    def snap(self, I, st, a):
        old = I.addr_read(st, a)
        I.addr_write(st, a, UNIT)
        w = st.ext.get(("W",)); e = dict(st.ext)
        st.ext[("W",)] = True
        for k in list(st.ext):
            if k[0] == "L" and st.ext[k][0] in ("cur0", "curN"): L = st.ext[k]; st.ext[k] = L[:2] + (True,) + L[3:]
        h = I.key(st)
        st.ext = e
        I.addr_write(st, a, old)
        return h

    def enum_index(self, I, st, a, v, x):
        n = v[3][1]
        it = v[3][0]
        while it[0] == "adt" and it[1] != "it::plist" and it[3] and it[3][0][0] == "adt": it = it[3][0]
        if it[0] == "adt" and it[1] == "it::plist":
            lst, _, _, base = it[3]
            return ("idx", lst[1]) if base == ("i", 0) and lists_len(it) else ("idx", ("from", base[1], lst[1]))
        return None

    def adapt(self, I, st, it, n, args):
        v = I.val(st, it)
        if v[0] == "adt" and v[1] == "it::plist" and n == "skip":
            k = args[1]
            if k == ("i", 0): return it
            if k == ("i", 1) and v[3][2] == ("i", 0): return IT("plist", v[3][0], v[3][1], ("i", 1), ("i", 1))
            raise Unsupported("skip")
        return None

    def peek_last(self, I, st, a, v, n):
        if v[0] != "adt" or v[1] != "it::peekable" or n not in ("peek", "peek_mut"): return None
        it = v[3][0]
        while it[0] == "adt" and it[1] in ("it::enumerate", "it::cloned"): it = it[3][0]
        if it[0] == "adt" and it[1] == "it::vec" and not it[3][0][1]: return I.ret(st, NONE)
        if it[0] != "adt" or it[1] != "it::plist": return None
        lst, _, k, _ = it[3]
        out = []
        x = some(refv(("top", "peeked element")))
        L = self.L(st, lst[1])
        if k[1] == 0:
            if L is not None: return None
            e = self.empties(st, lst)
            for b in ((True, False) if e is None else (e,)):
                s = st.copy(); s.facts[("pempty", lst[1])] = b
                out += I.ret(s, NONE if b else x)
            return out
        if L is None or L[0] == "done": return I.ret(st, NONE)
        for s, b in self.guess(st, lst): out += I.ret(s, NONE if b else x)
        return out

    def guess(self, st, lst):
        """[(state, the current element is the last)]"""
        L = self.L(st, lst[1])
        if L[4] is not None: return [(st, L[4])]
        out = []
        for b in (True, False):
            s = st.copy(); s.ext[("L", lst[1])] = L[:4] + (b,) + L[5:]
            out.append((s, b))
        return out

    # ---- access by index
    def seq_first(self, I, st, v, args):
        if v[0] != "plist": return None
        L = self.L(st, v[1])
        if L is None: return [(s, some(refv(self.cur(s, v))) if b else NONE) for s, b in self.start(I, st, v)]
        if L[0] == "cur0": return [(st, some(refv(self.cur(st, v))))]
        raise Unsupported("first element of a list that was already gone through")

    def seq_split_first(self, I, st, v, args):
        r = self.seq_first(I, st, v, args)
        return r and [(s, x if x == NONE else some(("tup", (x[3][0], refv(("psub", v, 1)))))) for s, x in r]

    def seq_get(self, I, st, v, args):
        if v[0] != "plist": return None
        r = self.goto(I, st, v, args[0]) if args else None
        if r is None: raise Unsupported("access by index")
        return [(s, some(refv(x)) if x is not None else NONE) for s, x in r]

    def past(self, I, st, lst):
        m = self.leave(I, st, lst)
        st.ext[("L", lst[1])] = ("done", 0, False, m, None, 0)
        st.facts[("pempty", lst[1])] = False

    def goto(self, I, st, v, ix):
        """[(state, element with that index or None)]; None when the index is not the current element's or the next one's"""
        L = self.L(st, v[1])
        if L is None: return [(s, self.cur(s, v) if b else None) for s, b in self.start(I, st, v)] if ix == ("i", 0) else None
        x = self.at(st, v, ix)
        if x is not None: return [(st, x)]
        if L[0] == "cur0" and ix == ("i", 1) or L[0] == "curN" and ix == lin_add(("idx", v[1]), ("i", 1), 1):
            out = []
            for s, b in self.guess(st, v):
                if b: self.past(I, s, v); out.append((s, None)); continue
                fr = s.top
                # the counter that is one ahead of the element becomes the element's index
                ahead = [l for l, y in fr.loc.items() if y == ix]
                for s2, _ in self.advance(I, s, v, ("next",)):
                    for l in ahead: s2.top.loc[l] = ("idx", v[1])
                    out.append((s2, self.cur(s2, v)))
            return out
        if L[0] == "done" and ix[0] == "i" and ix[1] >= 1: return [(st, None)]
        return None

    def seq_last(self, I, st, v, args):
        if v[0] == "plist": raise Unsupported("last element of a list of the document")
        return None
    seq_split_last = seq_last

    def at(self, st, v, ix):
        L = self.L(st, v[1])
        if L is not None and L[0] == "cur0" and ix == ("i", 0): return self.cur(st, v)
        if L is not None and L[0] == "curN" and ix == ("idx", v[1]): return self.cur(st, v)
        if ix[0] == "i" and L is not None and L[0] in ("curN", "done"): return ("bad", "the element with index %s is written again" % ix[1])
        return None

    def index(self, I, st, v, e):
        if v[0] != "plist" or (isinstance(e, tuple) and e[0] == "set"): return None
        r = self.at(st, v, ("i", e) if isinstance(e, int) else e)
        if r is None: raise Unsupported("access to a list of the document by index %s" % (e,))
        return r

    def subslice(self, I, st, v, e):
        if v[0] == "plist" and e[1] == 1 and e[2] == 0 and e[3]: return ("psub", v, 1)
        return None

    def slice_index(self, I, st, v, ix, info):
        if v[0] != "plist": return None
        if ix[0] == "adt":
            lo, hi = range_bounds(ix)
            if hi is not None and hi != ("len", v): raise Unsupported("part of a list")
            if lo in (None, ("i", 0)): return I.ret(st, refv(v))
            if lo != ("i", 1): raise Unsupported("part of a list")
            if self.L(st, v[1]) is not None: return I.ret(st, refv(("psub", v, 1)))
            return [x for s, b in self.start(I, st, v) for x in (I.ret(s, refv(("psub", v, 1))) if b else I.do_panic(s, "slice", "the list may be empty"))]
        r = self.goto(I, st, v, ix)
        if r is None: raise Unsupported("access to a list of the document by index")
        return [y for s, x in r for y in (I.ret(s, refv(x)) if x is not None else I.do_panic(s, "index", "the index may be out of range"))]

    def on_assert(self, I, st, kind, ops, cond, exp, site):
        if kind == "Overflow(Sub)" and ops[0][0] == "ctr" and ops[1] == ("i", 1) and ovf.optype(I, st) == ("uint", "usize"):
            # counts down to zero: the loop's condition says that it is not there yet
            for k, p in st.ext.items():
                if k[0] == "while" and any(l == ops[0][1] and x == p[0] for l, x in p[2]): return [(st, True)]
        return ovf.on_assert(I, st, kind, ops, lambda v: v[0] == "i" or (to_lin(v) is not None and all(abs(k) < 64 for k in to_lin(v)[1].values())))

    # ------------------------------------------------------------ conditions
    def styl(self, n):
        """is n a linear form over the style and the indentation"""
        l = to_lin(n)
        return l is not None and all(k[0] == "sym" or (k[0] == "cast" and k[2][0] == "sym") for k in l[1])

    def condition(self, I, st, v):
        neg = False
        while v[0] == "not": neg = not neg; v = v[1]
        if v[0] == "cin": return [(s, b != neg) for s, b in PDom.condition(self, I, st, v)]
        if v[0] in ("pempty", "finite", "strcond"): return [(s, b != neg) for s, b in I.fork_fact(st, v)]
        if v[0] in ("eq", "lt"):
            d = lin_add(v[2], v[1], -1)
            if d is not None:
                c, terms = to_lin(d)
                if set(terms) == {("len", ("obuf",))}:
                    lo, hi = (1, None) if st.ext.get(("W",), False) else (0, 0)
                    return [(s, b != neg) for s, b in self.decide_range(st, v[0], c, terms[("len", ("obuf",))], lo, hi, True)]
                if any(k[0] == "ctr" for k in terms) or self.styl(d):
                    r = self.counting(I, st, v[0], d)
                    if r is not None: return [(s, b != neg) for s, b in r]
                ids = {(k[1][1] if k[0] == "len" else k[1]) for k in terms if k[0] in ("len", "idx")}
                if ids: return [(s, b != neg) for s, b in self.list_cond(I, st, v[0], c, terms, ids)]
                if self.styl(d):
                    if v[0] == "lt":
                        if c <= 0 and all(x <= 0 for x in terms.values()): return [(st, neg)]
                        if c > 0 and all(x >= 0 for x in terms.values()): return [(st, not neg)]
                    elif c and (all(x >= 0 for x in terms.values()) if c > 0 else all(x <= 0 for x in terms.values())): return [(st, neg)]
                    return [(s, b != neg) for s, b in self.style_cond(I, st, v)]
            if floaty(v[1]) or floaty(v[2]): return [(s, b != neg) for s, b in I.fork_fact(st, v)]
        if v[0] == "sym": return [(s, b != neg) for s, b in self.style_cond(I, st, v)]
        raise Unsupported("the output depends on %s" % (v[:2],))

    def counting(self, I, st, op, d):
        """a loop that runs as often as a number of the style says"""
        fr = st.top
        if fr.kind != "mir": return None
        key = ("while", len(st.frames), fr.raw, fr.bb)
        pend = st.ext.get(key)
        loop = op == "lt"
        if pend is None:
            vs = countvars(I.P, fr)
            if vs is None: return None
            if op == "eq" and to_lin(d)[0] <= 0 and all(x <= 0 for x in to_lin(d)[1].values()): d = lin_add(("i", 0), d, -1); sign = -1
            else: sign = 1
            c, terms = to_lin(d)
            if c < 0 or any(x < 0 for x in terms.values()): return None
            vals = tuple((l, fr.loc[l]) for l in sorted(vs) if l in fr.loc and to_lin(fr.loc[l]) is not None)
            if not vals: return None
            for l, _ in vals: fr.loc[l] = ("ctr", l)
            h = self.snapw(I, st, vals)
            st.ext[key] = (d, h, vals, sign)
            st.emit("rep", d)
            return [(st, loop)]
        n, h, vals, sign = pend
        if sign < 0: d = lin_add(("i", 0), d, -1)
        c, terms = to_lin(d)
        steps = {}
        for l, x in vals:
            k = lin_add(fr.loc.get(l, UNIT), ("ctr", l), -1)
            if k is None or k[0] != "i": raise Unsupported("a loop with a counter that is not counted by one")
            steps[l] = k[1]
            cf = terms.pop(("ctr", l), 0)
            d = lin_add(lin_add(d, mul_lin(("ctr", l), cf), -1), mul_lin(x, cf), 1)
        if any(k[0] == "ctr" for k in terms) or d != lin_add(n, ("i", 1), -1): raise Unsupported("a loop with a counter that is not counted by one")
        del st.ext[key]
        if self.snapw(I, st, vals) != h: raise Unsupported("a loop over the indentation changes more than the output")
        for l, x in vals: fr.loc[l] = lin_add(x, mul_lin(n, steps[l]), 1)
        st.emit("endrep")
        return [(st, not loop)]

    def snapw(self, I, st, vals):
        fr = st.top
        old = dict(fr.loc); e = dict(st.ext)
        live = I.P.info(fr.raw, fr.prom).live
        keep = frozenset().union(*[live[b] for b in succs(I.P.body(fr.raw, fr.prom)["blocks"][fr.bb]["term"])])
        for l in list(fr.loc):
            if l not in keep: del fr.loc[l]
        for l, _ in vals: fr.loc[l] = ("ctr", l)
        st.ext[("W",)] = True
        for k in list(st.ext):
            if k[0] == "L" and st.ext[k][0] in ("cur0", "curN"): L = st.ext[k]; st.ext[k] = L[:2] + (True,) + L[3:]
        h = I.key(st)
        fr.loc = old; st.ext = e
        return h

    def style_cond(self, I, st, v):
        if syms(v) <= self.X.stylesyms: return [(st, self.X.decide(v))]
        return I.fork_fact(st, v)

    def list_cond(self, I, st, op, c, terms, ids):
        al = be = 0
        lst = None
        for k, x in terms.items():
            if k[0] == "len" and k[1][0] == "plist": lst = k[1]; al = x
            elif k[0] == "idx" and not (isinstance(k[1], tuple) and k[1][0] == "from"): be = x; lid = k[1]
            elif k[0] == "idx": return self.decide_range(st, op, c, x, 1, None, len(terms) == 1)
            else: raise Unsupported("the output depends on the length of a list")
        if len(ids) > 1: raise Unsupported("the output depends on the lengths of two lists")
        if lst is None: return self.decide_range(st, op, c, be, 1, None, True)       # the index of a later element
        L = self.L(st, lst[1])
        if L is None:
            out = []
            for s, b in self.start(I, st, lst): out += self.list_cond(I, s, op, c, terms, ids) if b else [(s, test(op, c))]
            return out
        if L[0] == "done": return self.decide_range(st, op, c, al, 1, None, be == 0)
        if L[0] == "cur0":
            if be: raise Unsupported("index")
            lo = 1
        elif be == -al: lo = 1
        elif be == 0: return self.decide_range(st, op, c, al, 2, None, True)
        else: raise Unsupported("the output depends on the length of a list")
        r = rng(op, c, al, lo, None)
        if r is not None: return [(st, r)]
        out = []
        for s, b in self.guess(st, lst):
            r = rng(op, c, al, 1, 1) if b else rng(op, c, al, 2, None)
            if r is None: raise Unsupported("the output depends on the length of a list")
            if b and s.top.kind == "mir" and countvars(I.P, s.top) is not None: self.past(I, s, lst)
            out.append((s, r))
        return out

    def decide_range(self, st, op, c, al, lo, hi, good):
        r = rng(op, c, al, lo, hi) if good else None
        if r is None: raise Unsupported("the output depends on the length of a list")
        return [(st, r)]

    # ------------------------------------------------------------ recursive parts
    def discr_of(self, I, st, v):
        if v[0] == "bad": raise Unsupported(v[1])
        return None

    def discr(self, I, st, x):
        if x[0] == "pcall" and x[3] is None:
            k = ("var", x[1])
            if k in st.facts: return [(st, st.facts[k])]
            out = []
            for i in sorted({a.out[2] for a in self.S.rule(x[2]) if not a.fail}):
                s = st.copy(); s.facts[k] = i
                out.append((s, i))
            return out
        if x[0] == "pcall": raise InPlace(x[2][0])
        raise Unsupported("discriminant of %s" % (x[0],))

    def field(self, I, st, v, f, variant):
        if v[0] == "pcall":
            vi = st.facts.get(("var", v[1]))
            if v[3] is None and vi is not None: return ("pcall", v[1], v[2], (vi, f))
            raise InPlace(v[2][0])
        if v[0] == "bad": return v
        return None

    def call(self, I, st, name, info, args):
        v = I.val(st, args[0]) if args else None
        last = name.split("::")[-1]
        if v == ("stdfmt",):
            if last in ("write_str", "pad", "write_char"):
                x = I.val(st, args[1])
                return self.put_parts(I, st, x[1] if x[0] == "cat" else (x,), ok(UNIT))
            if last == "write_fmt":
                x = M.fmt_cat(I, st, args[1])
                return self.put_parts(I, st, x[1] if x[0] == "cat" else (x,), ok(UNIT))
            if last in ("alternate", "width", "precision", "sign_plus", "fill"): raise Unsupported("the output depends on the format flags")
        if last == "fmt" and len(args) == 2 and I.val(st, args[1]) == ("stdfmt",) and v[0] in ("obuf", "s", "cat"):
            self.put(I, st, v)
            return I.ret(st, ok(UNIT))
        if name in ("f64::abs",): return I.ret(st, ("fabs", v))
        if name.startswith("f64::") and floaty(v):
            if last in ("is_finite",): return I.ret(st, ("b", True))
            if last in ("is_nan", "is_infinite"): return I.ret(st, ("b", False))
            return I.ret(st, ("fop", last, v))
        return None

    def cast(self, I, st, v, t, kind):
        if t[0] in ("uint", "int") and v[0] in ("sym", "lin", "len", "idx") and t[1] in ("usize", "u64", "i64", "isize", "u128", "i128"): return v
        if floaty(v) or v[0] == "conv": return ("fop", "cast", v)
        return None

    def str_method(self, I, st, n, v, args, info):
        if v[0] == "unq" and n in ("contains", "starts_with", "ends_with", "is_ascii"):
            return I.ret(st, ("strcond", n, v, tuple(close(I, st, a) for a in args[1:])))
        if v[0] == "s" and n == "repeat" and self.styl(args[1]): return I.ret(st, ("cat", (("rep", v, args[1]),)))
        return None

    def eq(self, I, st, a, b):
        if b[0] == "unq": a, b = b, a
        if a[0] == "unq" and b[0] == "s": return ("strcond", "eq", a, b)
        return PDom.eq(self, I, st, a, b)

    # ------------------------------------------------------------ output
    def fmtof(self, I, st, a):
        """address of a formatter the argument points to"""
        while a[0] == "ref":
            if a[2][0] != "@": a = a[2][1]; continue
            v = I.addr_read(st, a[2])
            if v[0] == "ref": a = v; continue
            if v[0] == "adt" and self.X.strfield(v) is not None: return a[2]
            return None
        return None

    def takeover(self, I, st, args):
        """a structure with a text buffer that is handed on by reference: its text is the output from here on"""
        for a in args:
            ad = self.fmtof(I, st, a)
            if ad is None: continue
            v = I.addr_read(st, ad)
            i = self.X.strfield(v)
            if v[3][i][0] in ("s", "cat"):
                if st.ext.get(("O",)): raise Unsupported("two outputs at once")
                st.ext[("O",)] = True
                self.put(I, st, v[3][i])
                I.addr_write(st, ad, ("adt", v[1], v[2], v[3][:i] + (("obuf",),) + v[3][i + 1:]))

    def local_call(self, I, st, raw, env, args):
        self.takeover(I, st, args)
        ads = [(i, self.fmtof(I, st, a)) for i, a in enumerate(args)]
        ads = [(i, a) for i, a in ads if a is not None]
        if not ads: return None
        vals = [I.val(st, a) for a in args]
        leaf = [i for i, v in enumerate(vals) if v[0] == "pcall"]
        quo = [i for i, v in enumerate(vals) if v[0] == "unq"]
        if not leaf and not quo: return None
        if len(ads) != 1: raise Unsupported("%s writes to two outputs" % raw)
        if len(leaf) + len(quo) != 1 or any(has_leaf(close(I, st, a)) for i, a in enumerate(args) if i not in leaf + quo and i != ads[0][0]):
            if sum(f.kind == "mir" and f.raw == raw for f in st.frames) > 2: raise Unsupported("%s is given other parts of the document too" % raw)
            return None
        t = I.P.ty(I.P.body(raw)["locals"][0])
        if t != ("tuple", ()): raise Unsupported("%s returns a value" % raw)
        fi, ad = ads[0]
        fv = close(I, st, I.addr_read(st, ad))
        can, ints = self.X.canon(fv)
        li = (leaf or quo)[0]
        x = vals[li]
        pat = []
        for i, a in enumerate(args):
            if i == fi: pat.append(("FMT", refdepth(I, st, a)))
            elif i == li: pat.append(("LEAF", refdepth(I, st, a)))
            else:
                pat.append(close(I, st, a))
        if leaf:
            tags = self.tags(st, x[1])
            root = ("nt", raw, env, tuple(pat), can, x[2], x[3], st.ext.get(("W",), False))
            self.X.want(root)
            st.emit("call", root, x[2][0], tags, ints)
        else:
            self.X.writers.setdefault((raw, env, tuple(pat), can), set()).add(st.top.raw)
            st.emit("leaf", "str", C.one("StringValue"), self.tags(st, x[2][1]), ints)
        self.mark(st)
        return I.ret(st, UNIT)

    def enter(self, I, st, raw):
        fr = st.top
        self.takeover(I, st, [a for a in fr.loc.values() if isinstance(a, tuple)])

    def mark(self, st):
        st.ext[("W",)] = True
        for k in list(st.ext):
            if k[0] == "L" and st.ext[k][0] in ("cur0", "curN"): L = st.ext[k]; st.ext[k] = L[:2] + (True,) + L[3:]

    def push_str(self, I, st, a, v, x):
        if v == ("obuf",):
            self.put(I, st, x)
            return UNIT
        return None

    def display(self, I, st, how, spec, v):
        if v[0] in ("ttext", "unq", "obuf", "joined") and how == "display" and not spec: return v
        sp = dict(spec)
        if v == ("s", "") and how == "display" and "widthv" in sp and set(sp) <= {"widthv", "flags"} and sp.get("flags", 32) & 0x07ffffff == 32 and self.styl(sp["widthv"]):
            n = sp["widthv"]
            return ("s", " " * n[1]) if n[0] == "i" else ("cat", (("rep", ("s", " "), n),))
        if v[0] == "unq" and how == "debug": return ("bad", "a string is written with the escapes of Rust")
        return None

    def to_string(self, I, st, v, info):
        if v[0] == "conv": return ("fa", "display", (), v)
        if v[0] == "b": return ("s", "true" if v[1] else "false")
        return None

    # ---- a sequence of texts that is put together later
    def consume(self, I, st, n, it, args, info):
        if n != "collect": return None
        b = it
        while b[0] == "adt" and b[1] in ("it::map", "it::cloned", "it::enumerate", "it::filter", "it::copied"): b = b[3][0]
        if b[0] != "adt" or b[1] != "it::plist" or b[3][2] != ("i", 0) and b[3][3] == ("i", 0): return None
        t = info["targs"][1] if len(info["targs"]) > 1 else None
        if not t or t[0] != "adt": return None
        if mutates(it): raise Unsupported("a closure with effects in a sequence that is collected")
        if t[1].endswith("::String"): return I.ret(st, ("joined", it, ("s", "")))
        if t[1].endswith("::Vec"): return I.ret(st, ("later", it))
        return None

    def join(self, I, st, v, sep):
        if v[0] == "later": return ("joined", v[1], sep)
        if v[0] == "plist": return ("joined", IT("plist", v, ("b", True), ("i", 0), ("i", 0)), sep)
        return None

    def write_out(self, I, st, a, v, x, ret):
        """texts with sequences in them"""
        if v != ("obuf",): return None
        x = I.val(st, x)
        parts = x[1] if x[0] == "cat" else (x,)
        if not any(p[0] == "joined" for p in parts): return None
        return self.put_parts(I, st, parts, ret)

    def put_parts(self, I, st, parts, ret):
        for i, p in enumerate(parts):
            if p[0] == "joined":
                d = I.pushk(st, "pjoin", it=p[1], sep=p[2], first=("b", True), rest=("vec", parts[i + 1:]), ret=ret)
                return M.it_next(I, st, ("@", d, "it", ()))
            self.put(I, st, p)
        return I.ret(st, ret)

    def put(self, I, st, x):
        x = I.val(st, x)
        k = x[0]
        if k == "c": x = ("s", chr(x[1])); k = "s"
        if k == "cat":
            for p in x[1]: self.put(I, st, p)
            return
        if k == "s":
            if x[1] == "": return
            st.emit("t", x[1])
            st.ext[("W",)] = True
            if any(c not in LAYOUT for c in x[1]): self.mark(st)
            return
        if k == "obuf":
            st.emit("final"); return
        if k == "rep":
            st.emit("rep", x[2]); self.put(I, st, x[1]); st.emit("endrep"); return
        if k == "ttext":
            cls = st.facts.get(("cls", x[1]))
            if cls is None and x[1][0] == "el": cls = dict(x[1][3]).get(x[1][4])
            if cls is None: raise Unsupported("class of a token")
            st.emit("leaf", "name", cls, self.tags(st, x[1]), ())
        elif k == "fa":
            self.number(I, st, x)
        elif k == "unq": st.emit("bad", "the characters of a string are written without quoting")
        elif k == "bad": st.emit("bad", x[1])
        else: raise Unsupported("%s is written" % (k,))
        self.mark(st)

    def number(self, I, st, x):
        _, how, spec, v = x
        if v[0] != "conv": raise Unsupported("%s is written" % (v[0],))
        cls = st.facts.get(("cls", v[2][1]))
        tags = self.tags(st, v[2][1])
        if v[1] in ("i64", "i128"):
            if how not in ("display", "debug") or spec: st.emit("bad", "an integer is written in another notation (%s %s)" % (how, spec))
        elif v[1] == "f64":
            good = how == "debug" and not spec
            if how == "display" and not spec:
                lo, hi = interval(st.facts, v)
                good = lo >= -2.0 ** 63 and hi <= 2.0 ** 63
            if not good: st.emit("bad", "a float is written by {%s} where the literal may be read as an integer out of range or lose digits" % {"display": "", "debug": ":?", "lower_exp": ":e"}.get(how, how))
        else: st.emit("bad", "a number of type %s is written" % v[1])
        st.emit("leaf", "num", cls, tags, ())

    # ------------------------------------------------------------ end
    def finish(self, I, st, fr, v):
        fmt = fr.loc.get("fmt")
        X = self.X
        out = fr.loc["out"]
        st.frames.pop()
        self.complete_all(I, st, out)
        if any(k[0] == "while" for k in st.ext): raise Unsupported("a loop over the indentation is left early")
        if fr.loc["doc"] == ("b", True):
            w = I.val(st, v)
            if fr.loc["how"] == ("s", "format"):
                parts = w[1] if w[0] == "cat" else (w,)
                if not parts or parts[0] != ("obuf",): raise Unsupported("the text returned is not what was written")
                for p in parts[1:]: self.put(I, st, p)
            elif not (w[0] == "adt" and w[1] == RES and w[2] == 0): st.emit("bad", "Display reports an error")
            st.emit("eof")
        st.emit("result", X.tabs[st.ext[("S0",)]][2])
        return I.ret(st, fmt if fmt is not None else UNIT)


def interval(facts, v):
    """what the comparisons made say about a float"""
    lo, hi = -float("inf"), float("inf")
    up = float("inf")
    for c, b in facts.items():
        if c[0] not in ("lt", "eq"): continue
        for x, k, less in ((c[1], c[2], True), (c[2], c[1], False)):
            k = fconst(k)
            if k is None: continue
            edge = abs(k) == 2.0 ** 63      # the bound itself is too large
            if c[0] == "eq":
                if b is True and x == v: lo, hi = max(lo, k), min(hi, k)
                continue
            if b is False and edge: k = k * 2
            if less == (b is True):
                if x == v: hi = min(hi, k)
                if x == ("fabs", v): up = min(up, k)
            elif x == v: lo = max(lo, k)
    return max(lo, -up), min(hi, up)


def mul_lin(v, k):
    r = ("i", 0)
    for _ in range(abs(k)): r = lin_add(r, v, 1 if k > 0 else -1)
    return r


COUNT = {}


def countvars(P, fr):
    """locals a counting loop changes, if the branch at the end of this block leaves such a loop"""
    key = (fr.raw, fr.prom, fr.bb)
    if key in COUNT: return COUNT[key]
    COUNT[key] = None
    blocks = P.body(fr.raw, fr.prom)["blocks"]
    t = blocks[fr.bb]["term"]
    if t["t"] != "switch": return None
    def reach(b):
        seen = {b}; wl = [b]
        while wl:
            for y in succs(blocks[wl.pop()]["term"]):
                if y not in seen: seen.add(y); wl.append(y)
        return seen
    ss = set(succs(t))
    back = {x for x in ss if fr.bb in reach(x)}
    if not back or back == ss: return None
    scc = {x for b in back for x in reach(b) if fr.bb in reach(x)}
    assigned = set()
    for b in scc:
        for s in blocks[b]["st"]:
            if s["s"] == "=" and not s["p"]["p"]: assigned.add(s["p"]["l"])
        if blocks[b]["term"]["t"] == "call" and blocks[b]["term"].get("dest") and not blocks[b]["term"]["dest"]["p"]: assigned.add(blocks[b]["term"]["dest"]["l"])
    need = {p["l"] for p in op_places(t["o"])}
    b = fr.bb
    for _ in range(4):
        for s in reversed(blocks[b]["st"]):
            if s["s"] == "=" and s["p"]["l"] in need and not s["p"]["p"]:
                need.discard(s["p"]["l"])
                for o in rv_ops(s["r"]): need |= {p["l"] for p in op_places(o)}
        pre = [x for x in range(len(blocks)) if b in succs(blocks[x]["term"])]
        if len(pre) != 1 or pre[0] not in scc or len(succs(blocks[pre[0]]["term"])) != 1: break
        b = pre[0]
    live = P.info(fr.raw, fr.prom).live
    vs = assigned & frozenset().union(*[live[b] for b in ss])
    if not (need & vs): return None
    COUNT[key] = vs
    return vs


def syms(v):
    if not isinstance(v, tuple) or not v: return frozenset()
    if v[0] == "sym": return frozenset([v[1]])
    return frozenset().union(*[syms(x) for x in v if isinstance(x, tuple)])


def test(op, d): return d > 0 if op == "lt" else d == 0


def rng(op, c, al, lo, hi):
    """truth of c + al*m > 0 (lt) or == 0 (eq) for all m in lo..hi, None if it varies"""
    if al == 0: return test(op, c)
    a = c + al * lo
    b = c + al * hi if hi is not None else (float("inf") if al > 0 else float("-inf"))
    mn, mx = min(a, b), max(a, b)
    if op == "lt": return True if mn > 0 else False if mx <= 0 else None
    if mn == mx == 0: return True
    return False if mn > 0 or mx < 0 else None


def floaty(v): return v[0] in ("f", "fabs", "fop") or (v[0] == "conv" and v[1].startswith("f"))


def fconst(v):
    if v[0] != "f": return None
    try: return float(v[1])
    except (TypeError, ValueError): return None


def lists_len(it): return True


def refdepth(I, st, a):
    n = 0
    while a[0] == "ref":
        n += 1
        a = I.deref(st, a)
    return n


def has_leaf(v):
    if not isinstance(v, tuple) or not v: return False
    if isinstance(v[0], str) and v[0] in LEAVES: return True
    return any(has_leaf(x) for x in v)


def stale(v, ids, msg):
    if not isinstance(v, tuple) or not v: return v
    if isinstance(v[0], str) and v[0] in LEAVES:
        if any(mention(v, x) for x in ids): return msg
        return v
    r = tuple(stale(x, ids, msg) for x in v)
    return v if r == v else r


def lists_of(v):
    """lists of an alternative's value"""
    out = []
    def w(x):
        if not isinstance(x, tuple) or not x: return
        if x[0] == "plist":
            if x not in out: out.append(x)
            return
        if isinstance(x[0], str) and x[0] in LEAVES: return
        for y in x: w(y)
    w(v)
    return out


def show_paths(ps): return " and ".join("/".join(p[-2:]) or "the document" for p in sorted(ps))


# ====================================================================== the analysis
def canon_alt(alt, reps):
    """name-independent form of what the printer sees of an alternative"""
    m = {}
    def w(v):
        if not isinstance(v, tuple) or not v: return v
        if len(v) == 2 and v[0] == "#":
            if v not in m: m[v] = ("#", len(m))
            return m[v]
        if v[0] == "plist":
            i = w(v[1])
            r = reps[v[1]]
            if r[0] == "rep" and i not in done:
                done.add(i)
                lists.append((i, r[3], tuple(sorted({canon_alt(a, reps) for a in r[2] if not a.fail}, key=repr))))
            return ("plist", i, v[2])
        return tuple(w(x) for x in v)
    done = set(); lists = []
    out = w(alt.out)
    facts = []
    for k, x in alt.facts.items():
        if k[0] == "pempty":
            if k[1] in m: facts.append((k[0], m[k[1]], x))
        elif k[0] == "cls":
            if k[1] in m: facts.append((k[0], m[k[1]], strkind(x)))
        else: facts.append((w(k), x))
    return (out, frozenset(facts), tuple(lists))


def strkind(c):
    return frozenset(("StringValue" if k == "BlockString" else k, n, t) for k, n, t in c)


def mini(alts, S):
    """one of the alternatives the printer cannot tell apart"""
    out = {}
    for a in alts:
        if a.fail: continue
        b = Alt(a.items, a.out, narrowed(S, a.items, a.facts))
        out.setdefault(canon_alt(b, S.reps), b)
    return list(out.values())


def trailing(S, a):
    """what must not come after an alternative"""
    b = C.NONE
    for it in reversed(a.items):
        if it[0] == "nn": b = C.union(b, S.nncls(it[1]))
        elif it[0] == "pos": pass
        elif it[0] == "rep":
            f = S.first(it[4] if it[4] is not None else it[2])[0]
            e = a.facts.get(("pempty", it[1]))
            if e is True: b = C.union(b, S.first(it[2])[0])
            else:
                if it[4] is None or it[3] >= 1 or e is False: b = C.union(b, f)
                if it[3] >= 1 or e is False: break
        else: break
    return b


class Root:
    """one function of the printer with what it is given"""
    def __init__(self, key):
        self.key = key
        self.graphs = []         # (alternative, nodes, edges)
        self.panics = []
        self.unbalanced = set()
        self.nodes = 0


class X:
    def __init__(self, P, doc):
        self.P = P
        self.doc = doc           # "Query" or "Schema"
        self.base = Grammar(P)
        self.cut = {"Query": {"Directive", "VariableDefinition"}, "Schema": {"Directive", "Field", "InputValue", "EnumValue"}}[doc]
        self.styleadt = self.find_adt("Style", "format")
        self.visited = set()
        self.writers = {}
        self.start()

    def find_adt(self, name, mod):
        c = [p for p, a in self.P.adts.items() if a.get("local") and p.split("::")[-1] == name]
        if len(c) > 1: c = [p for p in c if "::%s::" % mod in p]
        if len(c) != 1: raise Unsupported("type %s not found" % name)
        return c[0]

    def start(self):
        self.S = PSpec(self.P, self.base, self.cut)
        self.S.solve([(self.doc + "Document", ())])
        self.tabs = []; self.tabidx = {}
        self.alts_ = {}; self.blocks = {}
        self.dom = PrDom(self)

    def alts(self, i):
        """alternatives of an element; what must not come next is kept with each of them"""
        if i not in self.alts_:
            S = self.S
            rep = S.reps[i]
            groups = {}
            for a in rep[2]:
                if a.fail: continue
                b = C.NONE if rep[4] is not None else C.inter(trailing(S, a), S.first(rep[2])[0])
                groups.setdefault(b, []).append(a)
            firsts = any(groups)
            out = []
            for b, l in groups.items():
                sub = {}
                for a in l: sub.setdefault(S.first_items(a.items, a.facts)[0] if firsts else None, []).append(a)
                for f, m in sub.items(): out += [(a, b, f) for a in mini(m, S)]
            self.alts_[i] = [a for a, _, _ in out]
            self.blocks[i] = [(b, f) for _, b, f in out]
        return self.alts_[i]

    def may_follow(self, i, j, k):
        """may an element of alternative k follow one of alternative j"""
        self.alts(i)
        b = self.blocks[i][j][0]
        return not b or bool(C.minus(self.blocks[i][k][1], b))

    # ------------------------------------------------------------ tables
    def table(self, lid, j, paths, out):
        k = (lid, j, paths)
        if k not in self.tabidx:
            A = Auto(self.S, None, False)
            T = {"tok": {}, "pos": {}, "list": {}, "elem": []}
            sk = [A.walk(out, p, T) for p in paths][0]
            self.tabidx[k] = len(self.tabs)
            self.tabs.append((T, paths, sk))
        return self.tabidx[k]

    def box(self, v):
        if v[0] == "adt" and v[1] in self.P.adts:
            fs = self.P.adts[v[1]]["variants"][v[2]]["fields"]
            out = []
            for f, x in zip(fs, v[3]):
                x = self.box(x)
                t = self.P.ty(f["ty"])
                if t[0] == "adt" and t[1] == BOX and not (x[0] == "adt" and x[1] == BOX): x = ("adt", BOX, 0, (x,))
                out.append(x)
            return ("adt", v[1], v[2], tuple(out))
        if v[0] == "adt": return ("adt", v[1], v[2], tuple(self.box(x) for x in v[3]))
        if v[0] in ("tup", "vec"): return (v[0], tuple(self.box(x) for x in v[1]))
        return v

    # ------------------------------------------------------------ formatter
    def strfield(self, v):
        a = self.P.adts.get(v[1])
        if not a or not a.get("local") or a["kind"] != "struct": return None
        r = [i for i, (f, x) in enumerate(zip(a["variants"][0]["fields"], v[3])) if x[0] in ("obuf", "s", "cat") and self.P.ty(f["ty"])[0] == "adt" and self.P.ty(f["ty"])[1].endswith("::String")]
        return r[0] if len(r) == 1 else None

    def canon(self, fv):
        """the formatter with unknown numbers, and the numbers"""
        ints = []
        def w(v, path, style):
            if v[0] == "adt":
                st = style or v[1] == self.styleadt
                if v[1] == self.styleadt: return self.style_of(v)
                return ("adt", v[1], v[2], tuple(w(x, path + (i,), st) for i, x in enumerate(v[3])))
            if v[0] == "ref": return ("ref", v[1], ("v", w(v[2][1], path, style))) if v[2][0] == "v" else v
            if v[0] in ("s", "cat", "obuf"): return ("obuf",)
            if v[0] in ("i", "sym", "lin", "cast"):
                ints.append((path, v))
                return ("sym", ("F",) + path, ("uint", "usize"))
            return v
        return w(fv, (), False), tuple(ints)

    def style_of(self, v):
        fs = self.P.adts[self.styleadt]["variants"][0]["fields"]
        out = []
        for i, (f, x) in enumerate(zip(fs, v[3])):
            if self.P.ty(f["ty"])[0] in ("uint", "int"): out.append(("sym", ("style", f["name"]), self.P.ty(f["ty"])))
            else: out.append(x)
        return ("adt", v[1], v[2], tuple(out))

    def styles(self):
        """every combination of the switches of a style, with unknown numbers"""
        fs = self.P.adts[self.styleadt]["variants"][0]["fields"]
        combos = [()]
        self.stylesyms = set()
        for f in fs:
            t = self.P.ty(f["ty"])
            if t[0] in ("uint", "int"):
                self.stylesyms.add(("style", f["name"]))
                vs = [("sym", ("style", f["name"]), t)]
            elif t == ("bool",): vs = [("b", False), ("b", True)]
            elif t[0] == "adt" and t[1] in self.P.adts and all(not x["fields"] for x in self.P.adts[t[1]]["variants"]): vs = [("adt", t[1], i, ()) for i in range(len(self.P.adts[t[1]]["variants"]))]
            else: raise Unsupported("style field %s" % f["name"])
            combos = [c + (x,) for c in combos for x in vs]
        return [("adt", self.styleadt, 0, c) for c in combos]

    def decide(self, v):
        if v not in self.ctx: raise Split(v)
        return self.ctx[v]

    def want(self, root):
        if root not in self.cur:
            self.cur[root] = None
            self.todo.append(root)

    # ------------------------------------------------------------ exploration
    def entry(self, how):
        t = "graphql_parser::%s::" % self.doc.lower()
        for r, f in self.P.fns.items():
            if f["path"] and "implself" in f:
                st = self.P.ty(f["implself"])
                if not (st[0] == "adt" and st[1].startswith(t) and st[1].endswith("::Document")): continue
                if how == "format" and "implof" not in f and f.get("name") == "format": return r
                if how == "display" and f.get("implof", "").startswith("std::fmt::Display") and f.get("name") == "fmt": return r
        raise Unsupported("%s of %s documents not found" % (how, self.doc))

    def explore(self, root):
        R = Root(root)
        P = self.P
        if root[0] == "doc":
            _, how, style = root
            raw = self.entry(how); env = ()
            key = (self.doc + "Document", ()); proj = None
        else:
            _, raw, env, pat, can, key, proj, wrote = root
        R.raw = raw; R.nt = key[0]; R.proj = proj
        for a in mini(self.S.rule(key), self.S):
            out = self.box(a.out)
            if proj is not None:
                if out[2] != proj[0]: continue
                out = out[3][proj[1]]
            I = Interp(P, self.dom, fuel=4000000)
            st = St()
            st.facts = dict(a.facts)
            st.ext[("S0",)] = self.table("root", (key, a.items), ((),), a.out)
            st.ext[("W",)] = root[0] != "doc" and wrote
            k = dict(out=a.out, doc=("b", root[0] == "doc"), how=("s", root[1] if root[0] == "doc" else ""))
            if root[0] == "doc":
                I.pushk(st, "proot", **k)
                args = [refv(out), refv(style)] if root[1] == "format" else [refv(out), ("ref", True, ("v", ("stdfmt",)))]
            else:
                I.pushk(st, "proot", fmt=can, **k)
                st.ext[("O",)] = True
                args = []
                for p in pat:
                    if p[0] == "FMT": x = ("ref", True, ("@", 0, "fmt", ()))
                    elif p[0] == "LEAF": x = out
                    else: args.append(p); continue
                    for _ in range(p[1] - (p[0] == "FMT")): x = refv(x)
                    args.append(x)
            I.push(st, raw, tuple(env), args)
            n, edges = I.explore(st, 60000)
            R.nodes += n
            self.visited |= I.visited
            for src, ev, dst in edges:
                if not isinstance(dst, tuple): continue
                if dst[0] == "panic": R.panics.append(dst[1])
                elif root[0] != "doc":
                    v = dst[1]
                    if v != can: R.unbalanced.add(diff(v, can))
            R.graphs.append((a, n, edges))
        if not R.graphs: raise Unsupported("%s prints nothing of %s" % (P.where(raw), key[0]))
        return R

    def run(self):
        """[(assignment, {root: Root})] for every class of styles"""
        while True:
            try: return self.run_()
            except InPlace as e:
                if e.nt not in self.cut: raise
                self.cut = self.cut - {e.nt}
                self.start()

    def run_(self):
        styles = self.styles()
        work = [{}]
        self.contexts = []
        self.writers = {}
        while work:
            self.ctx = work.pop()
            self.cur = {}; self.todo = []
            try:
                for s in styles: self.want(("doc", "format", s))
                self.want(("doc", "display", None))
                while self.todo:
                    r = self.todo.pop()
                    self.cur[r] = self.explore(r)
            except Split as e:
                v = e.args[0]
                if len(self.ctx) > 6: raise Unsupported("the output depends on too many conditions on the style")
                work += [dict(self.ctx, **{}) | {v: b} for b in (True, False)]
                continue
            self.contexts.append((self.ctx, self.cur))
        return self.contexts


def diff(a, b):
    if a[0] == b[0] == "adt" and a[1] == b[1]:
        return tuple(sorted(str(i) for i, (x, y) in enumerate(zip(a[3], b[3])) if x != y)) or ("?",)
    return ("?",)
