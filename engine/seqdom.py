"""Element-wise reasoning about unknown lists: iterating an unknown list yields "its elements, once, in order"; a list built by
pushing one image per element is the value ("mapped", source path, image of the generic element).  Sound for every length: the
loop state keeps only whether the last yielded element has been pushed yet and whether an element was yielded before."""
from interp import Dom, Unsupported, refv, some, NONE, UNIT
from models import IT

SEQ = ("std::vec::Vec", "std::collections::BTreeMap", "std::collections::BTreeSet", "std::collections::VecDeque")


def is_seq(t):
    return t[0] in ("slice", "array") or (t[0] == "adt" and (t[1] in SEQ or t[1].endswith("::Vec") or t[1].endswith("BTreeMap")))


def elem(P, v):
    """generic element of the unknown list v"""
    _, path, t = v
    if t[0] in ("slice", "array"): return ("sym", path + ("[*]",), t[1])
    if t[1].endswith("BTreeMap"):
        return ("tup", (mksym(path + ("[key]",), t[2][0]), mksym(path + ("[val]",), t[2][1])))
    return mksym(path + ("[*]",), t[2][0])


def mksym(path, t):
    if t[0] == "ref": return ("ref", t[1], ("v", mksym(path, t[2])))
    return ("sym", path, t)


def mapvals(v, f):
    """rewrite a value bottom-up"""
    if not isinstance(v, tuple) or not v: return v
    k = v[0]
    if k == "img" or k == "sym": return f(v)
    if k in ("tup", "vec"): return (k, tuple(mapvals(x, f) for x in v[1]))
    if k == "adt": return (k, v[1], v[2], tuple(mapvals(x, f) for x in v[3]))
    if k == "clo": return (k, v[1], tuple(mapvals(x, f) for x in v[2]), v[3])
    if k == "ref" and v[2][0] == "v": return (k, v[1], ("v", mapvals(v[2][1], f)))
    return v


def mapstate(st, f):
    for fr in st.frames:
        for l in list(fr.loc):
            if isinstance(fr.loc[l], tuple): fr.loc[l] = mapvals(fr.loc[l], f)


class SeqDom(Dom):
    def make_iter(self, I, st, v, n, args, info):
        if v[0] == "sym" and is_seq(v[2]) and n.split("::")[1] in ("into_iter", "iter", "iter_mut", "drain"):
            return IT("sym", v, ("i", 0), ("b", args[0][0] == "ref"))
        if v[0] == "mapped":
            return IT("mapped", v, ("i", 0), ("b", args[0][0] == "ref"))
        if v[0] == "img": raise Unsupported("iteration over a list under construction")
        return None

    def iter_next(self, I, st, a, v):
        if v[0] != "adt" or v[1] != "it::sym": return None
        src, k, byref = v[3]
        path = src[1]
        out = []
        s = st.copy()          # the end
        if k[1] == 0: s.facts[("empty", path)] = True
        else: s.facts[("empty", path)] = False
        if st.facts.get(("empty", path)) not in (None, s.facts[("empty", path)]): s = None
        if s is not None:
            def end(x):
                if x[0] == "img" and x[1] == path:
                    return ("bad", "the last element of %s is left out" % show(path)) if x[3] else ("mapped", path, x[2])
                return x
            mapstate(s, end)
            I.addr_write(s, a, IT("vec", ("vec", ()), ("i", 0), ("b", False)))
            out += I.ret(s, NONE)
        if st.facts.get(("empty", path)) is not True:
            s = st.copy()
            s.facts[("empty", path)] = False
            for kk in [kk for kk in s.facts if mentions(kk, path + ("[",)) ]: del s.facts[kk]
            def nxt(x):
                if x[0] == "img" and x[1] == path:
                    return ("bad", "an element of %s is left out" % show(path)) if x[3] else ("img", path, x[2], True)
                return x
            mapstate(s, nxt)
            I.addr_write(s, a, IT("sym", src, ("i", min(2, k[1] + 1)), byref))
            e = elem(I.P, src)
            if byref[1]: e = ("tup", tuple(refv(x) if x[0] != "ref" else x for x in e[1])) if e[0] == "tup" else (refv(e) if e[0] != "ref" else e)
            out += I.ret(s, some(e))
        return out

    # ---- building
    def pushed(self, I, st, v, x):
        """list value v after x was appended"""
        x = strip(I, st, x)
        if v[0] == "vec" and v[1] == ():
            for p in sources(x):
                k = self.cursor(st, p)
                if k == 1: return ("img", p, x, False)
        if v[0] == "img":
            if not v[3]: return ("bad", "an element of %s is added twice, or something else is added" % show(v[1]))
            if x != v[2]: return ("bad", "elements of %s are treated differently: %s and %s" % (show(v[1]), v[2], x))
            return ("img", v[1], v[2], False)
        if v[0] == "bad": return v
        if v[0] == "vec":
            if len(v[1]) > 16: raise Unsupported("unbounded list")
            return ("vec", v[1] + (x,))
        raise Unsupported("push to %s" % v[0])

    def cursor(self, st, path):
        best = None      # moved-from copies of the iterator stay behind with a smaller count
        for fr in st.frames:
            for l, v in fr.loc.items():
                r = find_it(v, path)
                if r is not None and (best is None or r > best): best = r
        return best

    def vec_push(self, I, st, a, v, x):
        I.addr_write(st, a, self.pushed(I, st, v, x))
        return I.ret(st, UNIT)

    def collect_item(self, I, st, acc, x):
        if acc[0] in ("vec", "img", "bad"): return self.pushed(I, st, acc, x)
        return None

    def call(self, I, st, name, info, args):
        if name in ("BTreeMap::insert", "VecDeque::push_back"):
            from models import addr_of
            a = addr_of(I, st, args[0])
            v = I.addr_read(st, a)
            I.addr_write(st, a, self.pushed(I, st, v, ("tup", (args[1], args[2])) if name.startswith("BTree") else args[1]))
            return I.ret(st, NONE if name.startswith("BTree") else UNIT)
        return None

    def is_empty(self, I, st, v):
        if v[0] == "sym": return ("isempty", v[1])
        return None

    def condition(self, I, st, v):
        neg = False
        while v[0] == "not": neg = not neg; v = v[1]
        if v[0] == "isempty": v = ("empty", v[1])
        return [(s, b != neg) for s, b in I.fork_fact(st, v)]


def strip(I, st, v):
    v = I.val(st, v)
    if v[0] == "tup": return ("tup", tuple(strip(I, st, x) for x in v[1]))
    return v


def find_it(v, path):
    if not isinstance(v, tuple): return None
    if len(v) == 4 and v[0] == "adt" and v[1] == "it::sym" and v[3][0][1] == path: return v[3][1][1]
    for x in v:
        if isinstance(x, tuple):
            r = find_it(x, path)
            if r is not None: return r
    return None


def sources(x):
    """paths of the lists whose generic element x mentions, longest first"""
    out = []
    def w(v):
        if not isinstance(v, tuple): return
        if v and all(isinstance(y, str) for y in v):
            p = v
            for i in range(len(p) - 1, -1, -1):
                if isinstance(p[i], str) and p[i].startswith("[") and p[:i] not in out: out.append(p[:i])
        for y in v: w(y)
    w(x)
    return sorted(out, key=len, reverse=True)


def mentions(k, path):
    """does the fact key k speak about an element below path"""
    pre = path[:-1]
    def w(v):
        if isinstance(v, tuple):
            if len(v) > len(pre) and v[:len(pre)] == pre and isinstance(v[len(pre)], str) and v[len(pre)].startswith("["): return True
            return any(w(y) for y in v)
        return False
    return w(k)


def show(p):
    return ".".join(str(x) for x in p).replace(".[", "[")
