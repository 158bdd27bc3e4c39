"""The token source of the parsers, interpreted over an unknown text: what it returns, where it stands afterwards, how it counts."""
from interp import Interp, COND, St, Unsupported, refv, some, NONE, UNIT, OPT, RES
import models as M
import ovf
from models import kont, IT, to_lin, mk_lin
from tape import Tape, Widen, FIXED, rename, bounds_in, starts_in, pos, ts, MAXCH, ENDCP, ANY, cls, chars, inter, minus
from mir import short
from lang import Alphabet, Lang, ENDERS

STREAM = "StreamOnce"
USZ = ("uint", "usize")


@kont("p:truth")
def k_truth(I, st, fr, v):
    """the truth value a predicate returns is decided before the predicate ends"""
    st.frames.pop()
    if v[0] not in COND: return I.ret(st, v)
    return [x for s, r in I.truth(st, v) for x in I.ret(s, ("b", r))]


@kont("root")
def k_root(I, st, fr, v):
    me = fr.loc.get("me")
    v = I.close_refs(st, v, 1)
    st.frames.pop()
    st.result = ("tup", (v, me)) if me is not None else v
    return [st]


class LexDom(Tape):
    def __init__(self, lexer, regs=()):
        Tape.__init__(self, regs)
        self.lexer = lexer

    def local_call(self, I, st, raw, env, args):
        """functions from slices of the text to a truth value are analysed by themselves"""
        b = I.P.body(raw)
        if I.P.ty(b["locals"][0]) != ("bool",) or not args: return None
        vals = [closed(I, st, a) for a in args]
        if any(v is None for v in vals): return None
        starts = []
        for v in vals: starts_in(v, starts)
        starts = {self.can(st, x) for x in starts}
        vals = [self.rebase(st, v, starts) for v in vals]
        acc = []
        for v in vals: bounds_in(v, acc)
        acc = [self.can(st, x) for x in acc]
        acc = [x for i, x in enumerate(acc) if x not in acc[:i] and x not in FIXED]
        if not acc: return None
        al = {k[1]: self.can(st, k[1]) for k in st.facts if k[0] == "al"}
        m = {x: i + 1 for i, x in enumerate(acc)}
        cv = tuple(rename(rename(v, al), m) for v in vals)
        od = frozenset((m[a], m[c]) for a in acc for c in acc if a != c and self.before(st, a, c))
        key = (raw, env, cv, od)
        outs = self.lexer.predicate(key, len(acc))
        out = []
        for o in outs:
            s = st.copy()
            s.emit("pred", key, tuple(acc), o, self.hd(s), self.ahead(s), tuple(self.names(s)))
            out += I.do_panic(s, "call", raw) if o == "panic" else I.ret(s, ("b", o))
        return out

    def rebase(self, st, v, starts):
        """offsets counted from the starts of slices where the distance is known"""
        if not isinstance(v, tuple) or not v: return v
        if v[0] == "lin":
            c, d = to_lin(v)
            out = {}
            for k, n in d.items():
                if k[0] == "pos" and self.can(st, k[1]) not in starts:
                    for x, w in self.exact(st, k[1]).items():
                        if x in starts: k = ("pos", x); c -= n * w; break
                out[k] = out.get(k, 0) + n
            return mk_lin(c, {k: n for k, n in out.items() if n})
        return tuple(self.rebase(st, x, starts) if isinstance(x, tuple) else x for x in v)

    def on_assert(self, I, st, kind, ops, cond, exp, site):
        return ovf.on_assert(I, st, kind, ops, lambda v: v[0] == "i" or (to_lin(v) is not None and all(abs(k) < 64 for k in to_lin(v)[1].values())))

    def cond(self, I, st, v):
        if v[0] == "eq" and mentions(v, "cache"): return I.fork_fact(st, v)
        return Tape.cond(self, I, st, v)

    def call(self, I, st, name, info, args):
        f = info["fn"] if isinstance(info, dict) else None
        if f is None: return None
        p = f.get("respath") or f["path"]
        if p.startswith("combine::") or (f.get("trait") or "").startswith("combine::"):
            if name.startswith(("Error::", "StreamError::", "Errors::", "Info::")):
                return I.ret(st, ("opaque", name))
            if f.get("reslocal"): return None
        return None


def closed(I, st, v):
    """the value without references into frames; None when it is not made of slices, offsets and constants"""
    k = v[0]
    if k == "ref":
        if v[1]: return None
        x = closed(I, st, I.val(st, v))
        return None if x is None else refv(x)
    if k in ("ts", "pos", "lin", "i", "c", "b", "s"): return v
    if k == "tup":
        xs = [closed(I, st, x) for x in v[1]]
        return None if any(x is None for x in xs) else ("tup", tuple(xs))
    if k == "adt" and not v[1].startswith("it::"):
        xs = [closed(I, st, x) for x in v[3]]
        return None if any(x is None for x in xs) else ("adt", v[1], v[2], tuple(xs))
    return None


class Lexer:
    def __init__(self, P):
        self.P = P
        self.preds = {}
        self.visited = set()
        im = [i for i in P.impls if (i["trait"] or "").split("<")[0].endswith("::StreamOnce")]
        if len(im) != 1: raise Unsupported("%d token sources" % len(im))
        self.ty = P.ty(im[0]["self"])
        self.adt = self.ty[1]
        self.raw = {}
        for i in P.impls:
            t = P.ty(i["self"])
            if t[0] == "adt" and t[1] == self.adt:
                for it in i["items"]: self.raw[it[0]] = it[1]
        self.fields = P.adt(self.adt)["variants"][0]["fields"]
        self.ctors = []
        for r, f in P.fns.items():
            b = f["body"]
            if f.get("params") is None or f.get("trait_impl"): continue
            t = [P.ty(x) for x in b["locals"][:b["argc"] + 1]]
            if t and t[0] == self.ty and b["argc"] >= 1 and t[1] == ("ref", False, ("str",)): self.ctors.append(r)

    # -------------------------------------------------- running
    def explore(self, start, regs=None):
        """start(I, st): sets up frames; -> (Interp, nodes, edges)"""
        regs = set(regs or ())
        for _ in range(60):
            dom = LexDom(self, regs)
            I = Interp(self.P, dom)
            st = St()
            dom.start(st)
            try:
                start(I, st)
                n, e = I.explore(st, 60000)
                self.visited |= I.visited
                return I, n, e
            except Widen as w:
                regs.add(w.args[0])
        raise Unsupported("too many counters")

    def predicate(self, key, n):
        """the outcomes of a function on slices of the text"""
        if key not in self.preds:
            self.preds[key] = None
            raw, env, vals, od = key

            def start(I, st):
                st.ext.update({"hd": 1, "nb": n + 1})
                for a, b in od: st.facts[("ord", a, b)] = -1
                I.pushk(st, "root")
                I.pushk(st, "p:truth")
                I.push(st, raw, env, vals)
            self.preds[key] = self.explore(start)
        if self.preds[key] is None: raise Unsupported("%s calls itself" % raw)
        o = set()
        for s, ev, d in self.preds[key][2]:
            if isinstance(d, tuple):
                if d[0] == "panic": o.add("panic")
                elif d[1][0] == "b": o.add(d[1][1])
                else: raise Unsupported("truth value %s" % (d[1][:2],))
        return sorted(o, key=str)

    # -------------------------------------------------- the stream's fields
    def fieldty(self, i): return self.P.field_ty(self.ty, 0, i)

    def construct(self, raw):
        """outcomes of a constructor over an unknown text: (dom, nodes, edges)"""
        b = self.P.body(raw)

        def start(I, st):
            st.ext["hd"] = "Z"
            st.facts[("al", "S")] = "Z"
            args = [refv(ts("Z", "END"))]
            for k in range(2, b["argc"] + 1): args.append(I.sym(("arg", k), self.P.ty(b["locals"][k])))
            I.pushk(st, "root")
            I.push(st, raw, (), args)
        return self.explore(start)

    def setup(self):
        """roles of the fields, from what the constructors put there"""
        self.built = {r: self.construct(r) for r in self.ctors}
        if not self.built: raise Unsupported("no constructor of %s" % self.adt)
        usz = [i for i in range(len(self.fields)) if self.fieldty(i) == USZ]
        self.role = {}
        for i in range(len(self.fields)):
            t = self.fieldty(i)
            if t == ("ref", False, ("str",)): self.setrole("buf", i)
            elif t[0] == "adt" and t[1].endswith("::Pos"): self.setrole("position", i)
        for r, (I, n, e) in self.built.items():
            for s, ev, d in e:
                if not isinstance(d, tuple) or d[0] != "ret": continue
                for i in usz:
                    if has_text(d[1][3][i]): self.role["off"] = i
        # more than one usize: the offset is the one that moves with the text, the limit the one that does not
        lim = [i for i in usz if i != self.role.get("off")]
        if len(lim) > 1: raise Unsupported("%s has more counters than an offset and a limit" % self.adt)
        if lim: self.role["limit"] = lim[0]
        for k in ("buf", "position", "off"):
            if k not in self.role: raise Unsupported("%s has no field for the %s" % (self.adt, k))
        self.others = [i for i in range(len(self.fields)) if i not in self.role.values()]
        return self

    def setrole(self, k, i):
        if k in self.role: raise Unsupported("%s has two fields for the %s" % (self.adt, k))
        self.role[k] = i

    def get(self, me, k): return me[3][self.role[k]]

    # -------------------------------------------------- one token
    def token(self):
        """the token function from an arbitrary state: self.I, self.nodes, self.edges, self.exits"""
        P = self.P
        cache = self.others

        def start(I, st, sym=False):
            vals = []
            for i in range(len(self.fields)):
                t = self.fieldty(i)
                if i == self.role["buf"]: vals.append(refv(ts("Z", "END")))
                elif i == self.role["off"]: vals.append(pos("S"))
                elif i in cache:
                    if t[0] == "adt" and t[1] == OPT: vals.append(some(remembered(I, ("cache", i), P.field_ty(t, 1, 0))) if sym else NONE)
                    else: raise Unsupported("field %s of %s" % (self.fields[i]["name"], self.adt))
                else: vals.append(I.sym((self.fields[i]["name"],), t))
            I.pushk(st, "root", me=("adt", self.adt, 0, tuple(vals)))
            I.push(st, self.raw["uncons"], (), [("ref", True, ("@", 0, "me", ()))])

        def poison(st):
            me = st.frames[0].loc["me"] if st.frames else None
            if me is None: return
            st.frames[0].loc["me"] = ("adt", me[1], me[2], tuple(("poison", i) if i in cache and x == NONE else x for i, x in enumerate(me[3])))

        regs = set()
        for _ in range(60):
            dom = LexDom(self, regs)
            I = Interp(P, dom, 4000000)
            st = St(); dom.start(st)
            try:
                start(I, st)
                self.nodes, self.edges = I.explore(st, 60000, after=lambda i, s: poison(s) if i == 0 and not s.result else None)
                break
            except Widen as w: regs.add(w.args[0])
        else: raise Unsupported("too many counters")
        self.I = I
        self.visited |= I.visited
        self.cached(start, cache)
        return self

    def cached(self, start, cache):
        """a stream that remembers a token behaves as one that does not, or returns what it remembers"""
        self.hits = []
        if not cache: return
        I = self.I
        keys = I.ids
        firsts = {}
        for s, ev, d in self.edges:
            if s == 0 and isinstance(d, int): firsts.setdefault(d, []).append(strip(ev))
        st = St(); I.dom.start(st)
        start(I, st, True)
        wl = [st]
        n = 0
        while wl:
            st = wl.pop()
            n += 1
            if n > 400: raise Unsupported("the token function does not return to its usual course when what it remembers does not apply")
            for s in I.run(st):
                if s.panic: raise Unsupported("panic on a remembered token: %s" % (s.panic,))
                fc = [(k, v) for k, v in s.facts.items() if mentions(k, "cache")]
                if s.result is not None:
                    self.hits.append((s, fc)); continue
                # without the remembered token
                c = s.copy()
                for k, v in fc: del c.facts[k]
                me = c.frames[0].loc["me"]
                if all(k[0] == "eq" and not v for k, v in fc) and fc:
                    c.frames[0].loc["me"] = ("adt", me[1], me[2], tuple(("poison", i) if i in cache else x for i, x in enumerate(me[3])))
                    for f in c.frames[1:]:
                        for l in list(f.loc):
                            if mentions(f.loc[l], "cache"): del f.loc[l]
                    I.dom.head(I, c)
                    k = keys.get(I.key(c))
                    if k is not None and strip(c.ev) in firsts.get(k, ()): continue
                I.dom.head(I, s)
                wl.append(s)

    def exits(self):
        return [(s, d) for s, ev, d in self.edges if isinstance(d, tuple)]

    # -------------------------------------------------- what an exit says
    def outcome(self, dom, d):
        """("panic", what) | ("err", key, message, me) | ("ok", kind, (lo, hi), me, cached token); boundaries are canonical"""
        st = d[2]
        if d[0] == "panic": return ("panic", str(d[1])[:200])
        r, me = d[1][1]
        if r[0] != "adt" or r[1] != RES: raise Unsupported("the token function returns %s" % (r[:2],))
        if r[2] == 1:
            x = r[3][0]
            while x[0] == "from": x = x[1]
            if x[0] == "opaque" and x[1].endswith("end_of_input"): return ("err", "end", "end of input", me)
            m = message(x)
            if m is None or m == "end of input": raise Unsupported("the token function returns the error %s" % (str(x)[:200],))
            return ("err", "other", m, me)
        kind = text = None
        for x in flat(r[3][0]):
            if x[0] == "adt" and x[1].endswith("::Kind"): kind = self.P.adt(x[1])["variants"][x[2]]["name"]
            elif x[0] == "ts": text = (self.bound(dom, st, x[1]), self.bound(dom, st, x[2]))
            else: raise Unsupported("part %s of a token" % (x[:2],))
        if kind is None or text is None: raise Unsupported("a token without kind or text")
        return ("ok", kind, text, me)

    def bound(self, dom, st, v):
        """the boundary at an offset"""
        l = to_lin(v)
        if l is None: raise Unsupported("offset %s" % (v,))
        c, d = dom.canlin(st, *l)
        if not d and c == 0: return dom.can(st, "Z")
        if len(d) == 1:
            (k, n), = d.items()
            if k[0] == "pos" and n == 1:
                if not c: return dom.can(st, k[1])
                t = dom.at_dist(st, k[1], c)
                if t is not None: return t
        raise Unsupported("offset %s" % (v,))

    def limit(self, me, st):
        """(change of the limit | None when it is something else, what is known about the limit before)"""
        if "limit" not in self.role: return 0, {}
        v = self.get(me, "limit")
        name = self.fields[self.role["limit"]]["name"]
        k = ("sym", (name,), USZ)
        l = to_lin(v)
        d = l[0] if l and l[1] == {k: 1} else None
        return d, {f: x for f, x in st.facts.items() if f[0] in ("lt", "eq") and k in f or (f[0] in ("lt", "eq") and mentions(f, name))}

    # -------------------------------------------------- languages
    def alphabet(self, extra=()):
        if getattr(self, "al", None) is None:
            cs = set(extra)
            graphs = [(self.I.dom, self.edges)] + [(I.dom, e) for I, n, e in self.built.values()]
            graphs += [(x[0].dom, x[2]) for x in self.preds.values() if x]
            for dom, es in graphs:
                for s, ev, d in es:
                    for x in ev:
                        if x[0] == "rd": cs.add(x[3])
                        elif x[0] in ("cl", "clat"): cs.add(x[2])
                        if x[0] in ENDERS:
                            for y in x:
                                if isinstance(y, tuple) and y and isinstance(y[0], tuple) and len(y[0]) == 3: cs |= {C for b, C, n in y if C}
                    if isinstance(d, tuple): cs |= {C for b, C, n in dom.ahead(d[2]) if C}
            self.al = Alphabet(cs)
            self.predlang = {}
        return self.al

    def pred(self, key, o):
        al = self.alphabet()
        if key not in self.predlang:
            I, n, e = self.preds[key]
            self.predlang[key] = Lang(I.dom, e, 1, al, lambda d: ("panic" if d[0] == "panic" else d[1][1], {}, ()), self.pred)
        return self.predlang[key].result.get((o, ()))

    def language(self, dom, edges, hd, classify, counting=False):
        """{(key, expressions): automaton}; classify(exit) -> (key, {mark: boundary}, expressions)"""
        x = Lang(dom, edges, hd, self.alphabet(), classify, self.pred, counting)
        self.phases = getattr(self, "phases", 0) + x.phases
        return x.result


def message(x):
    """the text of an error, as far as it is fixed"""
    if x[0] == "opaque": return x[1]
    for y in flat(x):
        if y[0] == "s": return y[1]
        if y[0] == "fmt": return "".join(p[1] if p[0] == "s" else "{}" for p in y[1])
    return None


def flat(v):
    if v[0] in ("adt",) and v[3]:
        for x in v[3]: yield from flat(x)
    elif v[0] == "tup":
        for x in v[1]: yield from flat(x)
    elif v[0] == "ref": yield from flat(deref(v))
    else: yield v


def strip(ev): return tuple(x for x in ev if x[0] != "ren")


def mentions(v, name):
    if not isinstance(v, tuple): return False
    if len(v) >= 2 and v[0] == "sym" and isinstance(v[1], tuple) and v[1] and v[1][0] == name: return True
    return any(mentions(x, name) for x in v)


def has_text(v):
    acc = []
    bounds_in(v, acc)
    return bool(acc)


def remembered(I, path, t):
    if t[0] == "tuple": return ("tup", tuple(remembered(I, path + (k,), x) for k, x in enumerate(t[1])))
    if t[0] == "adt":
        a = I.P.adt(t[1])
        if a and a["kind"] == "struct":
            return ("adt", t[1], 0, tuple(remembered(I, path + (k,), I.P.field_ty(t, 0, k)) for k in range(len(a["variants"][0]["fields"]))))
    return I.sym(path, t)


def recall(v, me):
    """v with the parts of remembered values replaced by those of state me; None when me remembers nothing"""
    if not isinstance(v, tuple): return v
    if len(v) == 3 and v[0] == "sym" and v[1][:1] == ("cache",):
        x = me[3][v[1][1]]
        if x[0] != "adt" or x[2] != 1: return None
        x = x[3][0]
        for k in v[1][2:]:
            x = x[1][k] if x[0] == "tup" else x[3][k]
        return deref(x)
    if v[0] == "ref" and v[2][0] == "v": return ("ref", v[1], ("v", recall(v[2][1], me)))
    return tuple(recall(x, me) for x in v)


def deref(x):
    while x[0] == "ref" and x[2][0] == "v": x = x[2][1]
    return x
