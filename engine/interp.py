"""Abstract interpreter over the MIR dump.

Values (hashable tuples):
  ('i',n) ('b',bool) ('c',codepoint) ('s',text) ('by',bytes) ('tup',fields) ('adt',path,variant,fields)
  ('vec',items) ('clo',raw,captures,env) ('fn',idx,env) ('ref',mut,target)   target = ('@',depth,local,proj) | ('v',value)
  ('sym',path,ty)     unknown input datum, named by its access path
  ('top',why)         anything else
  ('not',b) ('eq',a,b) ('lt',a,b) ('le',a,b) ...   undecided conditions
Control forks only on undecided conditions and unknown discriminants; what is learnt is kept in `facts`.
States are hashed exactly at loop heads and forks, so exploration ends with the abstract reachability graph.
"""
from mir import short, Prog
import struct
import models as M


class Unsupported(Exception):
    pass


class Frame:
    __slots__ = ("kind", "raw", "prom", "env", "bb", "i", "loc", "pend", "site")

    def copy(self):
        f = Frame()
        f.kind = self.kind; f.raw = self.raw; f.prom = self.prom; f.env = self.env
        f.bb = self.bb; f.i = self.i; f.loc = dict(self.loc); f.pend = self.pend; f.site = self.site
        return f


class St:
    __slots__ = ("frames", "facts", "ext", "ev", "result", "panic", "stop")

    def __init__(self):
        self.frames = []; self.facts = {}; self.ext = {}; self.ev = []; self.result = None; self.panic = None
        self.stop = False

    def copy(self):
        s = St()
        s.frames = [f.copy() for f in self.frames]
        s.facts = dict(self.facts); s.ext = dict(self.ext); s.ev = list(self.ev)
        s.result = self.result; s.panic = self.panic; s.stop = False
        return s

    @property
    def top(self):
        return self.frames[-1]

    def emit(self, *e):
        self.ev.append(e)


UNIT = ("tup", ())
TRUE = ("b", True)
FALSE = ("b", False)
OPT = "std::option::Option"
RES = "std::result::Result"
BOX = "std::boxed::Box"


def some(v): return ("adt", OPT, 1, (v,))
NONE = ("adt", OPT, 0, ())
def ok(v): return ("adt", RES, 0, (v,))
def err(v): return ("adt", RES, 1, (v,))
def refv(v): return ("ref", False, ("v", v))


def tset(t, i, v):
    return t[:i] + (v,) + t[i + 1:]


COND = ("b", "not", "incl", "tseq", "and", "or", "eq", "lt")


class Dom:
    """Domain hooks; override in analyses."""
    def call(self, I, st, name, info, args):      # before models; return list of states or None
        return None
    def local_call(self, I, st, raw, env, args):   # before inlining a local function
        return None
    def condition(self, I, st, v):                 # undecided bool -> [(st, bool)]
        return I.fork_fact(st, v)
    def switch(self, I, st, v, arms, els):         # undecided int/char switch -> [(st, bb)]
        raise Unsupported("switch on %r" % (v,))
    def discr(self, I, st, v):                     # unknown discriminant -> [(st, variant)]
        return I.fork_variant(st, v)
    def binop(self, I, st, op, a, b):
        return None
    def field(self, I, st, v, f, variant):         # projection of unknown datum
        return None
    def index(self, I, st, v, idx):
        return None
    def overflow(self, I, st, op, a, b, site):
        return None
    def head(self, I, st):                         # at hash points: canonicalise
        pass
    def key(self, I, st):
        return ()
    def on_assert(self, I, st, kind, ops, cond, exp, site):
        return None
    def enter(self, I, st, raw):
        pass
    def iter_next(self, I, st, addr, v):
        return None


class Interp:
    def __init__(self, prog, dom, fuel=400000):
        self.P = prog
        self.dom = dom
        self.fnops = []
        self.fnidx = {}
        self.fuel = fuel
        self.steps = 0
        self.visited = set()     # raw names of local functions interpreted
        self.prom = {}

    # ------------------------------------------------------------ values
    def const(self, st, fr, o):
        t = self.P.ty(o["c"]) if "c" in o else None
        if "fn" in o:
            return self.fnval(o["fn"], fr.env)
        if "promoted" in o:
            return self.promoted(fr, o)
        if "bool" in o: return ("b", o["bool"])
        if "int" in o: return ("i", int(o["int"]))
        if "char" in o: return ("c", o["char"] if isinstance(o["char"], int) else ord(o["char"]))
        if "str" in o and o["str"] is not None:
            if t and t[0] == "ref" and t[2] == ("str",): return ("ref", False, ("v", ("s", o["str"])))
            return ("ref", False, ("v", ("by", bytes(o["bytes"]))))
        if "bytes" in o: return ("ref", False, ("v", ("by", bytes(o["bytes"]))))
        if "zst" in o:
            if t and t[0] == "adt":
                a = self.P.adt(t[1])
                return ("adt", t[1], 0, tuple(("adt", "zst", 0, ()) for _ in (a["variants"][0]["fields"] if a and a["variants"] else ())))
            if t and t[0] == "closure": return ("clo", t[1], (), fr.env if fr else ())
            return UNIT
        if "item" in o and o.get("item") in self.P.fns:
            return self.const_item(o["item"])
        if "floatbits" in o and t and t[0] == "float":
            w = 8 if t[1] == "f64" else 4
            return ("f", struct.unpack("<d" if w == 8 else "<f", int(o["floatbits"]).to_bytes(w, "little"))[0])
        return ("top", "const")

    def const_item(self, raw):
        if raw not in self.prom:
            self.prom[raw] = self.eval_closed(raw, None, ())
        return self.prom[raw]

    def promoted(self, fr, o):
        of = o.get("of") or fr.raw
        key = (of, o["promoted"], fr.env)
        if key not in self.prom:
            self.prom[key] = self.eval_closed(of, o["promoted"], fr.env)
        return self.prom[key]

    def eval_closed(self, raw, prom, env):
        st = St()
        self.push(st, raw, env, [], prom)
        for _ in range(2000):
            rs = self.run(st)
            if len(rs) != 1: return ("top", "promoted")
            st = rs[0]
            if st.panic: return ("top", "promoted")
            if st.result is not None: return st.result
        return ("top", "promoted")

    def fnval(self, f, env):
        k = id(f)
        if k not in self.fnidx:
            self.fnidx[k] = len(self.fnops)
            self.fnops.append(f)
        return ("fn", self.fnidx[k], env)

    def fnref(self, v):
        return self.fnops[v[1]]

    # ------------------------------------------------------------ places
    def addr_read(self, st, a):
        _, d, l, proj = a
        fr = st.frames[d]
        if l not in fr.loc:
            if fr.kind == "mir":
                t = self.P.ty(self.P.body(fr.raw, fr.prom)["locals"][l])
                if t[0] in ("closure", "fndef") or t == ("tuple", ()):
                    v = ("clo", t[1], (), fr.env) if t[0] == "closure" else UNIT
                    fr.loc[l] = v
                else:
                    v = ("top", "uninit")
            else:
                v = ("top", "uninit")
        else:
            v = fr.loc[l]
        for e in proj: v = self.proj(st, v, e)
        return v

    def addr_write(self, st, a, v):
        _, d, l, proj = a
        fr = st.frames[d]
        if not proj:
            fr.loc[l] = v
            return
        base = fr.loc.get(l)
        fr.loc[l] = self.update(st, base, list(proj), v)

    def update(self, st, base, proj, v):
        if not proj: return v
        e = proj[0]
        if e[0] == "v":
            return self.update(st, base, proj[1:], v)
        if base is None or base[0] == "top": return ("top", "update")
        if base[0] == "sym": base = self.expand(st, base)
        if e[0] == "f":
            i = e[1]
            if base[0] == "adt":
                if i >= len(base[3]): return ("top", "update")
                return ("adt", base[1], base[2], tset(base[3], i, self.update(st, base[3][i], proj[1:], v)))
            if base[0] == "tup":
                return ("tup", tset(base[1], i, self.update(st, base[1][i], proj[1:], v)))
            if base[0] == "clo":
                return ("clo", base[1], tset(base[2], i, self.update(st, base[2][i], proj[1:], v)), base[3])
        if e[0] == "i" and base[0] == "vec" and isinstance(e[1], int) and e[1] < len(base[1]):
            return ("vec", tset(base[1], e[1], self.update(st, base[1][e[1]], proj[1:], v)))
        r = self.dom.index(self, st, base, ("set", e, v))
        if r is not None: return r
        return ("top", "update")

    def expand(self, st, v):
        """unknown struct/tuple -> aggregate of unknown fields"""
        t = v[2]
        if t[0] == "tuple":
            return ("tup", tuple(self.symfield(st, v, i, None) for i in range(len(t[1]))))
        if t[0] == "adt":
            a = self.P.adt(t[1])
            if a and a["kind"] == "struct":
                return ("adt", t[1], 0, tuple(self.symfield(st, v, i, None) for i in range(len(a["variants"][0]["fields"]))))
            if a and a["kind"] == "enum" and v[1] in st.facts and isinstance(st.facts[v[1]], int):
                vi = st.facts[v[1]]
                return ("adt", t[1], vi, tuple(self.symfield(st, v, i, vi) for i in range(len(a["variants"][vi]["fields"]))))
        return v

    def symfield(self, st, v, i, variant):
        r = self.dom.field(self, st, v, i, variant)
        if r is not None: return r
        _, path, t = v
        if t[0] == "tuple": return self.sym(path + (str(i),), t[1][i])
        if t[0] == "adt":
            if t[1] == BOX:
                return ("boxptr", v)
            a = self.P.adt(t[1])
            if a and a["variants"]:
                vi = variant or 0
                var = a["variants"][vi]
                f = var["fields"][i]
                ft = self.P.field_ty(t, vi, i)
                p = path + ((var["name"],) if a["kind"] == "enum" else ()) + ((f["name"],) if not (a["kind"] == "enum" and len(var["fields"]) == 1 and f["name"] == "0") else ())
                return self.sym(p, ft)
        return ("top", "field")

    def sym(self, path, t):
        if t[0] == "ref": return ("ref", t[1], ("v", self.sym(path, t[2])))
        return ("sym", path, t)

    def proj(self, st, v, e):
        k = e[0]
        if k == "v":
            if v[0] == "sym": return ("symv", v, e[1])
            return v
        if k == "*":
            return self.deref(st, v)
        if k == "f":
            i = e[1]
            if v[0] == "adt":
                if v[1] == BOX: return ("boxptr", v)
                return v[3][i] if i < len(v[3]) else ("top", "field")
            if v[0] == "tup": return v[1][i] if i < len(v[1]) else ("top", "field")
            if v[0] == "clo": return v[2][i] if i < len(v[2]) else ("top", "field")
            if v[0] == "symv": return self.symfield(st, v[1], i, v[2])
            if v[0] == "sym": return self.symfield(st, v, i, None)
            r = self.dom.field(self, st, v, i, None)
            return r if r is not None else ("top", "field")
        if k == "i":
            r = self.dom.index(self, st, v, e[1])
            if r is not None: return r
            if v[0] == "vec" and isinstance(e[1], int) and e[1] < len(v[1]): return v[1][e[1]]
            return ("top", "index")
        if k == "ss":
            x = getattr(self.dom, "subslice", None)
            r = x(self, st, v, e) if x else None
            if r is not None: return r
        return ("top", "proj")

    def deref(self, st, v):
        if v[0] == "ref":
            return v[2][1] if v[2][0] == "v" else self.addr_read(st, v[2])
        if v[0] == "adt" and v[1] == BOX: return v[3][0]
        if v[0] == "sym" and v[2][0] == "adt" and v[2][1] == BOX:
            return ("sym", v[1], v[2][2][0])
        return ("top", "deref")

    def place(self, st, p):
        """-> ('@',..) address or ('v', value)"""
        d = len(st.frames) - 1
        fr = st.frames[d]
        cur = ("@", d, p["l"], ())
        for e in p["p"]:
            if e == "*":
                v = self.addr_read(st, cur) if cur[0] == "@" else cur[1]
                if v[0] == "ref": cur = v[2]
                else: cur = ("v", self.deref(st, v))
                continue
            if "f" in e: pe = ("f", e["f"])
            elif "v" in e: pe = ("v", e["v"])
            elif "i" in e:
                x = self.addr_read(st, ("@", d, e["i"], ()))
                pe = ("i", x[1] if x[0] == "i" else x)
            elif "ci" in e: pe = ("i", e["ci"] if not e["end"] else ("fromend", e["ci"]))
            elif "ss" in e: pe = ("ss", e["ss"], e["to"], e["end"])
            else: pe = ("?",)
            if cur[0] == "@":
                # a reference held in a symbolic aggregate is read through the value
                cur = ("@", cur[1], cur[2], cur[3] + (pe,))
                if pe[0] == "v":
                    pass
            else:
                cur = ("v", self.proj(st, cur[1], pe))
        return cur

    def read(self, st, p):
        a = self.place(st, p)
        return self.addr_read(st, a) if a[0] == "@" else a[1]

    def write(self, st, p, v):
        if v is None: raise Unsupported("no value")
        a = self.place(st, p)
        if a[0] == "@": self.addr_write(st, a, v)
        else: raise Unsupported("write through unknown reference %r in %s" % (p, st.top.raw))

    def operand(self, st, o):
        if "cp" in o: return self.read(st, o["cp"])
        if "mv" in o: return self.read(st, o["mv"])
        return self.const(st, st.top, o)

    def val(self, st, v):
        """strip references"""
        while v[0] == "ref": v = self.deref(st, v)
        return v

    # ------------------------------------------------------------ frames
    def push(self, st, raw, env, args, prom=None):
        b = self.P.body(raw, prom)
        f = Frame()
        f.kind = "mir"; f.raw = raw; f.prom = prom; f.env = env; f.bb = 0; f.i = 0; f.pend = None; f.site = None
        f.loc = {j + 1: a for j, a in enumerate(args)}
        if prom is None and len(args) != b["argc"]:
            raise Unsupported("arity of %s" % raw)
        self.visited.add(raw)
        st.frames.append(f)
        if prom is None: self.dom.enter(self, st, raw)

    def pushk(self, st, name, **loc):
        f = Frame()
        f.kind = "k"; f.raw = name; f.prom = None; f.env = (); f.bb = 0; f.i = 0; f.pend = None; f.site = None
        f.loc = loc
        st.frames.append(f)
        return len(st.frames) - 1

    def ret(self, st, v):
        """deliver v to the frame on top"""
        if not st.frames:
            st.result = v
            return [st]
        fr = st.top
        if fr.kind == "k":
            return M.KONT[fr.raw](self, st, fr, v)
        dest, to = fr.pend
        fr.pend = None
        if dest is not None: self.write(st, dest, v)
        if to is None:
            return self.do_panic(st, "diverges", "call returns")
        return self.goto(st, to)

    def goto(self, st, bb):
        fr = st.top
        info = self.P.info(fr.raw, fr.prom)
        fr.bb = bb; fr.i = 0
        live = info.live[bb]
        for l in [l for l in fr.loc if l not in live]: del fr.loc[l]
        if bb in info.heads: st.stop = True
        return [st]

    def do_panic(self, st, kind, detail):
        site = None
        for f in reversed(st.frames):
            if f.kind == "mir":
                t = self.P.body(f.raw, f.prom)["blocks"][f.bb]["term"]
                site = (f.raw, tuple(t["at"])); break
        st.panic = (kind, detail, site)
        return [st]

    # ------------------------------------------------------------ calls
    def invoke(self, st, f, args):
        """call function value f; result is delivered to the current top frame"""
        f = self.val(st, f) if f[0] == "ref" else f
        if f[0] == "clo":
            raw = f[1]
            b = self.P.body(raw)
            t1 = self.P.ty(b["locals"][1])
            self_arg = f
            if t1[0] == "ref":
                self_arg = refv(f)
            if b["argc"] != len(args) + 1: raise Unsupported("closure arity %s" % raw)
            self.push(st, raw, f[3], [self_arg] + list(args))
            return [st]
        if f[0] == "fn":
            return self.callfn(st, self.fnref(f), f[2], list(args))
        r = self.dom.call(self, st, "<value>", f, args)
        if r is not None: return r
        raise Unsupported("call of %r" % (f[0:2],))

    def invoke_at(self, st, addr, args):
        """call a closure stored at an address (its captures may be mutated)"""
        f = self.addr_read(st, addr)
        while f[0] == "ref":
            if f[2][0] == "v": return self.invoke(st, f[2][1], args)
            addr = f[2]; f = self.addr_read(st, addr)
        if f[0] == "clo":
            b = self.P.body(f[1])
            t1 = self.P.ty(b["locals"][1])
            a0 = ("ref", True, addr) if t1[0] == "ref" else f
            if b["argc"] != len(args) + 1: raise Unsupported("closure arity %s" % f[1])
            self.push(st, f[1], f[3], [a0] + list(args))
            return [st]
        return self.invoke(st, f, args)

    def callfn(self, st, f, env, args):
        envd = dict(env)
        if "ctor" in f:
            c = f["ctor"]
            return self.ret(st, ("adt", c["adt"], c["v"], tuple(args)))
        targs = tuple(self.P.subst(self.P.ty(x), envd) if isinstance(x, int) else ("const", str(x)) for x in f.get("args", ()))
        if f.get("trait"):
            name = f["trait"].split("<")[0].split("::")[-1] + "::" + f["name"]
        else:
            name = short(f["path"])
        selfty = self.P.subst(self.P.ty(f["self"]), envd) if "self" in f else (self.P.subst(self.P.ty(f["implself"]), envd) if "implself" in f else None)
        info = {"fn": f, "name": name, "targs": targs, "self": selfty, "env": env}
        r = self.dom.call(self, st, name, info, args)
        if r is not None: return r
        # Fn/FnMut/FnOnce::call*
        if f.get("trait", "").startswith("std::ops::Fn") and f["name"] in ("call", "call_mut", "call_once"):
            tup = args[1]
            a = list(tup[1]) if tup[0] == "tup" else None
            if a is None: raise Unsupported("fn call args")
            if args[0][0] == "ref" and args[0][2][0] == "@": return self.invoke_at(st, args[0][2], a)
            return self.invoke(st, args[0], a)
        raw = None; cenv = None
        if f.get("reslocal") and f.get("res") in self.P.fns:
            raw = f["res"]
            fn = self.P.fns[raw]
            ra = [self.P.subst(self.P.ty(x), envd) if isinstance(x, int) else None for x in f.get("resargs", ())]
            cenv = tuple(sorted((p, a) for p, a in zip(fn.get("params", ()), ra) if a is not None and a != ("param", p)))
            if fn.get("derived"): raw = None
        elif f.get("local") and f["raw"] in self.P.fns and not f.get("trait"):
            raw = f["raw"]
            fn = self.P.fns[raw]
            cenv = tuple(sorted((p, a) for p, a in zip(fn.get("params", ()), targs) if a != ("param", p)))
        elif f.get("trait") and selfty is not None and "res" not in f or (f.get("trait") and not f.get("reslocal") and selfty is not None):
            s = selfty
            r = self.P.resolve_trait(f["trait"], f["name"], s) if s[0] not in ("param", "alias") else None
            if r:
                raw, e = r
                if self.P.fns[raw].get("derived"): raw = None
                cenv = tuple(sorted(e.items()))
        if raw is not None:
            r = self.dom.local_call(self, st, raw, cenv, args)
            if r is not None: return r
            self.push(st, raw, cenv, args)
            return [st]
        m = M.lookup(name, f)
        if m is not None:
            return m(self, st, args, info)
        raise Unsupported("no model for %s (%s)" % (name, f.get("respath") or f["path"]))

    # ------------------------------------------------------------ facts
    def fork_fact(self, st, v):
        """v: undecided condition"""
        neg = False
        while v[0] == "not": neg = not neg; v = v[1]
        if v in st.facts:
            return [(st, st.facts[v] != neg)]
        out = []
        for b in (True, False):
            s = st.copy()
            if self.dom_assume(s, v, b):
                s.facts[v] = b
                out.append((s, b != neg))
        return out

    def dom_assume(self, st, v, b):
        f = getattr(self.dom, "assume", None)
        return f(self, st, v, b) if f else True

    def fork_variant(self, st, v):
        _, path, t = v
        if path in st.facts: return [(st, st.facts[path])]
        if t[0] != "adt" or not self.P.adt(t[1]) or self.P.adt(t[1])["kind"] != "enum":
            raise Unsupported("discriminant of %r" % (t,))
        out = []
        for i in range(len(self.P.adt(t[1])["variants"])):
            s = st.copy()
            s.facts[path] = i
            if self.dom_assume(s, v, i): out.append((s, i))
        return out

    def force(self, st, v):
        """[(st, concrete adt)] for an enum/struct value"""
        v = self.val(st, v)
        if v[0] in ("adt", "tup"): return [(st, v)]
        if v[0] == "sym":
            t = v[2]
            if t[0] == "adt" and self.P.adt(t[1]) and self.P.adt(t[1])["kind"] == "enum":
                return [(s, self.expand(s, v)) for s, i in self.dom.discr(self, st, v)]
            return [(st, self.expand(st, v))]
        r = getattr(self.dom, "force", None)
        if r:
            r = r(self, st, v)
            if r is not None: return r
        raise Unsupported("force %r" % (v[:2],))

    def truth(self, st, v):
        """[(st, bool)]"""
        v = self.val(st, v)
        if v[0] == "b": return [(st, v[1])]
        return self.dom.condition(self, st, v)

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, r, site):
        k = r["r"]
        if k == "use": return self.operand(st, r["o"])
        if k == "ref":
            a = self.place(st, r["p"])
            return ("ref", r["mut"], a)
        if k == "rawptr":
            return ("ref", True, self.place(st, r["p"]))
        if k == "agg":
            ops = tuple(self.operand(st, o) for o in r["ops"])
            kk = r["k"]
            if kk == "tuple": return ("tup", ops)
            if kk == "array": return ("vec", ops)
            if kk == "adt": return ("adt", r["adt"], r["v"], ops)
            if kk == "closure": return ("clo", r["raw"], ops, st.top.env)
            if kk == "rawptr": return ops[0]
            return ("top", "agg")
        if k == "discr":
            v = self.read(st, r["p"])
            if v[0] == "adt":
                a = self.P.adt(v[1])
                return ("i", a["variants"][v[2]]["discr"] if a else v[2])
            if v[0] in ("sym",): return ("discr", v)
            if v[0] == "symv": return ("discr", v[1])
            x = getattr(self.dom, "discr_of", None)
            if x:
                y = x(self, st, v)
                if y is not None: return y
            return ("discr", v)
        if k == "cast":
            v = self.operand(st, r["o"])
            t = self.P.subst(self.P.ty(r["t"]), dict(st.top.env))
            if v[0] == "boxptr":
                b = v[1]
                return ("ref", True, ("v", ("sym", b[1], b[2][2][0]) if b[0] == "sym" else b[3][0]))
            if t[0] in ("int", "uint") and v[0] == "c": return ("i", v[1])
            if t[0] in ("int", "uint") and v[0] == "b": return ("i", int(v[1]))
            if t == ("char",) and v[0] == "i": return ("c", v[1])
            if t[0] in ("int", "uint") and v[0] == "i":
                bits = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32}.get(t[1], 64)
                n = v[1] & ((1 << bits) - 1)
                if t[0] == "int" and n >> (bits - 1): n -= 1 << bits
                return ("i", n)
            x = getattr(self.dom, "cast", None)
            if x:
                y = x(self, st, v, t, r["kind"])
                if y is not None: return y
            if t[0] in ("int", "uint", "float") and v[0] not in ("ref",): return ("cast", t[1], v)
            return v
        if k == "bin":
            a = self.operand(st, r["a"]); b = self.operand(st, r["b"])
            if r["op"] in ("BitAnd", "BitOr", "BitXor") and getattr(self.dom, "eager_bool", False):
                # values that loops carry stay definite
                a, b = self.val(st, a), self.val(st, b)
                if a[0] in COND and b[0] in COND and (a[0] != "b" or b[0] != "b"):
                    out = []
                    for s, x in self.truth(st, a):
                        if r["op"] != "BitXor" and x == (r["op"] == "BitOr"): out.append((s, ("b", x)))
                        else: out += [(s2, ("b", y != x if r["op"] == "BitXor" else y)) for s2, y in self.truth(s, b)]
                    return out[0][1] if len(out) == 1 and out[0][0] is st else ("fork", out)
            return self.binop(st, r["op"], a, b, site)
        if k == "un":
            a = self.operand(st, r["a"])
            if r["op"] == "Not":
                if a[0] == "b": return ("b", not a[1])
                if a[0] == "not": return a[1]
                return ("not", a)
            if r["op"] == "Neg" and a[0] == "i": return ("i", -a[1])
            if r["op"] == "PtrMetadata":
                v = self.val(st, a)
                return M.length(self, st, v)
            return ("top", "un")
        if k == "len":
            return M.length(self, st, self.read(st, r["p"]))
        if k == "repeat":
            return ("top", "repeat")
        return ("top", k)

    def binop(self, st, op, a, b, site=None):
        wo = op.endswith("WithOverflow")
        o = op[:-12] if wo else op
        o = {"AddUnchecked": "Add", "SubUnchecked": "Sub"}.get(o, o)
        r = self.dom.binop(self, st, o, a, b)
        if r is None:
            r = M.arith(o, a, b)
        if wo:
            if a[0] == "i" and b[0] == "i" and r[0] == "i":
                return ("tup", (r, ("b", r[1] < 0 and o == "Sub" and a[1] >= 0)))
            return ("tup", (r, ("ovf", o, a, b)))
        return r

    # ------------------------------------------------------------ execution
    def run(self, st):
        """run until a fork or a hash point; returns successor states"""
        while True:
            if st.result is not None or st.panic: return [st]
            self.steps += 1
            if self.steps > self.fuel: raise Unsupported("analysis budget exceeded in %s" % (st.frames[-1].raw if st.frames else "?"))
            rs = self.step(st)
            if len(rs) == 1:
                st = rs[0]
                if st.stop:
                    st.stop = False
                    return [st]
                continue
            return rs

    def step(self, st):
        fr = st.top
        if fr.kind == "k":
            if fr.raw in M.RESUME: return M.RESUME[fr.raw](self, st, fr)
            raise Unsupported("continuation %s on top without value" % fr.raw)
        b = self.P.body(fr.raw, fr.prom)["blocks"][fr.bb]
        while fr.i < len(b["st"]):
            s = b["st"][fr.i]
            fr.i += 1
            k = s["s"]
            if k == "=":
                v = self.rvalue(st, s["r"], (fr.raw, tuple(s["at"])))
                fork = v[0] == "fork"
                if fork:
                    out = []
                    for s2, v2 in v[1]:
                        self.write(s2, s["p"], v2); out.append(s2)
                    return out
                self.write(st, s["p"], v)
            elif k == "setdiscr":
                v = self.read(st, s["p"])
                if v[0] == "adt": self.write(st, s["p"], ("adt", v[1], s["v"], v[3]))
            elif k == "dead":
                fr.loc.pop(s["l"], None)
            elif k == "live":
                pass
        t = b["term"]; k = t["t"]
        if k == "goto": return self.goto(st, t["to"])
        if k == "drop":
            return self.goto(st, t["to"])
        if k == "return":
            v = fr.loc.get(0, UNIT)
            if fr.prom is not None or len(st.frames) == 1:
                v = self.close_refs(st, v, len(st.frames) - 1)
            st.frames.pop()
            return self.ret(st, v)
        if k == "switch":
            v = self.operand(st, t["o"])
            return self.do_switch(st, v, t)
        if k == "assert":
            c = self.operand(st, t["o"])
            ops = [self.operand(st, o) for o in t.get("ops", ())]
            site = (fr.raw, tuple(t["at"]))
            r = self.dom.on_assert(self, st, t["kind"], ops, c, t["exp"], site)
            if r is not None:
                return [x for s2, good in r for x in (self.goto(s2, t["to"]) if good else self.do_panic(s2, t["kind"], ops))]
            if c[0] == "ovf" or (c[0] == "not" and c[1][0] == "ovf"):
                return self.goto(st, t["to"])      # arithmetic range obligations are the panic analysis' business
            out = []
            for s2, bv in self.truth(st, c):
                if bv == t["exp"]: out += self.goto(s2, t["to"])
                else: out += self.do_panic(s2, t["kind"], tuple(ops))
            return out
        if k == "call":
            f = self.operand(st, t["f"])
            args = [self.operand(st, a) for a in t["args"]]
            fr.pend = (t["dest"], t["to"])
            return self.invoke(st, f, args)
        if k == "unreachable":
            return self.do_panic(st, "unreachable", "unreachable")
        raise Unsupported("terminator %s in %s" % (k, fr.raw))

    def do_switch(self, st, v, t):
        arms = [(int(x), b) for x, b in t["arms"]]
        if v[0] == "discr":
            x = v[1]
            a = self.P.adt(x[2][1]) if x[0] == "sym" and x[2][0] == "adt" else None
            out = []
            for s, i in self.dom.discr(self, st, x):
                d = a["variants"][i]["discr"] if a else i
                for n, b in arms:
                    if n == d: out += self.goto(s, b); break
                else: out += self.goto(s, t["else"])
            return out
        if v[0] in ("i", "c", "b"):
            n = int(v[1])
            if v[0] == "i" and n < 0:
                ty = self.P.ty(t["ty"])
                bits = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}.get(ty[1] if len(ty) > 1 else "", 64)
                n &= (1 << bits) - 1
            for x, b in arms:
                if x == n: return self.goto(st, b)
            return self.goto(st, t["else"])
        if self.P.ty(t["ty"]) == ("bool",):
            out = []
            for s, bv in self.truth(st, v):
                for x, b in arms:
                    if x == int(bv): out += self.goto(s, b); break
                else: out += self.goto(s, t["else"])
            return out
        return [x for s, bb in self.dom.switch(self, st, v, arms, t["else"]) for x in self.goto(s, bb)]

    def close_refs(self, st, v, depth):
        if v[0] == "ref" and v[2][0] == "@" and v[2][1] >= depth:
            return ("ref", v[1], ("v", self.close_refs(st, self.addr_read(st, v[2]), depth)))
        if v[0] == "ref" and v[2][0] == "v":
            return ("ref", v[1], ("v", self.close_refs(st, v[2][1], depth)))
        if v[0] == "tup": return ("tup", tuple(self.close_refs(st, x, depth) for x in v[1]))
        if v[0] == "vec": return ("vec", tuple(self.close_refs(st, x, depth) for x in v[1]))
        if v[0] == "adt": return ("adt", v[1], v[2], tuple(self.close_refs(st, x, depth) for x in v[3]))
        return v

    # ------------------------------------------------------------ exploration
    def key(self, st):
        fs = []
        for f in st.frames:
            fs.append((f.kind, f.raw, f.bb, f.i, f.env, tuple(sorted(f.loc.items(), key=lambda kv: str(kv[0])))))
        return (tuple(fs), frozenset(st.facts.items()), tuple(sorted(st.ext.items(), key=lambda kv: kv[0] if type(kv[0]) is tuple else (kv[0],))), self.dom.key(self, st))

    def explore(self, st0, limit=20000, after=None):
        """abstract reachability graph: nodes 0..n-1 (0 = start), edges (src, events, dst|('ret',v,st)|('panic',p,st))"""
        ids = self.ids = {}
        edges = []
        wl = []

        def node(st):
            self.dom.head(self, st)
            k = self.key(st)
            if k not in ids:
                ids[k] = len(ids)
                if len(ids) > limit: raise Unsupported("too many abstract states")
                s = st.copy(); s.ev = []
                wl.append((ids[k], s))
            return ids[k]
        st0.ev = []
        node(st0)
        while wl:
            i, st = wl.pop()
            for s in self.run(st):
                if after: after(i, s)
                if s.result is not None: edges.append((i, tuple(s.ev), ("ret", s.result, s)))
                elif s.panic: edges.append((i, tuple(s.ev), ("panic", s.panic, s)))
                else:
                    n = node(s)
                    edges.append((i, tuple(s.ev), n))
        return len(ids), edges
