"""Loads the MIR dump: structural types, function lookup, trait resolution, liveness, loop heads."""
import re

LOCAL = "graphql_parser::"


def short(path):
    """std::option::Option::<T>::map -> Option::map ; core::str::<impl str>::len -> str::len"""
    s = path
    # `core::str::traits::<impl std::cmp::PartialEq for str>::eq` etc. are reached through the trait name instead
    out = []
    depth = 0
    i = 0
    while i < len(s):
        if s.startswith("::<", i) and not s.startswith("::<impl", i) and depth == 0:
            j = i + 2; d = 0
            while j < len(s):
                if s[j] == "<": d += 1
                if s[j] == ">" and s[j - 1] != "-":
                    d -= 1
                    if d == 0: break
                j += 1
            i = j + 1
            continue
        out.append(s[i]); i += 1
    s = "".join(out)
    m = re.search(r"<impl ([^<>]*(?:<[^<>]*>)?[^<>]*)>::(\w+)$", s)
    if m:
        t = m.group(1)
        if " for " in t:
            t = t.split(" for ")[0]
        t = t.split("<")[0].split("::")[-1]
        if t.startswith("["): t = "slice"
        return t + "::" + m.group(2)
    s = re.sub(r"^<(.*) as (.*)>::(\w+)$", lambda k: k.group(2).split("<")[0].split("::")[-1] + "::" + k.group(3), s)
    parts = s.split("::")
    return "::".join(parts[-2:])


class Fn:
    pass


class Prog:
    def __init__(self, dump):
        self.D = dump
        self._ty = {}
        self.fns = {}
        for f in dump["fns"]:
            self.fns[f["raw"]] = f
        self.adts = {a["path"]: a for a in dump["adts"]}
        self.impls = dump["impls"]
        self._info = {}
        self._bodies = {}

    # ---- types
    def ty(self, i):
        if i in self._ty: return self._ty[i]
        t = self.D["types"][i]; k = t["k"]
        a = tuple(self.ty(x) if isinstance(x, int) else ("const", str(x.get("const"))) for x in t.get("args", ()))
        if k in ("int", "uint", "float"): r = (k, t["n"])
        elif k == "adt": r = ("adt", t["path"], a)
        elif k == "tuple": r = ("tuple", a)
        elif k == "ref": r = ("ref", t["mut"], a[0])
        elif k == "ptr": r = ("ptr", t["mut"], a[0])
        elif k == "slice": r = ("slice", a[0])
        elif k == "array": r = ("array", a[0], t["len"])
        elif k == "fndef": r = ("fndef", t["raw"], t["path"], a)
        elif k == "closure": r = ("closure", t["raw"])
        elif k == "param": r = ("param", t["n"])
        elif k == "alias": r = ("alias", t.get("path", t["s"]), a, self.ty(t["hidden"]) if "hidden" in t else None)
        elif k in ("dyn", "other"): r = (k, t["s"])
        else: r = (k,)
        self._ty[i] = r
        return r

    def subst(self, t, env):
        if not env: return t
        k = t[0]
        if k == "param": return env.get(t[1], t)
        if k in ("adt",): return (k, t[1], tuple(self.subst(x, env) for x in t[2]))
        if k == "tuple": return (k, tuple(self.subst(x, env) for x in t[1]))
        if k in ("ref", "ptr"): return (k, t[1], self.subst(t[2], env))
        if k == "slice": return (k, self.subst(t[1], env))
        if k == "array": return (k, self.subst(t[1], env), t[2])
        if k == "fndef": return (k, t[1], t[2], tuple(self.subst(x, env) for x in t[3]))
        if k == "alias": return (k, t[1], tuple(self.subst(x, env) for x in t[2]), t[3])
        return t

    def adt(self, path):
        return self.adts.get(path)

    def field_ty(self, t, variant, f):
        """type of field f (index) of variant of adt type t"""
        a = self.adts[t[1]]
        env = dict(zip(a["params"], t[2]))
        return self.subst(self.ty(a["variants"][variant]["fields"][f]["ty"]), env)

    def variant(self, adtpath, name):
        for i, v in enumerate(self.adts[adtpath]["variants"]):
            if v["name"] == name: return i
        raise KeyError((adtpath, name))

    # ---- unification of an impl's self type with a concrete type
    def unify(self, pat, t, env):
        if pat[0] == "param":
            if pat[1] in env: return env[pat[1]] == t
            env[pat[1]] = t
            return True
        if pat[0] != t[0]:
            return False
        if pat[0] == "alias": return pat[1] == t[1]
        if len(pat) != len(t): return False
        for a, b in zip(pat[1:], t[1:]):
            if isinstance(a, tuple) and a and isinstance(a[0], str) and isinstance(b, tuple):
                if not self.unify(a, b, env): return False
            elif isinstance(a, tuple) and isinstance(b, tuple):
                if len(a) != len(b): return False
                for x, y in zip(a, b):
                    if not self.unify(x, y, env): return False
            elif a != b: return False
        return True

    def resolve_trait(self, trait, name, selfty):
        for im in self.impls:
            if im["trait"] != trait: continue
            env = {}
            if self.unify(self.ty(im["self"]), selfty, env):
                for nm, raw, tag in [x[:3] for x in im["items"]]:
                    if nm == name and raw in self.fns:
                        return raw, env
        return None

    # ---- bodies
    def body(self, raw, promoted=None):
        f = self.fns[raw]
        return f["body"] if promoted is None else f["promoted"][promoted]

    def info(self, raw, promoted=None):
        """liveness (live-in locals per block), loop heads, names"""
        key = (raw, promoted)
        if key not in self._info:
            self._info[key] = BodyInfo(self.body(raw, promoted))
        return self._info[key]

    def where(self, raw):
        f = self.fns[raw]
        return "%s (%s:%d)" % (f["path"].replace(LOCAL, ""), f["at"][0], f["at"][1])


def place_locals(p):
    yield p["l"]
    for e in p["p"]:
        if isinstance(e, dict) and "i" in e: yield e["i"]


def op_places(o):
    if "cp" in o: yield o["cp"]
    elif "mv" in o: yield o["mv"]


def rv_ops(r):
    k = r["r"]
    if k in ("use", "cast", "repeat"): return [r["o"]]
    if k == "bin": return [r["a"], r["b"]]
    if k == "un": return [r["a"]]
    if k == "agg": return r["ops"]
    return []


def succs(t):
    k = t["t"]
    if k in ("goto", "drop", "assert"): return [t["to"]]
    if k == "call": return [t["to"]] if t["to"] is not None else []
    if k == "switch": return [b for _, b in t["arms"]] + [t["else"]]
    return []


class BodyInfo:
    def __init__(self, b):
        n = len(b["blocks"])
        self.names = {}
        for l, x in b["names"]: self.names.setdefault(l, x)
        # locals whose address is taken: live until StorageDead
        addr = set()
        for bb in b["blocks"]:
            for s in bb["st"]:
                if s["s"] == "=" and s["r"]["r"] in ("ref", "rawptr"):
                    p = s["r"]["p"]
                    if "*" not in p["p"]: addr.add(p["l"])
        self.addr = addr
        # backward liveness
        use = [set() for _ in range(n)]; deff = [set() for _ in range(n)]
        for i, bb in enumerate(b["blocks"]):
            u, d = use[i], deff[i]
            def rd(l):
                if l not in d: u.add(l)
            for s in bb["st"]:
                if s["s"] == "=":
                    r = s["r"]
                    for o in rv_ops(r):
                        for p in op_places(o):
                            for l in place_locals(p): rd(l)
                    if "p" in r and isinstance(r["p"], dict):
                        for l in place_locals(r["p"]): rd(l)
                    if s["p"]["p"]:
                        for l in place_locals(s["p"]): rd(l)
                    else:
                        if s["p"]["l"] not in u: d.add(s["p"]["l"])
                elif s["s"] == "setdiscr":
                    rd(s["p"]["l"])
                elif s["s"] in ("dead",):
                    if s["l"] not in u: d.add(s["l"])
            t = bb["term"]; k = t["t"]
            if k == "switch" or k == "assert":
                for p in op_places(t["o"]):
                    for l in place_locals(p): rd(l)
                for o in t.get("ops", ()):
                    for p in op_places(o):
                        for l in place_locals(p): rd(l)
            elif k == "call":
                for o in [t["f"]] + t["args"]:
                    for p in op_places(o):
                        for l in place_locals(p): rd(l)
                if t["dest"]["p"]:
                    for l in place_locals(t["dest"]): rd(l)
                elif t["dest"]["l"] not in u: d.add(t["dest"]["l"])
            elif k == "drop":
                pass
            elif k == "return":
                rd(0)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o = set()
                for s in succs(b["blocks"][i]["term"]): o |= live[s]
                x = use[i] | (o - deff[i])
                if x != live[i]:
                    live[i] = x; ch = True
        # address-taken locals are kept wherever they may be initialised and not dead: forward "maybe live storage"
        stor = [None] * n
        work = [(0, frozenset(range(1, b["argc"] + 1)) & addr)]
        hasstor = set()
        for bb in b["blocks"]:
            for s in bb["st"]:
                if s["s"] == "live": hasstor.add(s["l"])
        always = {l for l in addr if l not in hasstor}
        stor[0] = set(work[0][1]) | always
        wl = [0]
        while wl:
            i = wl.pop()
            cur = set(stor[i])
            for s in b["blocks"][i]["st"]:
                if s["s"] == "live" and s["l"] in addr: cur.add(s["l"])
                elif s["s"] == "dead": cur.discard(s["l"])
            for t in succs(b["blocks"][i]["term"]):
                if stor[t] is None or not cur <= stor[t]:
                    stor[t] = (stor[t] or set()) | cur
                    wl.append(t)
        self.live = [frozenset(live[i] | (stor[i] or set())) for i in range(n)]
        # loop heads: targets of back edges in a DFS
        heads = set(); color = {}
        st = [(0, iter(succs(b["blocks"][0]["term"])))]; color[0] = 1
        while st:
            x, it = st[-1]
            for y in it:
                if color.get(y) == 1: heads.add(y)
                elif y not in color:
                    color[y] = 1; st.append((y, iter(succs(b["blocks"][y]["term"])))); break
            else:
                color[x] = 2; st.pop()
        self.heads = heads
        self.reach = set(color)
