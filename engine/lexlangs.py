"""The languages of the token function's outcomes, shared by the lexical checks."""
import gc
from interp import Unsupported, refv, NONE, some, RES, UNIT
from lexer import Lexer, USZ, recall, deref, has_text
from lexspec import CLASSES
from models import to_lin
from tape import pos, ts


def lexer(ctx):
    gc.disable()
    L = Lexer(ctx.P).setup().token()
    L.alphabet(CLASSES)
    return L


def tokens(ctx, exprs=None, limits=False):
    """(lexer, {(key, expressions): automaton}); marks: S where it looks, v and e around the token, o where it stands afterwards.
    keys: ("ok", kind, limit), ("err", "end"|"other", message, limit), ("panic", what); limit: (change, values it had before) or None"""
    L = lexer(ctx)
    dom = L.I.dom

    def classify(d):
        o = L.outcome(dom, d)
        if o[0] == "panic": return (o, {}, ())
        me = o[3]
        st = d[2]
        dl, facts = L.limit(me, st)
        if o[0] == "err":
            lim = (dl, possible(L, facts)) if limits else bool(facts)
            return (("err", o[1], o[2], lim), {}, ())
        m = {"v": o[2][0], "e": o[2][1], "o": L.bound(dom, st, L.get(me, "off"))}
        lim = (dl, possible(L, facts)) if limits else None
        return (("ok", o[1], lim), m, exprs(L, o, st) if exprs else ())
    res = L.language(dom, L.edges, "S", classify, exprs is not None)
    ctx.cover["abstract states"] = L.nodes
    ctx.cover["transitions"] = len(L.edges)
    ctx.cover["predicates analysed"] = len(L.preds)
    ctx.cover["passes over the text"] = L.phases
    ctx.floor("abstract states", 500, "abstract states of the token function")
    return L, res


TOP = 40


def possible(L, facts):
    """the values up to TOP of the limit that agree with the facts"""
    out = []
    k = ("sym", (L.fields[L.role["limit"]]["name"],), USZ) if "limit" in L.role else None
    for n in range(TOP + 1):
        good = True
        for f, b in facts.items():
            l = [to_lin(x) for x in f[1:3]]
            if any(x is None or any(t != k for t in x[1]) for x in l): raise Unsupported("the limit is compared with %s" % (f[1:],))
            x, y = (x[0] + sum(x[1].values()) * n for x in l)
            if (x == y if f[0] == "eq" else x < y) != b: good = False
        if good: out.append(n)
    return (out[0], out[-1], len(out)) if out else ()


def small(L, raw, args, extra=None):
    """outcomes of a function without loops: [(result, state)]"""
    def start(I, st):
        I.pushk(st, "root", **(extra or {}))
        I.push(st, raw, (), args(I))
    I, n, e = L.explore(start)
    out = []
    for s, ev, d in e:
        if isinstance(d, tuple):
            if d[0] == "panic": raise Unsupported("%s can panic" % L.P.where(raw))
            out.append((d[1], d[2]))
    return I, out


def state(L, tag, off):
    vals = []
    for i in range(len(L.fields)):
        if i == L.role["buf"]: vals.append(refv(ts("Z", "END")))
        elif i == L.role["off"]: vals.append(off)
        else: vals.append(("sym", (tag, i), L.fieldty(i)))
    return ("adt", L.adt, 0, tuple(vals))


def restores(ctx, L, fields):
    """reset(checkpoint()) brings back the given fields; the stream's other state stays as it is"""
    for n in ("checkpoint", "reset"):
        if n not in L.raw: raise Unsupported("no %s for %s" % (n, L.adt))
    a = state(L, "then", pos("S"))
    I, r = small(L, L.raw["checkpoint"], lambda I: [refv(a)])
    b = state(L, "now", ("sym", ("now", "off"), USZ))
    for cp, _ in r:
        I2, r2 = small(L, L.raw["reset"], lambda I: [("ref", True, ("@", 0, "me", ())), cp], {"me": b})
        for x, _ in r2:
            v, me = x[1]
            ctx.count("resets analysed")
            ctx.require(v[0] == "adt" and v[1] == RES and v[2] == 0, "reset:fails", "%s can fail" % ctx.P.where(L.raw["reset"]))
            for k, i in L.role.items():
                x = me[3][i]
                want = a[3][i] if k in fields else b[3][i]
                if k == "position": x, want = norm_pos(L, x), norm_pos(L, want)
                ctx.require(x == want, "reset:" + k, "after %s the stream's %s is %s, not %s" % (ctx.P.where(L.raw["reset"]), k, show(x), "what it was at the checkpoint" if k in fields else "left alone"))
            for i in L.others:
                ctx.require(me[3][i] in (b[3][i], NONE), "reset:other", "%s changes %s" % (ctx.P.where(L.raw["reset"]), L.fields[i]["name"]))


def norm_pos(L, v):
    """a position as (line, column)"""
    t = L.fieldty(L.role["position"])
    fs = L.P.adt(t[1])["variants"][0]["fields"]
    if v[0] == "sym": return tuple(("sym", v[1] + (f["name"],), USZ) for f in fs)
    return tuple(v[3])


def show(x): return str(x)[:120]


def remembers(ctx, L):
    """reading a token again gives the same token and leaves the stream where it was left, without touching the limit"""
    where = ctx.P.where(L.raw["uncons"])
    name = L.fields[L.role["limit"]]["name"] if "limit" in L.role else None
    seen = 0
    for s, d in L.exits():
        if d[0] != "ret": continue
        o = L.outcome(L.I.dom, d)
        r, me = d[1][1]
        dl, _ = L.limit(me, d[2])
        if o[0] != "ok": continue
        ctx.count("reads again")
        done = []
        for h, facts in L.hits:
            vs = []
            for (f, b) in facts:
                if f[0] == "eq" and b: vs.append(tuple(recall(x, me) for x in f[1:3]))
            if any(x is None or y is None for x, y in vs): continue      # nothing is remembered
            if all(canon(L, d, x) == canon(L, d, y) for x, y in vs): done.append(h)
        if not done:
            if dl: ctx.violation("again:limit", "%s counts a bracket that is read a second time again" % where)
            continue
        for h in done:
            hr, hme = h.result[1]
            if not ctx.require(h.result is not None and same(L, d, recall(hr, me), r), "again:token", "%s returns something else when a token is read a second time" % where): return
            for k, i in L.role.items():
                want = ("sym", (name,), USZ) if k == "limit" else me[3][i]
                ctx.require(same(L, d, recall(hme[3][i], me), want), "again:" + k, "%s leaves another %s behind when a token is read a second time" % (where, k))
            for i in L.others:
                ctx.require(same(L, d, recall(hme[3][i], me), me[3][i]) or hme[3][i] == NONE, "again:other", "%s remembers something else after a token is read a second time" % where)
            seen += 1
    ctx.floor("reads again", 10, "outcomes")


def canon(L, d, v):
    try: return L.bound(L.I.dom, d[2], v)
    except Unsupported: return v


def same(L, d, a, b):
    a, b = deref(a), deref(b)
    if a == b: return True
    if a[0] == b[0] and a[0] in ("adt", "tup"):
        if a[0] == "adt" and (a[1:3] != b[1:3] or len(a[3]) != len(b[3])): return False
        x, y = (a[3], b[3]) if a[0] == "adt" else (a[1], b[1])
        return len(x) == len(y) and all(same(L, d, p, q) for p, q in zip(x, y))
    if to_lin(a) and to_lin(b) and has_text(a) and has_text(b): return canon(L, d, a) == canon(L, d, b)
    return False


def getter(ctx, L, raw, k, what):
    """a function that returns one field"""
    a = state(L, "then", pos("S"))
    I, r = small(L, raw, lambda I: [refv(a)])
    for v, _ in r:
        x, want = deref(v), a[3][L.role[k]]
        if k == "position": x, want = norm_pos(L, x), norm_pos(L, want)
        ctx.require(x == want, what, "%s returns %s, not the stream's %s" % (ctx.P.where(raw), show(x), k))
    ctx.count("accessors analysed")
