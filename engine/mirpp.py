"""Debug pretty-printer for the MIR dump: python3 mirpp.py NAME-SUBSTRING"""
import json, sys, os
D = None
def ty(i):
    t = D["types"][i]; k = t["k"]
    a = t.get("args", [])
    A = ("<" + ",".join(ty(x) if isinstance(x, int) else str(x) for x in a) + ">") if a else ""
    if k == "adt": return t["path"].split("::")[-1] + A
    if k == "ref": return ("&mut " if t["mut"] else "&") + ty(a[0])
    if k == "slice": return "[" + ty(a[0]) + "]"
    if k == "tuple": return "(" + ",".join(map(ty, a)) + ")"
    if k in ("int", "uint", "float", "param"): return t["n"]
    if k == "fndef": return "fn:" + t["path"] + A
    if k == "closure": return "closure:" + t["raw"].split("::", 1)[1]
    if k == "alias": return t["s"]
    return k + A
def pl(p):
    r = "_%d" % p["l"]
    for e in p["p"]:
        if e == "*": r = "(*%s)" % r
        elif "f" in e: r += "." + (e["n"] or str(e["f"]))
        elif "v" in e: r = "(%s as %s)" % (r, e["n"])
        elif "i" in e: r += "[_%d]" % e["i"]
        else: r += str(e)
    return r
def op(o):
    if "cp" in o: return pl(o["cp"])
    if "mv" in o: return "move " + pl(o["mv"])
    if "fn" in o:
        f = o["fn"]; return "FN " + f["path"] + "<" + ",".join(ty(x) if isinstance(x, int) else "?" for x in f["args"]) + ">" + (" =>" + f["res"] if "res" in f else "") + (" CTOR" if "ctor" in f else "")
    for k in ("str", "int", "char", "bool", "promoted", "zst", "bytes", "static", "item"):
        if k in o: return "%s:%r" % (k, o[k])
    return str(o)
def rv(r):
    k = r["r"]
    if k == "use": return op(r["o"])
    if k == "ref": return "&" + ("mut " if r["mut"] else "") + pl(r["p"])
    if k == "bin": return "%s(%s,%s)" % (r["op"], op(r["a"]), op(r["b"]))
    if k == "un": return "%s(%s)" % (r["op"], op(r["a"]))
    if k == "discr": return "discr " + pl(r["p"])
    if k == "agg": return "%s %s#%s(%s)" % (r["k"], r.get("adt", r.get("raw", "")), r.get("v", ""), ", ".join(map(op, r["ops"])))
    if k == "cast": return "cast %s %s -> %s" % (r["kind"], op(r["o"]), ty(r["t"]))
    return str(r)
def show(b):
    nm = {l: x for l, x in b["names"]}
    print("  args", b["argc"], {i: ty(t) + (" " + nm[i] if i in nm else "") for i, t in enumerate(b["locals"])})
    for i, bb in enumerate(b["blocks"]):
        if bb["cleanup"]: continue
        print("  bb%d:" % i)
        for s in bb["st"]:
            if s["s"] == "=": print("    %s = %s" % (pl(s["p"]), rv(s["r"])))
            elif s["s"] in ("dead", "live"): pass
            else: print("   ", s)
        t = bb["term"]
        if t["t"] == "call": print("    %s = CALL %s(%s) -> bb%s" % (pl(t["dest"]), op(t["f"]), ", ".join(map(op, t["args"])), t["to"]))
        elif t["t"] == "switch": print("    switch %s %s else bb%s" % (op(t["o"]), t["arms"], t["else"]))
        elif t["t"] == "assert": print("    assert %s==%s %s -> bb%s" % (op(t["o"]), t["exp"], t["kind"], t["to"]))
        elif t["t"] == "drop": print("    drop %s -> bb%s" % (pl(t["p"]), t["to"]))
        else: print("   ", {k: v for k, v in t.items() if k not in ("at", "mac")})
if __name__ == "__main__":
    D = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", ".work", "mir.json")))
    for f in D["fns"]:
        if len(sys.argv) < 2: print(f["raw"], f["path"], f["kind"], f.get("exp"))
        elif sys.argv[1] in f["raw"] or sys.argv[1] in f["path"]:
            print("FN", f["raw"], f["path"], f["kind"], {k: v for k, v in f.items() if k not in ("body", "promoted")})
            show(f["body"])
            for p in f["promoted"]: print(" PROMOTED"); show(p)
