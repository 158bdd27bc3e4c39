"""Arithmetic overflow checks in MIR, for the panic properties."""
BITS = {"u8": (0, 8), "u16": (0, 16), "u32": (0, 32), "u64": (0, 64), "usize": (0, 64), "u128": (0, 128),
        "i8": (1, 8), "i16": (1, 16), "i32": (1, 32), "i64": (1, 64), "isize": (1, 64), "i128": (1, 128)}


def optype(I, st):
    """type of the operands of the assertion the top frame stands at"""
    fr = st.top
    b = I.P.body(fr.raw, fr.prom)
    for o in b["blocks"][fr.bb]["term"].get("ops", ()):
        if "c" in o: return I.P.ty(o["c"])
        p = o.get("cp") or o.get("mv")
        if p and not p["p"]: return I.P.ty(b["locals"][p["l"]])
        if p:
            t = fieldtype(I.P, I.P.ty(b["locals"][p["l"]]), p["p"])
            if t: return t
    return None


def fieldtype(P, t, proj):
    vi = 0
    for e in proj:
        if e == "*":
            if t[0] == "ref": t = t[2]
            elif t[0] == "adt" and t[2]: t = t[2][0]
            else: return None
        elif "f" in e:
            if t[0] == "tuple": t = t[1][e["f"]]
            elif t[0] == "adt": t = P.field_ty(t, vi, e["f"])
            else: return None
        elif "v" in e: vi = e["v"]
        else: return None
    return t


def on_assert(I, st, kind, ops, bounded):
    """[(state, passes)] for an overflow check, None for other checks; bounded(v): v is known to be far below 2^63"""
    if kind == "OverflowNeg":
        if ops[0][0] == "i": return [(st, True)]
        return [(st, True)] if bounded(ops[0]) else [(st, True), (st.copy(), False)]
    if not kind.startswith("Overflow"): return None
    op = kind[9:-1]
    t = optype(I, st)
    sg, bits = BITS.get(t[1] if t and t[0] in ("int", "uint") else None, (1, 0))
    a, b = ops[0], ops[1]
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if sg and bits else (0, (1 << bits) - 1)
    if op in ("Shl", "Shr"): return [(st, True)] if b[0] == "i" and 0 <= b[1] < bits else [(st, True), (st.copy(), False)]
    if a[0] == "i" and b[0] == "i" and bits:
        r = {"Add": a[1] + b[1], "Sub": a[1] - b[1], "Mul": a[1] * b[1]}.get(op)
        if r is not None: return [(st, lo <= r <= hi)]
    if op == "Sub" and not sg: return [(s, not x) for s, x in I.truth(st, I.binop(st, "Lt", a, b))]
    if bits >= 64 and bounded(a) and bounded(b): return [(st, True)]
    return [(st, True), (st.copy(), False)]
