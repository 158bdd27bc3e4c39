"""Models of the standard library for the abstract interpreter."""

MODELS = {}
KONT = {}
RESUME = {}      # continuations that loop: run again when on top
OPT = "std::option::Option"
RES = "std::result::Result"
BOX = "std::boxed::Box"
CF = "std::ops::ControlFlow"
UNIT = ("tup", ())
NONE = ("adt", OPT, 0, ())


def some(v): return ("adt", OPT, 1, (v,))
def ok(v): return ("adt", RES, 0, (v,))
def err(v): return ("adt", RES, 1, (v,))
def refv(v): return ("ref", False, ("v", v))


def model(*names):
    def d(f):
        for n in names: MODELS[n] = f
        return f
    return d


def kont(name):
    def d(f):
        KONT[name] = f
        return f
    return d


def lookup(name, f=None):
    return MODELS.get(name)


def unsupported(*a):
    from interp import Unsupported
    raise Unsupported(" ".join(str(x) for x in a))


# ---------------------------------------------------------------- arithmetic
def arith(o, a, b):
    """default: exact on constants, linear forms over unknowns, undecided comparisons otherwise"""
    if a[0] in ("i", "c", "b") and b[0] in ("i", "c", "b"):
        x, y = a[1], b[1]
        if o == "Add": return ("i", x + y)
        if o == "Sub": return ("i", x - y)
        if o == "Mul": return ("i", x * y)
        if o == "Div" and y: return ("i", x // y if (x >= 0) == (y > 0) else -((-x) // y))
        if o == "Rem" and y and x >= 0 and y > 0: return ("i", x % y)
        if o == "Eq": return ("b", x == y)
        if o == "Ne": return ("b", x != y)
        if o == "Lt": return ("b", x < y)
        if o == "Le": return ("b", x <= y)
        if o == "Gt": return ("b", x > y)
        if o == "Ge": return ("b", x >= y)
        if o in ("BitAnd", "BitOr", "BitXor"):
            if a[0] == "b":
                return ("b", {"BitAnd": x and y, "BitOr": x or y, "BitXor": x != y}[o])
            return ("i", {"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[o])
    if o in ("Add", "Sub"):
        r = lin_add(a, b, 1 if o == "Add" else -1)
        if r is not None: return r
    if o in ("BitAnd", "BitOr") and (a[0] == "b" or b[0] == "b"):
        k, s = (a, b) if a[0] == "b" else (b, a)
        if o == "BitAnd": return s if k[1] else ("b", False)
        return ("b", True) if k[1] else s
    if o == "BitAnd": return ("and", a, b)
    if o == "BitOr": return ("or", a, b)
    if o == "Eq":
        if a == b and a[0] != "top": return ("b", True)
        return ("eq", a, b)
    if o == "Ne":
        if a == b and a[0] != "top": return ("b", False)
        return ("not", ("eq", a, b))
    if o in ("Lt", "Gt"):
        return ("lt", a, b) if o == "Lt" else ("lt", b, a)
    if o in ("Le", "Ge"):
        return ("not", ("lt", b, a)) if o == "Le" else ("not", ("lt", a, b))
    return ("top", o)


LINK = ("sym", "len", "lin", "cast", "pos", "cnt", "strlen", "idx", "ctr")


def to_lin(v):
    """-> (const, dict) or None"""
    if v[0] == "i": return v[1], {}
    if v[0] == "lin": return v[1], dict(v[2])
    if v[0] in LINK: return 0, {v: 1}
    return None


def mk_lin(c, d):
    d = {k: x for k, x in d.items() if x}
    if not d: return ("i", c)
    if c == 0 and len(d) == 1:
        k, x = next(iter(d.items()))
        if x == 1: return k
    return ("lin", c, tuple(sorted(d.items(), key=lambda kv: repr(kv[0]))))


def lin_add(a, b, s):
    x, y = to_lin(a), to_lin(b)
    if x is None or y is None: return None
    d = dict(x[1])
    for k, n in y[1].items(): d[k] = d.get(k, 0) + s * n
    return mk_lin(x[0] + s * y[0], d)


def length(I, st, v):
    v = I.val(st, v)
    if v[0] == "vec": return ("i", len(v[1]))
    if v[0] == "s": return ("i", len(v[1].encode()))
    if v[0] == "by": return ("i", len(v[1]))
    f = getattr(I.dom, "length", None)
    if f:
        r = f(I, st, v)
        if r is not None: return r
    return ("len", v)


# ---------------------------------------------------------------- plumbing
@kont("wrap")
def k_wrap(I, st, fr, v):
    w = fr.loc["w"]
    st.frames.pop()
    return I.ret(st, apply_wrap(w, v))


def apply_wrap(w, v):
    if w == "some": return some(v)
    if w == "ok": return ok(v)
    if w == "err": return err(v)
    if w == "ref": return refv(v)
    if w == "id": return v
    if w == "not": return ("not", v) if v[0] != "b" else ("b", not v[1])
    if w == "unit": return UNIT
    return v


def call_wrap(I, st, f, args, w):
    I.pushk(st, "wrap", w=w)
    return I.invoke(st, f, args)


def each(I, st, v, fn):
    out = []
    for s, x in I.force(st, v):
        out += fn(s, x)
    return out


# ---------------------------------------------------------------- identity-like
@model("Clone::clone", "Borrow::borrow", "AsRef::as_ref", "ToOwned::to_owned", "Deref::deref", "String::as_str",
       "Vec::as_slice", "String::as_bytes", "str::as_bytes", "hint::must_use", "convert::identity", "mem::take_ref",
       "Cow::as_ref", "str::to_owned", "str::to_string", "ToString::to_string", "String::from", "str::as_ref", "Option::as_slice",
       "BorrowMut::borrow_mut", "DerefMut::deref_mut", "Vec::as_mut_slice", "String::into_boxed_str", "Cow::into_owned")
def m_ident(I, st, args, info):
    n = info["name"]
    a = args[0]
    if n in ("hint::must_use", "convert::identity"): return I.ret(st, a)
    if n in ("DerefMut::deref_mut", "BorrowMut::borrow_mut", "Vec::as_mut_slice"): return I.ret(st, a)
    v = I.val(st, a)
    if n in ("Clone::clone", "ToOwned::to_owned", "str::to_owned", "str::to_string", "ToString::to_string", "String::from", "Cow::into_owned"):
        x = I.deref(st, a) if a[0] == "ref" else a
        if n in ("ToString::to_string",):
            f = getattr(I.dom, "to_string", None)
            if f:
                r = f(I, st, v, info)
                if r is not None: return I.ret(st, r)
        return I.ret(st, x if n == "Clone::clone" else v)
    if v[0] == "adt" and v[1] == BOX and n == "AsRef::as_ref": v = v[3][0]
    return I.ret(st, refv(v))


@model("From::from", "Into::into")
def m_from(I, st, args, info):
    f = getattr(I.dom, "convert", None)
    if f:
        r = f(I, st, args[0], info)
        if r is not None: return I.ret(st, r)
    v = args[0]
    t = info["targs"]
    if v[0] == "ref": v = I.val(st, v)
    if v[0] == "c" and info["name"] == "From::from" and t and t[0] in (("uint", "u32"), ("uint", "u64")): v = ("i", v[1])
    return I.ret(st, v)


@model("Box::new", "Rc::new", "Arc::new")
def m_box(I, st, args, info):
    return I.ret(st, ("adt", BOX, 0, (args[0],)))


@model("mem::drop", "drop::drop", "mem::forget", "Drop::drop")
def m_drop(I, st, args, info): return I.ret(st, UNIT)


@model("mem::replace")
def m_replace(I, st, args, info):
    a = args[0][2]
    old = I.addr_read(st, a)
    I.addr_write(st, a, args[1])
    return I.ret(st, old)


@model("mem::take")
def m_take(I, st, args, info):
    a = args[0][2]
    old = I.addr_read(st, a)
    I.addr_write(st, a, default_of(I, info["targs"][0]))
    return I.ret(st, old)


@model("mem::swap")
def m_swap(I, st, args, info):
    a, b = args[0][2], args[1][2]
    x, y = I.addr_read(st, a), I.addr_read(st, b)
    I.addr_write(st, a, y); I.addr_write(st, b, x)
    return I.ret(st, UNIT)


def default_of(I, t):
    if t[0] in ("int", "uint"): return ("i", 0)
    if t == ("bool",): return ("b", False)
    if t[0] == "adt":
        if t[1] == OPT: return NONE
        if t[1].endswith("::Vec") or t[1].endswith("BTreeMap"): return ("vec", ())
        if t[1].endswith("::String"): return ("s", "")
        a = I.P.adt(t[1])
        if a and a["local"] and a["kind"] == "struct":
            return ("adt", t[1], 0, tuple(default_of(I, I.P.field_ty(t, 0, i)) for i in range(len(a["variants"][0]["fields"]))))
    if t[0] == "tuple": return ("tup", tuple(default_of(I, x) for x in t[1]))
    if t[0] == "ref" and t[2] == ("str",): return refv(("s", ""))
    return ("top", "default")


@model("Default::default", "Option::default", "Vec::default")
def m_default(I, st, args, info):
    return I.ret(st, default_of(I, info["self"] or info["targs"][0]))


# ---------------------------------------------------------------- panics
@model("panicking::panic", "panicking::panic_fmt", "panicking::unreachable_default_msg", "panicking::panic_display", "panicking::assert_failed", "panicking::panic_explicit", "rt::begin_panic", "panicking::panic_str", "panicking::unreachable_display")
def m_panic(I, st, args, info): return I.do_panic(st, "panic", info["name"])


@model("hint::unreachable_unchecked", "hint::assert_unchecked", "hint::black_box")
def m_hint(I, st, args, info):
    return I.ret(st, args[0] if args else UNIT)


# ---------------------------------------------------------------- comparison
def struct_eq(I, st, a, b):
    """True/False/condition"""
    a = I.val(st, a); b = I.val(st, b)
    f = getattr(I.dom, "eq", None)
    if f:
        r = f(I, st, a, b)
        if r is not None: return r
    if a[0] in ("i", "c", "b", "s", "by") and b[0] == a[0]: return ("b", a[1] == b[1])
    if a[0] == "adt" and b[0] == "adt" and a[1] == b[1]:
        if a[2] != b[2]: return ("b", False)
        return conj([struct_eq(I, st, x, y) for x, y in zip(a[3], b[3])])
    if a[0] == "tup" and b[0] == "tup":
        return conj([struct_eq(I, st, x, y) for x, y in zip(a[1], b[1])])
    if a[0] == "vec" and b[0] == "vec":
        if len(a[1]) != len(b[1]): return ("b", False)
        return conj([struct_eq(I, st, x, y) for x, y in zip(a[1], b[1])])
    if a == b and a[0] != "top": return ("b", True)
    if repr(b) < repr(a): a, b = b, a
    return ("eq", a, b)


def conj(l):
    r = [x for x in l if x != ("b", True)]
    if any(x == ("b", False) for x in r): return ("b", False)
    if not r: return ("b", True)
    x = r[0]
    for y in r[1:]: x = ("and", x, y)
    return x


@model("PartialEq::eq", "PartialEq::ne")
def m_eq(I, st, args, info):
    r = struct_eq(I, st, args[0], args[1])
    if info["name"].endswith("ne"): r = apply_wrap("not", r)
    return ret_cond(I, st, r)


def ret_cond(I, st, r):
    if r[0] in ("and", "or"):
        # decide the parts one by one
        out = []
        for s, x in I.truth(st, r[1]):
            if x == (r[0] == "or"): out += I.ret(s, ("b", x))
            else: out += ret_cond(I, s, r[2])
        return out
    return I.ret(st, r)


@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def m_ord(I, st, args, info):
    o = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[info["name"].split("::")[1]]
    return I.ret(st, I.binop(st, o, I.val(st, args[0]), I.val(st, args[1])))


@model("cmp::min", "cmp::max", "Ord::min", "Ord::max")
def m_min(I, st, args, info):
    a, b = args[0], args[1]
    mn = info["name"].endswith("min")
    c = I.binop(st, "Lt", b, a) if mn else I.binop(st, "Lt", a, b)
    return [x for s, r in I.truth(st, c) for x in I.ret(s, b if r else a)]


@model("Ord::cmp", "PartialOrd::partial_cmp")
def m_cmp(I, st, args, info):
    a, b = I.val(st, args[0]), I.val(st, args[1])
    out = []
    w = some if info["name"].startswith("Partial") else (lambda x: x)
    O = "std::cmp::Ordering"
    for s, r in I.truth(st, I.binop(st, "Lt", a, b)):
        if r: out += I.ret(s, w(("adt", O, 0, ())))
        else:
            for s2, r2 in I.truth(s, I.binop(s, "Eq", a, b)):
                out += I.ret(s2, w(("adt", O, 1 if r2 else 2, ())))
    return out


# ---------------------------------------------------------------- integers
@model("usize::checked_sub", "u32::checked_sub", "u64::checked_sub")
def m_csub(I, st, args, info):
    a, b = args
    f = getattr(I.dom, "checked_sub", None)
    if f:
        r = f(I, st, a, b)
        if r is not None: return [x for s, v in r for x in I.ret(s, v)]
    c = I.binop(st, "Lt", a, b)
    return [x for s, r in I.truth(st, c) for x in I.ret(s, NONE if r else some(I.binop(s, "Sub", a, b)))]


@model("usize::checked_add", "u32::checked_add", "u64::checked_add")
def m_cadd(I, st, args, info): return I.ret(st, some(I.binop(st, "Add", args[0], args[1])))


@model("usize::saturating_add", "u32::saturating_add", "usize::wrapping_add", "u32::wrapping_add")
def m_sadd(I, st, args, info): return I.ret(st, I.binop(st, "Add", args[0], args[1]))


@model("usize::saturating_sub", "u32::saturating_sub", "usize::wrapping_sub")
def m_ssub(I, st, args, info):
    a, b = args
    if a[0] == "i" and b[0] == "i": return I.ret(st, ("i", max(0, a[1] - b[1])))
    c = I.binop(st, "Lt", a, b)
    return [x for s, r in I.truth(st, c) for x in I.ret(s, ("i", 0) if r else I.binop(s, "Sub", a, b))]


# ---------------------------------------------------------------- Option / Result
def opt(name):
    return model("Option::" + name)


@model("Option::is_some", "Option::is_none", "Result::is_ok", "Result::is_err")
def m_is(I, st, args, info):
    n = info["name"]
    yes = 1 if n in ("Option::is_some", "Result::is_err") else 0
    return each(I, st, args[0], lambda s, x: I.ret(s, ("b", x[2] == yes)))


@model("Option::is_some_and", "Option::is_none_or", "Result::is_ok_and")
def m_is_and(I, st, args, info):
    has = 0 if info["name"].startswith("Result") else 1
    dflt = info["name"] == "Option::is_none_or"
    return each(I, st, args[0], lambda s, x: I.invoke(s, args[1], [x[3][0]]) if x[2] == has else I.ret(s, ("b", dflt)))


@model("Option::map", "Result::map", "Result::map_err", "Option::and_then", "Result::and_then", "Option::or_else", "Result::or_else")
def m_map(I, st, args, info):
    n = info["name"]
    def f(s, x):
        if n == "Option::map": return call_wrap(I, s, args[1], [x[3][0]], "some") if x[2] == 1 else I.ret(s, x)
        if n == "Option::and_then": return I.invoke(s, args[1], [x[3][0]]) if x[2] == 1 else I.ret(s, x)
        if n == "Option::or_else": return I.ret(s, x) if x[2] == 1 else I.invoke(s, args[1], [])
        if n == "Result::map": return call_wrap(I, s, args[1], [x[3][0]], "ok") if x[2] == 0 else I.ret(s, x)
        if n == "Result::map_err": return call_wrap(I, s, args[1], [x[3][0]], "err") if x[2] == 1 else I.ret(s, x)
        if n == "Result::and_then": return I.invoke(s, args[1], [x[3][0]]) if x[2] == 0 else I.ret(s, x)
        return I.invoke(s, args[1], [x[3][0]]) if x[2] == 1 else I.ret(s, x)
    return each(I, st, args[0], f)


@model("Option::map_or", "Option::map_or_else", "Result::map_or", "Result::map_or_else")
def m_map_or(I, st, args, info):
    has = 0 if info["name"].startswith("Result") else 1
    def f(s, x):
        if x[2] == has: return I.invoke(s, args[2], [x[3][0]])
        if info["name"].endswith("else"): return I.invoke(s, args[1], list(x[3]))
        return I.ret(s, args[1])
    return each(I, st, args[0], f)


@model("Option::unwrap_or", "Option::unwrap_or_else", "Option::unwrap_or_default", "Result::unwrap_or", "Result::unwrap_or_else", "Result::unwrap_or_default")
def m_unwrap_or(I, st, args, info):
    n = info["name"]
    has = 0 if n.startswith("Result") else 1
    def f(s, x):
        if x[2] == has: return I.ret(s, x[3][0])
        if n.endswith("or"): return I.ret(s, args[1])
        if n.endswith("else"): return I.invoke(s, args[1], list(x[3]))
        t = info["self"] or info["targs"][0]
        return I.ret(s, default_of(I, info["targs"][0]))
    return each(I, st, args[0], f)


@model("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect", "Option::unwrap_unchecked")
def m_unwrap(I, st, args, info):
    has = 0 if info["name"].startswith("Result") else 1
    return each(I, st, args[0], lambda s, x: I.ret(s, x[3][0]) if x[2] == has else I.do_panic(s, info["name"], x[1:3]))


@model("Result::unwrap_err", "Result::expect_err")
def m_unwrap_err(I, st, args, info):
    return each(I, st, args[0], lambda s, x: I.ret(s, x[3][0]) if x[2] == 1 else I.do_panic(s, info["name"], x[1:3]))


@model("Option::as_ref", "Option::as_deref", "Option::as_mut", "Option::as_deref_mut", "Result::as_ref")
def m_asref(I, st, args, info):
    a = args[0]
    mut = info["name"].endswith("mut")
    v = I.val(st, a)
    if v[0] == "adt" and a[0] == "ref" and a[2][0] == "@":
        if not v[3]: return I.ret(st, v)
        t = a[2]
        while True:
            w = I.addr_read(st, t)
            if w[0] == "ref" and w[2][0] == "@": t = w[2]
            else: break
        if w[0] != "ref":
            return I.ret(st, ("adt", v[1], v[2], (("ref", mut, ("@", t[1], t[2], t[3] + (("f", 0),))),)))
    return each(I, st, a, lambda s, x: I.ret(s, ("adt", x[1], x[2], tuple(refv(I.val(s, y)) for y in x[3]))))


@model("Option::cloned", "Option::copied")
def m_ocloned(I, st, args, info):
    return each(I, st, args[0], lambda s, x: I.ret(s, ("adt", x[1], x[2], tuple(I.deref(s, y) if y[0] == "ref" else y for y in x[3]))))


@model("Option::take")
def m_otake(I, st, args, info):
    a = args[0][2]
    v = I.addr_read(st, a)
    I.addr_write(st, a, NONE)
    return I.ret(st, v)


@model("Option::replace")
def m_oreplace(I, st, args, info):
    a = args[0][2]
    v = I.addr_read(st, a)
    I.addr_write(st, a, some(args[1]))
    return I.ret(st, v)


@model("Option::insert")
def m_oinsert(I, st, args, info):
    a = args[0][2]
    I.addr_write(st, a, some(args[1]))
    return I.ret(st, ("ref", True, ("@", a[1], a[2], a[3] + (("f", 0),))))


@model("Option::get_or_insert", "Option::get_or_insert_with")
def m_goi(I, st, args, info):
    a = args[0][2]
    def f(s, x):
        tgt = ("ref", True, ("@", a[1], a[2], a[3] + (("f", 0),)))
        if x[2] == 1:
            I.addr_write(s, a, x)
            return I.ret(s, tgt)
        if info["name"].endswith("with"):
            I.pushk(s, "goi", a=a)
            return I.invoke(s, args[1], [])
        I.addr_write(s, a, some(args[1]))
        return I.ret(s, tgt)
    return each(I, st, args[0], f)


@kont("goi")
def k_goi(I, st, fr, v):
    a = fr.loc["a"]
    st.frames.pop()
    I.addr_write(st, a, some(v))
    return I.ret(st, ("ref", True, ("@", a[1], a[2], a[3] + (("f", 0),))))


@model("Option::ok_or", "Option::ok_or_else")
def m_okor(I, st, args, info):
    def f(s, x):
        if x[2] == 1: return I.ret(s, ok(x[3][0]))
        if info["name"].endswith("else"): return call_wrap(I, s, args[1], [], "err")
        return I.ret(s, err(args[1]))
    return each(I, st, args[0], f)


@model("Result::ok", "Result::err")
def m_rok(I, st, args, info):
    w = 0 if info["name"].endswith("ok") else 1
    return each(I, st, args[0], lambda s, x: I.ret(s, some(x[3][0]) if x[2] == w else NONE))


@model("Option::or", "Result::or")
def m_or(I, st, args, info):
    has = 0 if info["name"].startswith("Result") else 1
    return each(I, st, args[0], lambda s, x: I.ret(s, x if x[2] == has else args[1]))


@model("Option::and", "Result::and")
def m_and(I, st, args, info):
    has = 0 if info["name"].startswith("Result") else 1
    return each(I, st, args[0], lambda s, x: I.ret(s, args[1] if x[2] == has else x))


@model("Option::filter")
def m_ofilter(I, st, args, info):
    def f(s, x):
        if x[2] == 0: return I.ret(s, x)
        I.pushk(s, "ofilter", x=x)
        return I.invoke(s, args[1], [refv(x[3][0])])
    return each(I, st, args[0], f)


@kont("ofilter")
def k_ofilter(I, st, fr, v):
    x = fr.loc["x"]
    st.frames.pop()
    return [y for s, b in I.truth(st, v) for y in I.ret(s, x if b else NONE)]


@model("Option::flatten")
def m_flatten(I, st, args, info):
    return each(I, st, args[0], lambda s, x: I.ret(s, x[3][0] if x[2] == 1 else x))


@model("Option::unzip", "Option::zip")
def m_ozip(I, st, args, info):
    return each(I, st, args[0], lambda s, x: each(I, s, args[1], lambda s2, y: I.ret(s2, some(("tup", (x[3][0], y[3][0]))) if x[2] == 1 and y[2] == 1 else NONE)))


@model("Try::branch")
def m_branch(I, st, args, info):
    def f(s, x):
        if x[1] == RES:
            return I.ret(s, ("adt", CF, 0, (x[3][0],)) if x[2] == 0 else ("adt", CF, 1, (err(x[3][0]),)))
        if x[1] == OPT:
            return I.ret(s, ("adt", CF, 0, (x[3][0],)) if x[2] == 1 else ("adt", CF, 1, (NONE,)))
        unsupported("try", x[1])
    return each(I, st, args[0], f)


@model("FromResidual::from_residual")
def m_resid(I, st, args, info):
    x = I.val(st, args[0])
    if x[0] == "adt" and x[1] == RES and x[2] == 1:
        return I.ret(st, err(("from", x[3][0])))
    return I.ret(st, x)


@model("Try::from_output")
def m_from_output(I, st, args, info): return I.ret(st, ok(args[0]))


@model("bool::then", "bool::then_some")
def m_then(I, st, args, info):
    out = []
    for s, b in I.truth(st, args[0]):
        if not b: out += I.ret(s, NONE)
        elif info["name"].endswith("some"): out += I.ret(s, some(args[1]))
        else: out += call_wrap(I, s, args[1], [], "some")
    return out


# ---------------------------------------------------------------- sequences
def V(items): return ("vec", tuple(items))


@model("Vec::new", "Vec::with_capacity", "BTreeMap::new", "slice::into_vec", "<[T]>::into_vec", "vec::from_elem0")
def m_vnew(I, st, args, info):
    if info["name"].endswith("into_vec"):
        v = I.val(st, args[0])
        if v[0] == "adt" and v[1] == BOX: v = v[3][0]
        return I.ret(st, v)
    return I.ret(st, V(()))


@model("String::new", "String::with_capacity")
def m_snew(I, st, args, info):
    f = getattr(I.dom, "new_string", None)
    if f:
        r = f(I, st, info)
        if r is not None: return I.ret(st, r)
    return I.ret(st, ("s", ""))


@model("Vec::push", "Vec::reserve", "String::reserve", "Vec::shrink_to_fit", "String::shrink_to_fit")
def m_vpush(I, st, args, info):
    if info["name"] != "Vec::push": return I.ret(st, UNIT)
    a = addr_of(I, st, args[0])
    v = I.addr_read(st, a)
    f = getattr(I.dom, "vec_push", None)
    if f:
        r = f(I, st, a, v, args[1])
        if r is not None: return r
    if v[0] == "vec":
        I.addr_write(st, a, V(v[1] + (args[1],)))
        return I.ret(st, UNIT)
    unsupported("push to", v[0])


def addr_of(I, st, r):
    """address of the innermost place a (possibly nested) mutable reference points to"""
    a = r[2] if r[0] == "ref" else None
    while a is not None and a[0] == "@":
        v = I.addr_read(st, a)
        if v[0] == "ref": a = v[2]
        else: return a
    unsupported("no address")


@model("Vec::is_empty", "slice::is_empty", "BTreeMap::is_empty", "str::is_empty", "String::is_empty")
def m_isempty(I, st, args, info):
    v = I.val(st, args[0])
    if v[0] in ("vec", "s", "by"): return I.ret(st, ("b", len(v[1]) == 0))
    f = getattr(I.dom, "is_empty", None)
    if f:
        r = f(I, st, v)
        if r is not None: return I.ret(st, r)
    l = length(I, st, v)
    return I.ret(st, I.binop(st, "Eq", l, ("i", 0)))


@model("Vec::len", "slice::len", "BTreeMap::len", "str::len", "String::len", "ExactSizeIterator::len")
def m_len(I, st, args, info): return I.ret(st, length(I, st, args[0]))


@model("Vec::first", "slice::first", "Vec::last", "slice::last", "slice::get", "Vec::get", "slice::split_first", "slice::split_last")
def m_first(I, st, args, info):
    v = I.val(st, args[0])
    n = info["name"].split("::")[1]
    f = getattr(I.dom, "seq_" + n, None)
    if f:
        r = f(I, st, v, args[1:])
        if r is not None: return [x for s, y in r for x in I.ret(s, y)]
    if v[0] == "vec":
        it = v[1]
        if n == "first": r = some(refv(it[0])) if it else NONE
        elif n == "last": r = some(refv(it[-1])) if it else NONE
        elif n == "get" and args[1][0] == "i": r = some(refv(it[args[1][1]])) if args[1][1] < len(it) else NONE
        elif n == "split_first": r = some(("tup", (refv(it[0]), refv(V(it[1:]))))) if it else NONE
        elif n == "split_last": r = some(("tup", (refv(it[-1]), refv(V(it[:-1]))))) if it else NONE
        else: unsupported(n)
        return I.ret(st, r)
    unsupported(info["name"], v[0])


@model("slice::join", "slice::concat", "Join::join")
def m_join(I, st, args, info):
    v = I.val(st, args[0])
    f = getattr(I.dom, "join", None)
    if f:
        r = f(I, st, v, I.val(st, args[1]) if len(args) > 1 else ("s", ""))
        if r is not None: return I.ret(st, r)
    if v[0] == "vec":
        sep = I.val(st, args[1]) if len(args) > 1 else ("s", "")
        parts = []
        for i, x in enumerate(v[1]):
            if i: parts.append(sep)
            parts.append(I.val(st, x))
        return I.ret(st, cat(parts))
    unsupported("join")


def cat(parts):
    out = []
    for p in parts:
        if p[0] == "cat": ps = p[1]
        else: ps = (p,)
        for q in ps:
            if q[0] == "c": q = ("s", chr(q[1]))
            if q[0] == "s" and out and out[-1][0] == "s": out[-1] = ("s", out[-1][1] + q[1])
            elif q[0] == "s" and q[1] == "": continue
            else: out.append(q)
    if not out: return ("s", "")
    if len(out) == 1 and out[0][0] in ("s",): return out[0]
    return ("cat", tuple(out))


@model("Index::index", "IndexMut::index_mut")
def m_index(I, st, args, info):
    v = I.val(st, args[0])
    ix = I.val(st, args[1])
    f = getattr(I.dom, "slice_index", None)
    if f:
        r = f(I, st, v, ix, info)
        if r is not None: return r
    if v[0] in ("vec", "by") and ix[0] == "i":
        if ix[1] < len(v[1]): return I.ret(st, refv(v[1][ix[1]] if v[0] == "vec" else ("i", v[1][ix[1]])))
        return I.do_panic(st, "index", ix)
    if v[0] in ("vec", "s", "by") and ix[0] == "adt":
        lo, hi = range_bounds(ix)
        body = v[1].encode() if v[0] == "s" else v[1]
        n = len(body)
        lo = ("i", 0) if lo is None else lo
        hi = ("i", n) if hi is None else hi
        if lo[0] == "i" and hi[0] == "i":
            if not (0 <= lo[1] <= hi[1] <= n): return I.do_panic(st, "slice", (lo, hi))
            x = body[lo[1]:hi[1]]
            return I.ret(st, refv((v[0], x.decode() if v[0] == "s" else x)))
    unsupported("index", v[0], ix[:2])


def range_bounds(ix):
    """(lo, hi) values of a range adt; None = open"""
    p = ix[1].split("::")[-1]
    f = ix[3]
    if p == "Range": return f[0], f[1]
    if p == "RangeFrom": return f[0], None
    if p == "RangeTo": return None, f[0]
    if p == "RangeFull": return None, None
    if p == "RangeToInclusive": return None, lin_add(f[0], ("i", 1), 1)
    if p == "RangeInclusive": return f[0], lin_add(f[1], ("i", 1), 1)
    unsupported("range", ix[1])


@model("RangeInclusive::new")
def m_rinew(I, st, args, info):
    return I.ret(st, ("adt", "std::ops::RangeInclusive", 0, (args[0], args[1], ("b", False))))


@model("RangeInclusive::contains", "Range::contains", "RangeBounds::contains")
def m_contains(I, st, args, info):
    r = I.val(st, args[0]); x = I.val(st, args[1])
    lo, hi = r[3][0], r[3][1]
    incl = r[1].endswith("RangeInclusive")
    c1 = I.binop(st, "Ge", x, lo)
    c2 = I.binop(st, "Le" if incl else "Lt", x, hi)
    return ret_cond(I, st, conj([c1, c2]))


# ---------------------------------------------------------------- iterators
def IT(kind, *f): return ("adt", "it::" + kind, 0, tuple(f))


@model("IntoIterator::into_iter", "slice::iter", "Vec::iter", "BTreeMap::iter", "slice::iter_mut", "BTreeMap::into_iter", "Option::iter", "Option::into_iter",
       "str::chars", "str::char_indices", "str::bytes", "str::lines", "str::split", "str::match_indices", "str::split_terminator", "BTreeMap::keys", "BTreeMap::values",
       "str::split_whitespace", "str::matches", "Vec::drain", "str::split_inclusive", "str::rsplit", "str::rmatch_indices", "slice::windows", "slice::chunks", "str::splitn")
def m_iter(I, st, args, info):
    n = info["name"]
    v = I.val(st, args[0])
    f = getattr(I.dom, "make_iter", None)
    if f:
        r = f(I, st, v, n, args, info)
        if r is not None:
            return r if isinstance(r, list) else I.ret(st, r)
    if n == "IntoIterator::into_iter" and v[0] == "adt" and (v[1].startswith("it::") or v[1].startswith("std::ops::Range")):
        return I.ret(st, args[0])
    if v[0] == "vec":
        byref = args[0][0] == "ref"
        return I.ret(st, IT("vec", v, ("i", 0), ("b", byref)))
    if v[0] == "adt" and v[1] == OPT:
        byref = args[0][0] == "ref"
        return I.ret(st, IT("vec", V(v[3]), ("i", 0), ("b", byref)))
    if v[0] == "s":
        if n == "str::chars": return I.ret(st, IT("vec", V([("c", ord(c)) for c in v[1]]), ("i", 0), ("b", False)))
        if n == "str::bytes": return I.ret(st, IT("vec", V([("i", c) for c in v[1].encode()]), ("i", 0), ("b", False)))
        if n == "str::char_indices":
            o = 0; l = []
            for c in v[1]:
                l.append(("tup", (("i", o), ("c", ord(c))))); o += len(c.encode())
            return I.ret(st, IT("vec", V(l), ("i", 0), ("b", False)))
    if v[0] == "by": return I.ret(st, IT("vec", V([("i", c) for c in v[1]]), ("i", 0), ("b", True)))
    unsupported("iter", n, v[:2])


ADAPT = {"map": 1, "filter": 1, "enumerate": 0, "skip": 1, "take": 1, "rev": 0, "peekable": 0, "cloned": 0, "copied": 0, "chain": 1, "zip": 1,
         "take_while": 1, "skip_while": 1, "filter_map": 1, "by_ref": 0, "fuse": 0, "inspect": 1, "map_while": 1, "step_by": 1, "flat_map": 1, "intersperse": 1}


@model(*["Iterator::" + a for a in ADAPT] + ["DoubleEndedIterator::rev"])
def m_adapt(I, st, args, info):
    n = info["name"].split("::")[1]
    it = args[0]
    f = getattr(I.dom, "adapt", None)
    if f:
        r = f(I, st, it, n, args)
        if r is not None: return I.ret(st, r)
    if n == "by_ref": return I.ret(st, it)
    if n == "fuse": return I.ret(st, it)
    if n == "enumerate": return I.ret(st, IT("enumerate", it, ("i", 0)))
    if n == "peekable": return I.ret(st, IT("peekable", it, NONE))
    if n in ("cloned", "copied"): return I.ret(st, IT("cloned", it))
    if n == "chain":
        b = args[1]
        return I.ret(st, IT("chain", it, as_iter(I, st, b), ("i", 0)))
    if n == "zip": return I.ret(st, IT("zip", it, as_iter(I, st, args[1])))
    if n == "rev":
        v = I.val(st, it)
        if v[0] == "adt" and v[1] == "it::vec":
            return I.ret(st, IT("vec", V(tuple(reversed(v[3][0][1][v[3][1][1]:]))), ("i", 0), v[3][2]))
        return I.ret(st, IT("rev", it))
    if n in ("skip_while",): return I.ret(st, IT(n, it, args[1], ("b", False)))
    return I.ret(st, IT(n, it, args[1]))


def as_iter(I, st, v):
    w = I.val(st, v)
    if w[0] == "adt" and (w[1].startswith("it::") or w[1].startswith("std::ops::Range")): return v
    if w[0] == "vec": return IT("vec", w, ("i", 0), ("b", v[0] == "ref"))
    if w[0] == "adt" and w[1] == "std::option::Option": return IT("vec", V(w[3]), ("i", 0), ("b", v[0] == "ref"))
    f = getattr(I.dom, "make_iter", None)
    if f:
        r = f(I, st, w, "IntoIterator::into_iter", [v], None)
        if r is not None: return r
    unsupported("as_iter", w[:2])


@model("iter::once", "iter::repeat", "iter::empty", "iter::repeat_n", "iter::repeat_with", "iter::from_fn", "iter::successors")
def m_once(I, st, args, info):
    n = info["name"].split("::")[1]
    if n == "once": return I.ret(st, IT("vec", V((args[0],)), ("i", 0), ("b", False)))
    if n == "empty": return I.ret(st, IT("vec", V(()), ("i", 0), ("b", False)))
    if n == "repeat": return I.ret(st, IT("repeat", args[0]))
    if n == "repeat_n": return I.ret(st, IT("take", IT("repeat", args[0]), args[1]))
    if n == "from_fn": return I.ret(st, IT("from_fn", args[0]))
    unsupported(n)


def addr_field(a, i): return ("@", a[1], a[2], a[3] + (("f", i),))


@model("Iterator::next")
def m_next(I, st, args, info):
    return it_next(I, st, addr_of(I, st, args[0]) if args[0][2][0] == "@" else unsupported("next on value"))


@model("DoubleEndedIterator::next_back")
def m_next_back(I, st, args, info):
    a = addr_of(I, st, args[0])
    v = I.addr_read(st, a)
    if v[0] == "adt" and v[1] == "it::vec":
        items, idx = v[3][0][1], v[3][1][1]
        if idx >= len(items): return I.ret(st, NONE)
        I.addr_write(st, a, IT("vec", V(items[:-1]), v[3][1], v[3][2]))
        x = items[-1]
        return I.ret(st, some(refv(x) if v[3][2][1] else x))
    f = getattr(I.dom, "next_back", None)
    if f:
        r = f(I, st, a, v)
        if r is not None: return r
    unsupported("next_back", v[:2])


def it_next(I, st, a):
    """deliver Option<item> of the iterator at address a to the top frame"""
    v = I.addr_read(st, a)
    while v[0] == "ref":
        if v[2][0] == "v": unsupported("iterator by value ref")
        a = v[2]; v = I.addr_read(st, a)
    r = I.dom.iter_next(I, st, a, v)
    if r is not None: return r
    if v[0] != "adt": unsupported("next of", v[:2])
    k = v[1]; f = v[3]
    if k == "it::vec":
        items, idx = f[0][1], f[1][1]
        if idx >= len(items): return I.ret(st, NONE)
        I.addr_write(st, a, IT("vec", f[0], ("i", idx + 1), f[2]))
        x = items[idx]
        if f[2][1] and x[0] != "ref": x = refv(x)
        return I.ret(st, some(x))
    if k == "std::ops::Range" and f[0][0] == "i" and f[1][0] == "i":
        if f[0][1] >= f[1][1]: return I.ret(st, NONE)
        I.addr_write(st, a, ("adt", k, 0, (("i", f[0][1] + 1), f[1])))
        return I.ret(st, some(f[0]))
    if k == "std::ops::RangeInclusive" and f[0][0] == "i" and f[1][0] == "i":
        if f[0][1] > f[1][1]: return I.ret(st, NONE)
        I.addr_write(st, a, ("adt", k, 0, (("i", f[0][1] + 1), f[1], f[2])))
        return I.ret(st, some(f[0]))
    if k == "std::ops::RangeFrom" and f[0][0] == "i":
        I.addr_write(st, a, ("adt", k, 0, (I.binop(st, "Add", f[0], ("i", 1)),)))
        return I.ret(st, some(f[0]))
    if k == "it::repeat": return I.ret(st, some(f[0]))
    if k == "it::peekable":
        if f[1] != NONE:
            p = f[1][3][0]
            I.addr_write(st, a, IT("peekable", f[0], NONE))
            return I.ret(st, p)
        return it_next(I, st, addr_field(a, 0))
    if k == "it::skip" and f[1][0] == "i":
        I.pushk(st, "n:skip", a=a)
        return skip_step(I, st)
    if k in ("it::map", "it::filter", "it::enumerate", "it::take", "it::cloned", "it::chain", "it::zip", "it::take_while", "it::skip_while",
             "it::filter_map", "it::inspect", "it::map_while", "it::from_fn"):
        if k == "it::take":
            if f[1][0] != "i": unsupported("take", f[1][:1])
            if f[1][1] == 0: return I.ret(st, NONE)
            I.addr_write(st, a, IT("take", f[0], ("i", f[1][1] - 1)))
            return it_next(I, st, addr_field(a, 0))
        if k == "it::from_fn":
            return I.invoke_at(st, addr_field(a, 0), [])
        if k == "it::chain" and f[2][1] == 1: return it_next(I, st, addr_field(a, 1))
        d = I.pushk(st, "n:" + k[4:], a=a)
        return it_next(I, st, addr_field(a, 0))
    unsupported("next of", k)


def skip_step(I, st):
    fr = st.top
    a = fr.loc["a"]
    v = I.addr_read(st, a)
    n = v[3][1][1]
    if n == 0:
        st.frames.pop()
        return it_next(I, st, addr_field(a, 0))
    return it_next(I, st, addr_field(a, 0))


@kont("n:skip")
def k_skip(I, st, fr, v):
    def f(s, x):
        a = s.top.loc["a"]
        if x[2] == 0:
            s.frames.pop()
            return I.ret(s, NONE)
        cur = I.addr_read(s, a)
        I.addr_write(s, a, IT("skip", cur[3][0], ("i", cur[3][1][1] - 1)))
        return skip_step(I, s)
    return each(I, st, v, f)


def on_item(fn):
    """handler for adapters: fn(I, s, frame, addr, item) when an item arrived"""
    def h(I, st, fr, v):
        def f(s, x):
            fr = s.top
            if x[2] == 0:
                s.frames.pop()
                return I.ret(s, NONE)
            return fn(I, s, fr, fr.loc["a"], x[3][0])
        if fr.bb == 1: return fn(I, st, fr, fr.loc["a"], v)
        return each(I, st, v, f)
    return h


@kont("n:map")
@on_item
def k_n_map(I, st, fr, a, x):
    if fr.bb == 1:
        st.frames.pop()
        return I.ret(st, some(x))
    fr.bb = 1
    return I.invoke_at(st, addr_field(a, 1), [x])


@kont("n:cloned")
@on_item
def k_n_cloned(I, st, fr, a, x):
    st.frames.pop()
    return I.ret(st, some(I.deref(st, x) if x[0] == "ref" else x))


@kont("n:enumerate")
@on_item
def k_n_enum(I, st, fr, a, x):
    st.frames.pop()
    v = I.addr_read(st, a)
    n = v[3][1]
    f = getattr(I.dom, "enum_index", None)
    m = f(I, st, a, v, x) if f else None
    if m is None: m = I.binop(st, "Add", n, ("i", 1))
    I.addr_write(st, a, IT("enumerate", v[3][0], m))
    return I.ret(st, some(("tup", (n, x))))


def k_n_filter(I, st, fr, v):
    if fr.bb == 0:
        def f(s, x):
            fr = s.top
            if x[2] == 0:
                s.frames.pop()
                return I.ret(s, NONE)
            fr.bb = 1
            fr.loc["x"] = x[3][0]
            return I.invoke_at(s, addr_field(fr.loc["a"], 1), [("ref", False, ("@", len(s.frames) - 1, "x", ()))])
        return each(I, st, v, f)
    out = []
    for s, b in I.truth(st, v):
        fr = s.top
        kind = fr.raw
        a = fr.loc["a"]
        if kind == "n:filter":
            if b:
                x = fr.loc["x"]; s.frames.pop(); out += I.ret(s, some(x))
            else:
                fr.bb = 0; fr.loc.pop("x")
                out += later(I, s, addr_field(a, 0))
        elif kind == "n:take_while":
            x = fr.loc["x"]; s.frames.pop()
            if b: out += I.ret(s, some(x))
            else:
                I.addr_write(s, a, IT("vec", V(()), ("i", 0), ("b", False)))
                out += I.ret(s, NONE)
        elif kind == "n:skip_while":
            if b:
                fr.bb = 0; fr.loc.pop("x")
                out += later(I, s, addr_field(a, 0))
            else:
                x = fr.loc["x"]; s.frames.pop()
                cur = I.addr_read(s, a)
                I.addr_write(s, a, cur[3][0])
                out += I.ret(s, some(x))
    return out


KONT["n:filter"] = k_n_filter
KONT["n:take_while"] = k_n_filter
KONT["n:skip_while"] = k_n_filter


def k_n_filter_map(I, st, fr, v):
    def f(s, x):
        fr = s.top
        a = fr.loc["a"]
        if fr.bb == 0:
            if x[2] == 0:
                s.frames.pop()
                return I.ret(s, NONE)
            fr.bb = 1
            return I.invoke_at(s, addr_field(a, 1), [x[3][0]])
        if x[2] == 1 or fr.raw == "n:map_while":
            s.frames.pop()
            return I.ret(s, x)
        fr.bb = 0; s.stop = True
        return it_next(I, s, addr_field(a, 0))
    return each(I, st, v, f)


KONT["n:filter_map"] = k_n_filter_map
KONT["n:map_while"] = k_n_filter_map


@kont("n:inspect")
def k_n_inspect(I, st, fr, v):
    if fr.bb == 1:
        x = fr.loc["x"]; st.frames.pop()
        return I.ret(st, some(x))
    def f(s, x):
        fr = s.top
        if x[2] == 0:
            s.frames.pop(); return I.ret(s, NONE)
        fr.bb = 1; fr.loc["x"] = x[3][0]
        return I.invoke_at(s, addr_field(fr.loc["a"], 1), [refv(x[3][0])])
    return each(I, st, v, f)


@kont("n:chain")
def k_n_chain(I, st, fr, v):
    def f(s, x):
        a = s.top.loc["a"]
        s.frames.pop()
        if x[2] == 1: return I.ret(s, x)
        cur = I.addr_read(s, a)
        I.addr_write(s, a, IT("chain", ("vec", ()), cur[3][1], ("i", 1)))
        return it_next(I, s, addr_field(a, 1))
    return each(I, st, v, f)


@kont("n:zip")
def k_n_zip(I, st, fr, v):
    def f(s, x):
        fr = s.top
        a = fr.loc["a"]
        if x[2] == 0:
            s.frames.pop(); return I.ret(s, NONE)
        if fr.bb == 0:
            fr.bb = 1; fr.loc["x"] = x[3][0]
            return it_next(I, s, addr_field(a, 1))
        y = fr.loc["x"]; s.frames.pop()
        return I.ret(s, some(("tup", (y, x[3][0]))))
    return each(I, st, v, f)


@model("Peekable::peek", "Peekable::next_if", "Peekable::next_if_eq", "Peekable::peek_mut")
def m_peek(I, st, args, info):
    a = addr_of(I, st, args[0])
    v = I.addr_read(st, a)
    n = info["name"].split("::")[1]
    f = getattr(I.dom, "peek_last", None)
    if f:
        r = f(I, st, a, v, n)
        if r is not None: return r
    I.pushk(st, "peek", a=a, n=n, f=args[1] if len(args) > 1 else UNIT)
    if v[3][1] != NONE: return I.ret(st, v[3][1][3][0])
    return it_next(I, st, addr_field(a, 0))


@kont("peek")
def k_peek(I, st, fr, v):
    a, n = fr.loc["a"], fr.loc["n"]
    if fr.bb == 0:
        def f(s, x):
            cur = I.addr_read(s, a)
            I.addr_write(s, a, IT("peekable", cur[3][0], some(x)))
            fr = s.top
            if n in ("peek", "peek_mut"):
                s.frames.pop()
                return I.ret(s, some(("ref", False, ("@", a[1], a[2], a[3] + (("f", 1), ("f", 0), ("f", 0))))) if x[2] == 1 else NONE)
            if x[2] == 0:
                s.frames.pop(); return I.ret(s, NONE)
            fr.bb = 1
            if n == "next_if_eq": return k_peek(I, s, fr, struct_eq(I, s, x[3][0], fr.loc["f"]))
            return I.invoke(s, fr.loc["f"], [refv(x[3][0])])
        return each(I, st, v, f)
    out = []
    for s, b in I.truth(st, v):
        s.frames.pop()
        if not b: out += I.ret(s, NONE)
        else:
            cur = I.addr_read(s, a)
            x = cur[3][1][3][0]
            I.addr_write(s, a, IT("peekable", cur[3][0], NONE))
            out += I.ret(s, x)
    return out


# ---- consumers
CONS = ["all", "any", "count", "find", "position", "for_each", "fold", "last", "nth", "find_map", "collect", "max", "min", "sum", "try_for_each", "rposition"]


@model(*["Iterator::" + c for c in CONS])
def m_consume(I, st, args, info):
    n = info["name"].split("::")[1]
    it = args[0]
    f = getattr(I.dom, "consume", None)
    if f:
        r = f(I, st, n, it, args, info)
        if r is not None: return r
    loc = {"it": it, "f": args[1] if len(args) > 1 else UNIT, "acc": UNIT}
    if n == "fold": loc["acc"] = args[1]; loc["f"] = args[2]
    if n in ("count", "position", "sum"): loc["acc"] = ("i", 0)
    if n == "nth":
        if args[1][0] != "i": unsupported("nth")
        loc["acc"] = args[1]
    if n == "last": loc["acc"] = NONE
    if n == "collect":
        loc["acc"] = V(())
        t = info["targs"][1] if len(info["targs"]) > 1 else None
        loc["f"] = ("ty", t)
        if t and t[0] == "adt" and t[1].endswith("String"): loc["acc"] = ("s", "")
    d = I.pushk(st, "c:" + n, **loc)
    return it_next(I, st, ("@", d, "it", ()))


def again(I, st):
    st.top.bb = 0
    return later(I, st, ("@", len(st.frames) - 1, "it", ()))


def later(I, st, a):
    """it_next after a hash point"""
    st.stop = True
    if not getattr(I.dom, "lazy", False): return it_next(I, st, a)
    I.pushk(st, "again", a=a)
    return [st]


def r_again(I, st, fr):
    a = fr.loc["a"]
    st.frames.pop()
    return it_next(I, st, a)


RESUME["again"] = r_again


def consumer(names, item, end, got=None):
    """item(I,s,fr,x): on an item; end(I,s,fr): value when exhausted; got(I,s,fr,v): on the closure's result"""
    def h(I, st, fr, v):
        if fr.bb == 1: return got(I, st, fr, v)
        def f(s, x):
            fr = s.top
            if x[2] == 0:
                r = end(I, s, fr)
                s.frames.pop()
                return I.ret(s, r)
            return item(I, s, fr, x[3][0])
        return each(I, st, v, f)
    for n in names: KONT["c:" + n] = h


def call_f(I, st, fr, args):
    fr.bb = 1
    return I.invoke_at(st, ("@", len(st.frames) - 1, "f", ()), args)


def fin(I, st, v):
    st.frames.pop()
    return I.ret(st, v)


consumer(["all"], lambda I, s, fr, x: call_f(I, s, fr, [x]), lambda I, s, fr: ("b", True),
         lambda I, s, fr, v: [y for s2, b in I.truth(s, v) for y in (again(I, s2) if b else fin(I, s2, ("b", False)))])
consumer(["any"], lambda I, s, fr, x: call_f(I, s, fr, [x]), lambda I, s, fr: ("b", False),
         lambda I, s, fr, v: [y for s2, b in I.truth(s, v) for y in (fin(I, s2, ("b", True)) if b else again(I, s2))])


def it_count(I, s, fr, x):
    fr.loc["acc"] = I.binop(s, "Add", fr.loc["acc"], ("i", 1))
    return again(I, s)


consumer(["count"], it_count, lambda I, s, fr: fr.loc["acc"])


def it_find(I, s, fr, x):
    fr.loc["x"] = x
    return call_f(I, s, fr, [("ref", False, ("@", len(s.frames) - 1, "x", ()))])


def got_find(I, s, fr, v):
    out = []
    for s2, b in I.truth(s, v):
        x = s2.top.loc.pop("x")
        out += fin(I, s2, some(x)) if b else again(I, s2)
    return out


consumer(["find"], it_find, lambda I, s, fr: NONE, got_find)


def got_pos(I, s, fr, v):
    out = []
    for s2, b in I.truth(s, v):
        fr = s2.top
        if b: out += fin(I, s2, some(fr.loc["acc"]))
        else:
            fr.loc["acc"] = I.binop(s2, "Add", fr.loc["acc"], ("i", 1))
            out += again(I, s2)
    return out


consumer(["position"], lambda I, s, fr, x: call_f(I, s, fr, [x]), lambda I, s, fr: NONE, got_pos)
consumer(["for_each"], lambda I, s, fr, x: call_f(I, s, fr, [x]), lambda I, s, fr: UNIT, lambda I, s, fr, v: again(I, s))


def got_fold(I, s, fr, v):
    fr.loc["acc"] = v
    return again(I, s)


consumer(["fold"], lambda I, s, fr, x: call_f(I, s, fr, [fr.loc["acc"], x]), lambda I, s, fr: fr.loc["acc"], got_fold)


def it_last(I, s, fr, x):
    fr.loc["acc"] = some(x)
    return again(I, s)


consumer(["last"], it_last, lambda I, s, fr: fr.loc["acc"])


def it_nth(I, s, fr, x):
    if fr.loc["acc"][1] == 0: return fin(I, s, some(x))
    fr.loc["acc"] = ("i", fr.loc["acc"][1] - 1)
    return again(I, s)


consumer(["nth"], it_nth, lambda I, s, fr: NONE)
consumer(["find_map"], lambda I, s, fr, x: call_f(I, s, fr, [x]), lambda I, s, fr: NONE,
         lambda I, s, fr, v: each(I, s, v, lambda s2, x: fin(I, s2, x) if x[2] == 1 else again(I, s2)))


def it_collect(I, s, fr, x):
    acc = fr.loc["acc"]
    f = getattr(I.dom, "collect_item", None)
    if f:
        r = f(I, s, acc, x)
        if r is not None:
            fr.loc["acc"] = r
            return again(I, s)
    if acc[0] == "vec": fr.loc["acc"] = V(acc[1] + (x,))
    else: fr.loc["acc"] = cat([acc, I.val(s, x)])
    if acc[0] == "vec" and len(acc[1]) > 64: unsupported("unbounded collect")
    return again(I, s)


consumer(["collect"], it_collect, lambda I, s, fr: fr.loc["acc"])


@model("Extend::extend", "Vec::extend_from_slice", "Vec::append", "Vec::extend")
def m_extend(I, st, args, info):
    a = addr_of(I, st, args[0])
    it = as_iter(I, st, args[1])
    f = getattr(I.dom, "extend", None)
    if f:
        r = f(I, st, a, it)
        if r is not None: return r
    d = I.pushk(st, "c:extend", it=it, a=a)
    return it_next(I, st, ("@", d, "it", ()))


def it_extend(I, s, fr, x):
    a = fr.loc["a"]
    cur = I.addr_read(s, a)
    f = getattr(I.dom, "collect_item", None)
    if f and cur[0] not in ("s", "cat"):
        r = f(I, s, cur, x)
        if r is not None:
            I.addr_write(s, a, r)
            return again(I, s)
    if cur[0] == "vec":
        I.addr_write(s, a, V(cur[1] + (x,)))
        return again(I, s)
    r = I.dom.push_str(I, s, a, cur, I.val(s, x)) if hasattr(I.dom, "push_str") else None
    if r is None:
        if cur[0] in ("s", "cat"): I.addr_write(s, a, cat([cur, I.val(s, x)]))
        else: unsupported("extend", cur[:1])
    return again(I, s)


consumer(["extend"], it_extend, lambda I, s, fr: UNIT)


# ---------------------------------------------------------------- strings
@model("String::push", "String::push_str", "Write::write_str", "Write::write_char", "AddAssign::add_assign")
def m_push(I, st, args, info):
    x = I.val(st, args[1])
    n = info["name"]
    if n == "AddAssign::add_assign" and x[0] in ("i", "lin"):
        a = addr_of(I, st, args[0])
        I.addr_write(st, a, I.binop(st, "Add", I.addr_read(st, a), x))
        return I.ret(st, UNIT)
    a = addr_of(I, st, args[0])
    v = I.addr_read(st, a)
    return write_text(I, st, a, v, x, ok(UNIT) if n.startswith("Write") else UNIT)


def write_text(I, st, a, v, x, ret):
    w = getattr(I.dom, "write_out", None)
    r = w(I, st, a, v, x, ret) if w else None
    if r is not None: return r
    f = getattr(I.dom, "push_str", None)
    r = f(I, st, a, v, x) if f else None
    if r is None:
        if v[0] in ("s", "cat"): I.addr_write(st, a, cat([v, x]))
        else: unsupported("push_str", v[:1])
    return I.ret(st, ret)


@kont("wpieces")
def k_wpieces(I, st, fr, v):
    def f(s, x):
        fr = s.top
        ps = fr.loc["ps"][1]
        if x[2] == 1 or not ps:
            s.frames.pop()
            return I.ret(s, x)
        fr.loc["ps"] = V(ps[1:])
        I.push(s, fr.loc["raw"][1], (), [fr.loc["a"], refv(ps[0])])
        return [s]
    return each(I, st, v, f)


def write_impl(I, v):
    """a local implementation of fmt::Write"""
    if v[0] != "adt" or not v[1].startswith("graphql_parser::"): return None
    for raw, f in I.P.fns.items():
        if f.get("implof", "").startswith("std::fmt::Write") and f.get("name") == "write_str" and "implself" in f:
            t = I.P.ty(f["implself"])
            if t[0] == "adt" and t[1] == v[1]: return raw
    return None


@model("String::clear")
def m_clear(I, st, args, info):
    a = addr_of(I, st, args[0])
    f = getattr(I.dom, "clear", None)
    if f:
        r = f(I, st, a)
        if r is not None: return r
    I.addr_write(st, a, ("s", ""))
    return I.ret(st, UNIT)


STRM = ["starts_with", "ends_with", "contains", "find", "rfind", "trim", "trim_start", "trim_end", "trim_start_matches", "trim_end_matches", "trim_matches", "replace", "strip_prefix", "strip_suffix", "parse",
        "is_char_boundary", "get", "split_at", "repeat", "to_lowercase", "to_uppercase", "to_ascii_uppercase", "to_ascii_lowercase", "eq_ignore_ascii_case", "split_once", "rsplit_once", "is_ascii", "chars_rev",
        "char_indices_rev", "replacen", "as_ptr", "split_at_checked", "escape_debug", "escape_default", "trim_left", "trim_right", "trim_ascii", "trim_ascii_start", "trim_ascii_end"]


@model(*["str::" + m for m in STRM])
def m_str(I, st, args, info):
    v = I.val(st, args[0])
    n = info["name"].split("::")[1]
    f = getattr(I.dom, "str_method", None)
    if f:
        r = f(I, st, n, v, args, info)
        if r is not None: return r
    if v[0] == "s":
        rest = [I.val(st, a) for a in args[1:]]
        pat = None
        if rest:
            if rest[0][0] == "s": pat = rest[0][1]
            elif rest[0][0] == "c": pat = chr(rest[0][1])
        s = v[1]
        if n == "starts_with" and pat is not None: return I.ret(st, ("b", s.startswith(pat)))
        if n == "ends_with" and pat is not None: return I.ret(st, ("b", s.endswith(pat)))
        if n == "contains" and pat is not None: return I.ret(st, ("b", pat in s))
        if n == "contains" and rest and hasattr(I.dom, "char_class"):
            r = I.dom.char_class(I, st, rest[0], tuple(sorted((ord(c), ord(c)) for c in set(s))))
            if r is not None: return I.ret(st, r)
        if n == "is_ascii": return I.ret(st, ("b", s.isascii()))
        if n == "replace" and pat is not None and rest[1][0] == "s": return I.ret(st, ("s", s.replace(pat, rest[1][1])))
        if n == "repeat" and rest[0][0] == "i": return I.ret(st, ("s", s * rest[0][1]))
        if n == "repeat": return I.ret(st, ("cat", (("rep", v, rest[0]),)))
    unsupported("str::" + n, v[:1])


CHARM = {"is_ascii_digit": [(48, 57)], "is_ascii_hexdigit": [(48, 57), (65, 70), (97, 102)], "is_ascii_alphabetic": [(65, 90), (97, 122)],
         "is_ascii_alphanumeric": [(48, 57), (65, 90), (97, 122)], "is_ascii_uppercase": [(65, 90)], "is_ascii_lowercase": [(97, 122)],
         "is_ascii": [(0, 127)], "is_ascii_whitespace": [(9, 10), (12, 13), (32, 32)], "is_ascii_punctuation": [(33, 47), (58, 64), (91, 96), (123, 126)],
         "is_ascii_control": [(0, 31), (127, 127)], "is_ascii_graphic": [(33, 126)],
         "is_whitespace": [(9, 13), (32, 32), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a), (0x2028, 0x2029), (0x202f, 0x202f), (0x205f, 0x205f), (0x3000, 0x3000)],
         "is_control": [(0, 31), (127, 159)]}


@model(*["char::" + c for c in CHARM] + ["u8::" + c for c in CHARM if c.startswith("is_ascii")])
def m_char(I, st, args, info):
    v = I.val(st, args[0])
    iv = CHARM[info["name"].split("::")[1]]
    if v[0] in ("c", "i"): return I.ret(st, ("b", any(a <= v[1] <= b for a, b in iv)))
    f = getattr(I.dom, "char_class", None)
    if f:
        r = f(I, st, v, tuple(iv))
        if r is not None: return I.ret(st, r)
    return I.ret(st, ("inset", v, tuple(iv)))


@model("char::is_digit", "char::to_digit")
def m_isdigit(I, st, args, info):
    v = I.val(st, args[0]); rad = args[1]
    if rad[0] == "i" and info["name"].endswith("is_digit"):
        iv = ((48, 57), (65, 70), (97, 102)) if rad[1] == 16 else ((48, 47 + rad[1]),) if rad[1] <= 10 else None
        if iv:
            if v[0] == "c": return I.ret(st, ("b", any(a <= v[1] <= b for a, b in iv)))
            f = getattr(I.dom, "char_class", None)
            r = f(I, st, v, iv) if f else None
            return I.ret(st, r if r is not None else ("inset", v, iv))
    f = getattr(I.dom, "to_digit", None)
    if f:
        r = f(I, st, v, rad)
        if r is not None: return r
    unsupported(info["name"])


@model("char::len_utf8")
def m_lenutf8(I, st, args, info):
    v = I.val(st, args[0])
    if v[0] == "c": return I.ret(st, ("i", len(chr(v[1]).encode())))
    f = getattr(I.dom, "len_utf8", None)
    if f:
        r = f(I, st, v)
        if r is not None: return r if isinstance(r, list) else I.ret(st, r)
    unsupported("len_utf8")


# ---------------------------------------------------------------- fmt
FK = {"new_display": "display", "new_debug": "debug", "new_lower_hex": "lower_hex", "new_upper_hex": "upper_hex", "new_octal": "octal", "new_binary": "binary", "new_lower_exp": "lower_exp", "new_upper_exp": "upper_exp", "new_pointer": "pointer"}


@model(*["Argument::" + k for k in FK])
def m_farg(I, st, args, info):
    return I.ret(st, ("farg", FK[info["name"].split("::")[1]], I.val(st, args[0])))


@model("Argument::from_usize")
def m_fusize(I, st, args, info):
    return I.ret(st, ("farg", "usize", I.val(st, args[0])))


@model("Arguments::new")
def m_fnew(I, st, args, info):
    t = I.val(st, args[0]); a = I.val(st, args[1])
    if t[0] != "by" or a[0] != "vec": unsupported("fmt template", t[:1], a[:1])
    return I.ret(st, ("fmt", tuple(decode_template(t[1], a[1]))))


@model("Arguments::from_str", "Arguments::new_const", "Arguments::from_str_nonconst")
def m_fstr(I, st, args, info):
    v = I.val(st, args[0])
    return I.ret(st, ("fmt", (v,)))


def decode_template(t, args):
    out = []
    i = 0
    nxt = 0
    while i < len(t):
        b = t[i]; i += 1
        if b == 0: break
        if b < 0x80:
            out.append(("s", bytes(t[i:i + b]).decode())); i += b
        elif b == 0x80:
            n = t[i] | t[i + 1] << 8; i += 2
            out.append(("s", bytes(t[i:i + n]).decode())); i += n
        else:
            spec = []
            if b & 1:
                spec.append(("flags", t[i] | t[i + 1] << 8 | t[i + 2] << 16 | t[i + 3] << 24)); i += 4
            if b & 2:
                spec.append(("width", t[i] | t[i + 1] << 8)); i += 2
            if b & 4:
                spec.append(("prec", t[i] | t[i + 1] << 8)); i += 2
            if b & 8:
                nxt = t[i] | t[i + 1] << 8; i += 2
            if b & 0x20: spec.append(("indirect", b & 0x30))
            elif b & 0x10:
                w = args[spec.pop()[1]]
                spec.append(("widthv", w[2]) if w[0] == "farg" else ("indirect", 0x10))
            a = args[nxt]; nxt += 1
            out.append(("fa", a[1], tuple(spec), a[2]) if a[0] == "farg" else ("top", "fmt"))
    return out


def fmt_cat(I, st, v):
    v = I.val(st, v)
    if v[0] != "fmt": unsupported("fmt value", v[:1])
    parts = []
    for p in v[1]:
        if p[0] == "fa":
            f = getattr(I.dom, "display", None)
            r = f(I, st, p[1], p[2], p[3]) if f else None
            if r is None and p[1] == "display" and p[3][0] in ("s", "cat") and not p[2]: r = p[3]
            if r is None and p[1] == "display" and p[3][0] == "c" and not p[2]: r = ("s", chr(p[3][1]))
            if r is None and p[1] == "display" and p[3][0] == "i" and not p[2]: r = ("s", str(p[3][1]))
            parts.append(r if r is not None else p)
        else: parts.append(p)
    return cat(parts)


@model("fmt::format", "Arguments::to_string")
def m_format(I, st, args, info): return I.ret(st, fmt_cat(I, st, args[0]))


@model("Write::write_fmt", "Formatter::write_fmt")
def m_wfmt(I, st, args, info):
    x = fmt_cat(I, st, args[1])
    a = addr_of(I, st, args[0])
    v = I.addr_read(st, a)
    raw = write_impl(I, v)
    if raw:
        I.pushk(st, "wpieces", ps=V(x[1] if x[0] == "cat" else (x,)), raw=("s", raw), a=("ref", True, a))
        return I.ret(st, ok(UNIT))
    return write_text(I, st, a, v, x, ok(UNIT))


@model("CharIndices::as_str", "Chars::as_str", "CharIndices::offset")
def m_as_str(I, st, args, info):
    a = args[0]
    v = I.val(st, a)
    if v[0] == "adt" and v[1] in ("it::chars", "it::char_indices"):
        cur, base, hi = v[3]
        if info["name"].endswith("offset"): return I.ret(st, lin_add(cur, base, -1))
        return I.ret(st, refv(("ts", cur, hi)))
    if v[0] == "adt" and v[1] == "it::vec" and not info["name"].endswith("offset"):
        return I.ret(st, refv(("s", "".join(chr((x[1][1] if x[0] == "tup" else x)[1]) for x in v[3][0][1][v[3][1][1]:]))))
    unsupported(info["name"], v[:2])
