"""The GraphQL grammar this crate implements, written with the same building blocks the parser's alternatives are made of.

Executable and type-system documents of the June 2018 specification with the liberties listed in properties.jsonl (P01, P02).
Lists are greedy, choices are decided by the next token."""
from gram import Grammar, Alt, C, fresh, KINDS
from interp import Unsupported, some, NONE, UNIT, OPT
from checks.p18 import EXEC, TYPE, camel

Q = "query"; S = "schema"


class Spec(Grammar):
    def __init__(self, P, base):
        Grammar.__init__(self, P)
        self.reps = base.reps
        self.names = {}

    # ---- trees
    def adt(self, mod, name, kind):
        c = [p for p, a in self.P.adts.items() if a["kind"] == kind and p.startswith("graphql_parser::") and p.split("::")[-1] == name and (mod is None or "::%s::" % mod in p) and (mod is not None or "::query::" not in p and "::schema::" not in p)]
        if len(c) != 1: raise Unsupported("type %s%s of the syntax tree not found" % (mod + "::" if mod else "", name))
        return c[0]

    def struct(self, mod, tname, **kw):
        p = self.adt(mod, tname, "struct")
        fs = [f["name"] for f in self.P.adts[p]["variants"][0]["fields"]]
        if sorted(fs) != sorted(kw): raise Unsupported("%s has the fields %s, the grammar gives it %s" % (p, sorted(fs), sorted(kw)))
        return ("adt", p, 0, tuple(kw[f] for f in fs))

    def enum(self, mod, name, variant, *fields):
        p = self.adt(mod, name, "enum")
        for i, v in enumerate(self.P.adts[p]["variants"]):
            if v["name"] == variant:
                if len(v["fields"]) != len(fields): raise Unsupported("%s::%s" % (p, variant))
                return ("adt", p, i, tuple(fields))
        raise Unsupported("%s has no variant %s" % (p, variant))

    # ---- building blocks: every method gives fresh alternatives
    def tok(self, cls):
        i = fresh()
        return [Alt((("tok", i),), ("ttext", i), {("cls", i): cls})]

    def p(self, t): return self.tok(C.one("Punctuator", t))
    def kw(self, t): return self.tok(C.one("Name", t))
    def name(self): return self.tok(C.one("Name"))
    def pos(self): return self.c_position((), ())

    def s(self, f, *parts): return self.seq(list(parts), lambda o: f(*o))
    def m(self, f, alts): return [Alt(a.items, f(a.out) if not a.fail else UNIT, a.facts, a.fail) for a in alts]
    def opt(self, a): return self.opt_alts(a)
    def many(self, a, coll="Vec"): return self.rep_alts(a, 0, None, coll)
    def many1(self, a): return self.rep_alts(a, 1, None, "Vec")
    def sep1(self, a, b): return self.rep_alts(a, 1, b, "Vec")
    def orr(self, *a): return self.choice(list(a))
    def call(self, nt):
        i = fresh()
        key = (nt, ())
        self.first_key(key)
        return [Alt((("call", i, key),), ("pcall", i, key, None))]

    def defaulted(self, a):
        """an optional list: absent is the empty list"""
        return self.m(lambda o: o[3][0] if o[2] == 1 else ("vec", ()), self.opt(a))

    def rule(self, key):
        if key not in self.memo:
            if key in self.fnstack: raise Unsupported("recursion in the reference grammar at %s" % key[0])
            self.fnstack.append(key)
            self.memo[key] = getattr(self, "r_" + key[0])()
            self.fnstack.pop()
        return self.memo[key]

    def reset(self):
        pass

    # ---- shared
    def unq(self, kind):
        return self.m(lambda t: ("unq", "decoder", t), self.tok(C.one(kind)))

    def string(self): return self.orr(self.unq("StringValue"), self.unq("BlockString"))

    def plain(self):
        V = lambda v, *f: self.enum(None, "Value", v, *f)
        num = lambda t: V("Int", self.struct(None, "Number", **{"0": ("conv", "i64", t)}))
        return [
            self.m(lambda t: V("Boolean", ("b", True)), self.kw("true")), self.m(lambda t: V("Boolean", ("b", False)), self.kw("false")),
            self.m(lambda t: V("Null"), self.kw("null")), self.m(lambda t: V("Enum", t), self.tok(C.minus(C.one("Name"), frozenset([("Name", False, frozenset(["true", "false", "null"]))])))),
            self.m(num, self.tok(C.one("IntValue"))), self.m(lambda t: V("Float", ("conv", "f64", t)), self.tok(C.one("FloatValue"))),
            self.m(lambda t: V("String", t), self.unq("StringValue")), self.m(lambda t: V("String", t), self.unq("BlockString"))]

    def composite(self, nt):
        V = lambda v, *f: self.enum(None, "Value", v, *f)
        return [self.s(lambda _, l, __: V("List", l), self.p("["), self.many(self.call(nt)), self.p("]")),
                self.s(lambda _, l, __: V("Object", l), self.p("{"), self.many(self.s(lambda n, _, v: ("tup", (n, v)), self.name(), self.p(":"), self.call(nt)), "BTreeMap"), self.p("}"))]

    def r_Value(self):
        return self.orr(*self.plain(), self.s(lambda _, n: self.enum(None, "Value", "Variable", n), self.p("$"), self.name()), *self.composite("Value"))

    def r_ConstValue(self): return self.orr(*self.plain(), *self.composite("ConstValue"))

    def r_Type(self):
        T = lambda v, x: self.enum(None, "Type", v, x)
        base = self.orr(self.m(lambda n: T("NamedType", n), self.name()), self.s(lambda _, t, __: T("ListType", t), self.p("["), self.call("Type"), self.p("]")))
        return self.s(lambda b, o: T("NonNullType", b) if o[2] == 1 else b, base, self.opt(self.p("!")))

    def arguments(self):
        return self.defaulted(self.s(lambda _, l, __: l, self.p("("), self.many1(self.s(lambda n, _, v: ("tup", (n, v)), self.name(), self.p(":"), self.call("Value"))), self.p(")")))

    def directive(self):
        return self.s(lambda p, _, n, a: self.struct(None, "Directive", position=p, name=n, arguments=a), self.pos(), self.p("@"), self.name(), self.arguments())

    def directives(self): return self.many(self.directive())

    # ---- executable documents
    def r_SelectionSet(self):
        return self.s(lambda a, _, l, b, __: self.struct(Q, "SelectionSet", span=("tup", (a, b)), items=l), self.pos(), self.p("{"), self.many1(self.selection()), self.pos(), self.p("}"))

    def field(self):
        def f(p, n, al, args, ds, sel):
            name, alias = (al[3][0], some(n)) if al[2] == 1 else (n, NONE)
            ss = sel[3][0] if sel[2] == 1 else self.struct(Q, "SelectionSet", span=("tup", (p, p)), items=("vec", ()))
            return self.struct(Q, "Field", position=p, name=name, alias=alias, arguments=args, directives=ds, selection_set=ss)
        return self.s(f, self.pos(), self.name(), self.opt(self.s(lambda _, n: n, self.p(":"), self.name())), self.arguments(), self.directives(), self.opt(self.call("SelectionSet")))

    def cond(self): return self.s(lambda _, n: self.enum(Q, "TypeCondition", "On", n), self.kw("on"), self.name())

    def selection(self):
        W = lambda v: (lambda x: self.enum(Q, "Selection", v, x))
        notname = self.s(lambda p, c, ds, ss: self.struct(Q, "InlineFragment", position=p, type_condition=c, directives=ds, selection_set=ss), self.pos(), self.opt(self.cond()), self.directives(), self.call("SelectionSet"))
        spread = self.s(lambda p, n, ds: self.struct(Q, "FragmentSpread", position=p, fragment_name=n, directives=ds), self.pos(), self.name(), self.directives())
        return self.orr(self.m(W("Field"), self.field()), self.s(lambda _, x: x, self.p("..."), self.orr(self.m(W("InlineFragment"), notname), self.m(W("FragmentSpread"), spread))))

    def var_def(self):
        return self.s(lambda p, _, n, __, t, d: self.struct(Q, "VariableDefinition", position=p, name=n, var_type=t, default_value=d), self.pos(), self.p("$"), self.name(), self.p(":"), self.call("Type"), self.opt(self.s(lambda _, v: v, self.p("="), self.call("ConstValue"))))

    def operation(self, kw, name):
        return self.s(lambda p, _, n, vs, ds, ss: self.struct(Q, name, position=p, name=n, variable_definitions=vs, directives=ds, selection_set=ss),
                      self.pos(), self.kw(kw), self.opt(self.name()), self.defaulted(self.s(lambda _, l, __: l, self.p("("), self.many1(self.var_def()), self.p(")"))), self.directives(), self.call("SelectionSet"))

    def qdefinition(self):
        D = lambda v: (lambda x: self.enum(Q, "Definition", "Operation", self.enum(Q, "OperationDefinition", v, x)))
        frag = self.s(lambda p, _, n, c, ds, ss: self.enum(Q, "Definition", "Fragment", self.struct(Q, "FragmentDefinition", position=p, name=n, type_condition=c, directives=ds, selection_set=ss)),
                      self.pos(), self.kw("fragment"), self.name(), self.cond(), self.directives(), self.call("SelectionSet"))
        return self.orr(self.m(D("SelectionSet"), self.call("SelectionSet")), *[self.m(D(x), self.operation(x.lower(), x)) for x in ("Query", "Mutation", "Subscription")], frag)

    def r_QueryDefinition(self): return self.qdefinition()
    def r_QueryDocument(self): return self.s(lambda l, _: self.struct(Q, "Document", definitions=l), self.many1(self.qdefinition()), self.c_eof((), ()))

    # ---- type-system documents
    def schema_block(self):
        """directives, then each root operation at most once in any order"""
        ops = ("query", "mutation", "subscription")
        head = self.s(lambda p, _, d, __: ("tup", (p, d)), self.pos(), self.kw("schema"), self.directives(), self.p("{"))
        el = self.s(lambda a, _, b: ("tup", (a, b)), self.name(), self.p(":"), self.name())[0]
        i = fresh()
        key, _, val = [it[1] for it in el.items]
        rep = ("rep", i, (el,), 0, None)
        self.reps[i] = rep
        states = [frozenset(c for j, c in enumerate(ops) if m >> j & 1) for m in range(8)]
        edges = []; narrow = {}
        for o in ops: narrow[o] = tuple(sorted(((y, C.one("Name", o)) if y == key else (y, el.facts[("cls", y)]) for y in [it[1] for it in el.items]), key=repr))
        for s in states:
            for o in ops:
                if o not in s: edges.append((states.index(s), (0, narrow[o]), states.index(s | {o})))
        out = []
        for n, s in enumerate(states):
            it = ("nfa", i, rep, tuple(edges), n, 1 if s else 0)
            kw = {o: some(("ttext", ("el", i, 0, narrow[o], val))) if o in s else NONE for o in ops}
            out += self.seq([head, [Alt((it,), UNIT)], self.p("}")], lambda o, kw=kw: self.enum(S, "Definition", "SchemaDefinition", self.struct(S, "SchemaDefinition", position=o[0][1][0], directives=o[0][1][1], **kw)))
        return out

    def implements(self):
        return self.defaulted(self.s(lambda _, __, l: l, self.kw("implements"), self.opt(self.p("&")), self.sep1(self.name(), self.p("&"))))

    def input_value(self):
        return self.s(lambda p, d, n, _, t, v, ds: self.struct(S, "InputValue", position=p, description=d, name=n, value_type=t, default_value=v, directives=ds),
                      self.pos(), self.opt(self.string()), self.name(), self.p(":"), self.call("Type"), self.opt(self.s(lambda _, v: v, self.p("="), self.call("ConstValue"))), self.directives())

    def block(self, el, a="{", b="}"): return self.s(lambda _, l, __: l, self.p(a), self.many1(el), self.p(b))

    def field_def(self):
        return self.s(lambda p, d, n, a, _, t, ds: self.struct(S, "Field", position=p, description=d, name=n, arguments=a, field_type=t, directives=ds),
                      self.pos(), self.opt(self.string()), self.name(), self.defaulted(self.block(self.input_value(), "(", ")")), self.p(":"), self.call("Type"), self.directives())

    def fields(self): return self.defaulted(self.block(self.field_def()))

    def input_fields(self): return self.defaulted(self.block(self.input_value()))

    def enum_value(self):
        return self.s(lambda p, d, n, ds: self.struct(S, "EnumValue", position=p, description=d, name=n, directives=ds), self.pos(), self.opt(self.string()), self.name(), self.directives())

    def values(self): return self.defaulted(self.block(self.enum_value()))

    def members(self): return self.defaulted(self.s(lambda _, __, l: l, self.p("="), self.opt(self.p("|")), self.sep1(self.name(), self.p("|"))))

    KINDS = {"Scalar": ("scalar", ()), "Object": ("type", ("implements", "fields")), "Interface": ("interface", ("implements", "fields")), "Union": ("union", ("members",)), "Enum": ("enum", ("values",)), "InputObject": ("input", ("input_fields",))}
    FIELD = {"implements": "implements_interfaces", "fields": "fields", "members": "types", "values": "values", "input_fields": "fields"}

    def type_def(self, k, ext):
        kw, parts = self.KINDS[k]
        name = {"Object": "ObjectType", "Interface": "InterfaceType", "Scalar": "ScalarType", "Union": "UnionType", "Enum": "EnumType", "InputObject": "InputObjectType"}[k] + ("Extension" if ext else "")
        before = [p for p in parts if p == "implements"]; after = [p for p in parts if p != "implements"]
        seq = before + ["directives"] + after
        def f(p, _, n, *vals):
            d = {self.FIELD.get(q, q): v for q, v in zip(seq, vals)}
            if not ext: d["description"] = NONE
            return self.struct(S, name, position=p, name=n, **d)
        alts = self.seq([self.pos(), self.kw(kw), self.name()] + [getattr(self, q)() for q in seq], lambda o: ("tup", (f(*o),) + tuple(o[3:])))
        out = []
        for a in alts:
            st, lists = a.out[1][0], a.out[1][1:]
            if not ext: out.append(Alt(a.items, st, a.facts)); continue
            # an extension must add something: split on which list is the first non-empty one
            ids = [l[1] if l[0] == "plist" else None for l in lists]
            sure = any(i is not None and self.reps[i][3] >= 1 for i in ids)
            if sure: out.append(Alt(a.items, st, a.facts)); continue
            maybe = [i for i in ids if i is not None]
            for j, i in enumerate(maybe):
                fa = dict(a.facts)
                for b in maybe[:j]: fa[("pempty", b)] = True
                fa[("pempty", i)] = False
                out.append(Alt(a.items, st, fa))
        return out

    def locations(self):
        i = fresh()
        table = {n: camel(n) for n in EXEC + TYPE}
        el = [Alt((("tok", i),), self.enum(S, "DirectiveLocation", v), {("cls", i): C.one("Name", n)}) for n, v in sorted(table.items())]
        el.append(Alt((("tok", i),), UNIT, {("cls", i): frozenset([("Name", True, frozenset(table))])}, True))
        return self.defaulted(self.s(lambda _, l: l, self.opt(self.p("|")), self.sep1(el, self.p("|"))))

    def directive_def(self):
        return self.s(lambda p, _, __, n, a, r, ___, l: self.struct(S, "DirectiveDefinition", position=p, description=NONE, name=n, arguments=a, repeatable=("b", r[2] == 1), locations=l),
                      self.pos(), self.kw("directive"), self.p("@"), self.name(), self.defaulted(self.block(self.input_value(), "(", ")")), self.opt(self.kw("repeatable")), self.kw("on"), self.locations())

    def sdefinition(self):
        D = lambda v: (lambda x: self.enum(S, "Definition", v, x))
        ext = self.s(lambda _, x: x, self.kw("extend"), self.orr(*[self.m(lambda x, k=k: self.enum(S, "Definition", "TypeExtension", self.enum(S, "TypeExtension", k, x)), self.type_def(k, True)) for k in self.KINDS]))
        def described(d, x):
            fs = [f["name"] for f in self.P.adts[x[1]]["variants"][0]["fields"]]
            return ("adt", x[1], 0, tuple(d if n == "description" else y for n, y in zip(fs, x[3])))
        defs = self.orr(*[self.m(lambda x, k=k: ("tup", (x, ("s", k))), self.type_def(k, False)) for k in self.KINDS], self.m(lambda x: ("tup", (x, ("s", ""))), self.directive_def()))
        def wrap(d, x):
            x, k = x[1]
            x = described(d, x)
            return self.enum(S, "Definition", "TypeDefinition", self.enum(S, "TypeDefinition", k[1], x)) if k[1] else self.enum(S, "Definition", "DirectiveDefinition", x)
        return self.orr(self.schema_block(), ext, self.s(wrap, self.opt(self.string()), defs))

    def r_SchemaDefinition(self): return self.sdefinition()
    def r_SchemaDocument(self): return self.s(lambda l, _: self.struct(S, "Document", definitions=l), self.many1(self.sdefinition()), self.c_eof((), ()))
