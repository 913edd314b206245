"""C07: meaning of filter comparisons"""
from datetime import datetime

from symx.api import harness
from harness.common import Res, at, Attribute, ComplexAttribute, FOREIGN, foreign_same
from src.data.container import AttrRep, SCIMDataContainer
from src.data import operator as op
from src.filter import Filter

OPS = {"eq": op.Equal, "ne": op.NotEqual, "co": op.Contains, "sw": op.StartsWith, "ew": op.EndsWith,
       "gt": op.GreaterThan, "ge": op.GreaterThanOrEqual, "lt": op.LesserThan, "le": op.LesserThanOrEqual}
ORDER = ["eq", "ne", "gt", "ge", "lt", "le"]

R = Res([
    Attribute(name="s", type_=at.String),
    Attribute(name="S2", type_=at.String, case_exact=True),
    Attribute(name="u", type_=at.URIReference, reference_types=["uri"]),
    Attribute(name="n", type_=at.Integer),
    Attribute(name="d", type_=at.Decimal),
    Attribute(name="b", type_=at.Boolean),
    Attribute(name="t", type_=at.DateTime),
    Attribute(name="bin", type_=at.Binary),
    Attribute(name="ms", type_=at.String, multi_valued=True),
    Attribute(name="mn", type_=at.Integer, multi_valued=True),
    ComplexAttribute(name="c", sub_attributes=[Attribute(name="a", type_=at.String)]),
])


def num_ref(o, x, y):
    if o == "eq":
        return x == y
    if o == "ne":
        return x != y
    if o == "gt":
        return x > y
    if o == "ge":
        return x >= y
    if o == "lt":
        return x < y
    return x <= y


def str_ref(sx, o, x, y):
    """characters compared one by one; o: eq ne co sw ew gt ge lt le"""
    def at_pos(k):
        if k + len(y) > len(x):
            return False
        return sx.And(True, *[x[k + i] == y[i] for i in range(len(y))])
    if o == "eq":
        return sx.And(len(x) == len(y), at_pos(0))
    if o == "ne":
        return sx.Not(sx.And(len(x) == len(y), at_pos(0)))
    if o == "sw":
        return at_pos(0)
    if o == "ew":
        return at_pos(len(x) - len(y)) if len(x) >= len(y) else False
    if o == "co":
        return sx.Or(False, *[at_pos(k) for k in range(len(x) - len(y) + 1)])
    # lexicographic order by code point
    def less(x, y, i):
        if i == len(y):
            return False
        if i == len(x):
            return True
        return sx.Or(x[i] < y[i], sx.And(x[i] == y[i], less(x, y, i + 1)))
    lt, gt = less(x, y, 0), less(y, x, 0)
    return {"lt": lt, "gt": gt, "le": sx.Not(gt), "ge": sx.Not(lt)}[o]


def run(f, data, strict=True):
    return bool(f(SCIMDataContainer(data), R, strict))


@harness("C07", quick={"n": 3}, thorough={"n": 4}, bounds="attribute and operand texts of 0..n characters, every "
         "operator, case-exact or not", reach=["match", "nomatch"])
def strings(sx, n):
    exact = sx.pick("exact", 2)
    o = sx.choice("op", list(OPS))
    v = sx.string("v", 0, n)
    lit = sx.string("lit", 0, n)
    sx.assume(v.isascii() and lit.isascii() if not exact else True)
    got = run(Filter(OPS[o](AttrRep(attr="s2" if exact else "S"), lit)), {"S2" if exact else "s": v})
    want = str_ref(sx, o, v if exact else v.lower(), lit if exact else lit.lower())
    sx.reach("match" if got else "nomatch")
    sx.check(sx.Iff(want, got), "string comparison")


@harness("C07", bounds="pairs of texts of nine letters beyond ASCII, next to a letter or not, every operator but the ordering ones, case-exact or not; single values and lists", reach=["match", "nomatch"])
def foreign(sx):
    o = sx.choice("op", ["eq", "ne", "co", "sw", "ew"])
    name = sx.choice("attr", ["s", "s2", "ms"])
    a, b = sx.choice("a", FOREIGN), sx.choice("b", FOREIGN)
    same = a == b if name == "s2" else foreign_same(a, b)
    x, y = sx.choice("x", ["", "k"]), sx.choice("y", ["", "k"])
    whole = same and x == y
    got = run(Filter(OPS[o](AttrRep(attr=name), y + b)), {name: ["q", x + a] if name == "ms" else x + a})
    want = {"eq": whole, "ne": not whole, "co": same and x.endswith(y), "sw": whole, "ew": same and x.endswith(y)}[o]
    if name == "ms" and o == "ne":
        want = True
    sx.reach("match" if got else "nomatch")
    sx.check(got == want, "comparison of texts beyond ASCII")


@harness("C07", bounds="every pair of integers; quarters in [-16,16] for decimals; every ordering operator",
         reach=["match", "nomatch"])
def numbers(sx):
    o = sx.choice("op", ORDER)
    kind = sx.pick("kind", 3)
    if kind == 0:
        name, v, lit = "n", sx.int("v"), sx.int("lit")
    elif kind == 1:
        name, v, lit = "d", sx.real("v", -64, 64, 4), sx.real("lit", -64, 64, 4)
    else:
        name, v, lit = "d", sx.real("v", -64, 64, 4), sx.int("lit", -16, 16)
    got = run(Filter(OPS[o](AttrRep(attr=name), lit)), {name: v})
    sx.reach("match" if got else "nomatch")
    sx.check(sx.Iff(num_ref(o, v, lit), got), "numeric comparison")


@harness("C07", bounds="both booleans, eq and ne", reach=["match", "nomatch"])
def booleans(sx):
    o = sx.choice("op", ["eq", "ne"])
    v = sx.choice("v", [True, False])
    lit = sx.choice("lit", [True, False])
    got = run(Filter(OPS[o](AttrRep(attr="b"), lit)), {"b": v})
    sx.reach("match" if got else "nomatch")
    sx.check(got == ((v == lit) if o == "eq" else (v != lit)), "boolean comparison")


@harness("C07", bounds="null against every text of at most one character, integer or boolean", reach=["eq", "ne"])
def null(sx):
    o = sx.choice("op", ["eq", "ne"])
    kind = sx.choice("attr", ["s", "n", "b", "ms"])
    v = sx.string("v", 0, 1) if kind in ("s", "ms") else sx.int("v") if kind == "n" else sx.bool("v")
    got = run(Filter(OPS[o](AttrRep(attr=kind), None)), {kind: [v] if kind == "ms" else v}, sx.choice("strict", [True, False]))
    sx.reach(o)
    sx.check(got == (o == "ne"), "null is equal to no value")


# (text, instant in minutes)
TIMES = [("2020-01-01T00:00:00+00:00", 0), ("2020-01-01T01:00:00+01:00", 0), ("2020-01-01T00:30:00+00:00", 30),
         ("2019-12-31T23:30:00-01:00", 30), ("2020-01-01T01:30:00+02:00", -30), ("2020-01-01T10:00:00+10:00", 0)]


# ... and of other precision or day
MORE_TIMES = TIMES + [("2020-01-01T00:00:00.001+00:00", 0.001 / 60), ("2020-01-01T05:30:00.000999+05:30", 0.000999 / 60), ("2020-01-01T00:00:01+00:00", 1 / 60),
                      ("2019-12-31T00:00:00+00:00", -1440), ("2020-02-01T00:00:00+00:00", 44640)]


@harness("C07", bounds="eleven instants written with different offsets, to the microsecond, every ordering operator; as text or dates",
         reach=["match", "nomatch"])
def times(sx):
    o = sx.choice("op", ORDER)
    (v, iv), (lit, il) = sx.choice("v", MORE_TIMES), sx.choice("lit", MORE_TIMES)
    if sx.pick("obj", 2):
        v = datetime.fromisoformat(v)
    got = run(Filter(OPS[o](AttrRep(attr="t"), lit)), {"t": v})
    sx.reach("match" if got else "nomatch")
    sx.check(got == num_ref(o, iv, il), "dateTime comparison is by instant")


@harness("C07", quick={"n": 3}, thorough={"n": 5}, bounds="multi-valued attributes of 0..n items",
         reach=["match", "nomatch"])
def multi(sx, n):
    k = sx.pick("k", n + 1)
    if sx.pick("kind", 2):
        o = sx.choice("op", list(OPS))
        vs = [sx.string(f"v{i}", 1, chars="ab") for i in range(k)]
        lit = sx.string("lit", 1, chars="ab")
        want = sx.Or(False, *[str_ref(sx, o, v, lit) for v in vs])
        name = "ms"
    else:
        o = sx.choice("op", ORDER)
        vs = [sx.int(f"v{i}") for i in range(k)]
        lit = sx.int("lit")
        want = sx.Or(False, *[num_ref(o, v, lit) for v in vs])
        name = "mn"
    got = run(Filter(OPS[o](AttrRep(attr=name), lit)), {name: vs})
    sx.reach("match" if got else "nomatch")
    sx.check(sx.Iff(want, got), "a multi-valued attribute matches when one of its values does")


VALUES = [None, True, 3, 1.5, "a", [], ["a"], [3], {}, {"a": "x"}, "2020-01-01T00:00:00+00:00"]


@harness("C07", bounds="every operator, attribute type, and shape of value and operand", reach=["match", "nomatch"])
def never_raises(sx):
    o = sx.choice("op", list(OPS))
    cls = OPS[o]
    lit = sx.choice("lit", [v for v in [None, True, 3, 1.5, "a"] if type(v) in cls.SUPPORTED_TYPES])
    name = sx.choice("attr", ["s", "S2", "u", "n", "d", "b", "t", "bin", "ms", "mn", "c", "zz"])
    v = sx.choice("v", VALUES)
    strict = sx.choice("strict", [True, False])
    st = Filter(cls(AttrRep(attr=name), lit))(SCIMDataContainer({name: v}), R, strict)
    if name == "zz":
        sx.check(not bool(st), "an unknown attribute matched")
    if v is None and name != "zz":
        sx.check(strict or bool(st), "a missing value does not pass a lenient filter")
        if strict:
            sx.check(not (st == True), "a missing value matched a strict filter")  # noqa
    # incompatible value and operand never match an ordering or substring operator
    if v is not None and o in ("co", "sw", "ew", "gt", "ge", "lt", "le"):
        items = v if isinstance(v, list) else [v]
        ok = [i for i in items if isinstance(i, str) == isinstance(lit, str)]
        if not ok:
            sx.check(not bool(st), "incompatible values matched")
    sx.reach("match" if st == True else "nomatch")  # noqa


@harness("C07", bounds="'pr' on every attribute type; texts of 0..2 characters, any number or boolean",
         reach=["match", "nomatch"])
def present(sx):
    name = sx.choice("attr", ["s", "n", "b", "ms", "zz"])
    absent = sx.pick("absent", 3)
    if absent == 1:
        data, want = {}, False
    elif absent == 2:
        data, want = {name: None}, False
    elif name == "s":
        v = sx.string("v", 0, 2)
        data, want = {name: v}, len(v) > 0
    elif name == "n":
        data, want = {name: sx.int("v")}, True
    elif name == "b":
        data, want = {name: sx.bool("v")}, True
    elif name == "ms":
        vs = [sx.string(f"v{i}", 0, 1) for i in range(sx.pick("k", 3))]
        data, want = {name: vs}, any([len(v) > 0 for v in vs])
    else:
        data, want = {name: "x"}, False
    got = run(Filter(op.Present(AttrRep(attr=name))), data, sx.choice("strict", [True, False]))
    sx.reach("match" if got else "nomatch")
    sx.check(sx.Iff(want, got), "'pr' holds exactly for present values")


@harness("C07", quick={"n": 40}, thorough={"n": 200}, bounds="texts of n characters with any character at one of four places; operands the same, shorter or longer",
         reach=["match", "nomatch"])
def long_texts(sx, n):
    o = sx.choice("op", list(OPS))
    exact = sx.pick("exact", 2)
    base = "".join("abcdefghij"[i % 10] for i in range(n))
    i = sx.choice("place", [0, 1, n // 2, n - 1])
    v = base[:i] + sx.string("c", 1, chars="aAbBjz") + base[i + 1:]
    lit = sx.choice("lit", [base, base[:n // 2], base[n // 2:], base[5:n - 5], base + "a", "z" + base])
    got = run(Filter(OPS[o](AttrRep(attr="s2" if exact else "S"), lit)), {"S2" if exact else "s": v})
    want = str_ref(sx, o, v if exact else v.lower(), lit)
    sx.reach("match" if got else "nomatch")
    sx.check(sx.Iff(want, got), "string comparison")


@harness("C07", quick={"n": 12}, thorough={"n": 40}, bounds="multi-valued attributes of n values, one of which, anywhere, is any value", reach=["match", "nomatch"])
def many_values(sx, n):
    i = sx.pick("at", n)
    if sx.pick("kind", 2):
        o = sx.choice("op", list(OPS))
        vs = ["m"] * n
        vs[i] = sx.string("v", 1, chars="aAmMz")
        lit = sx.string("lit", 1, chars="amz")
        want = sx.Or(False, *[str_ref(sx, o, v.lower(), lit) for v in {0: vs[i], 1: "m"}.values()])
        name = "ms"
    else:
        o = sx.choice("op", ORDER)
        vs = [0] * n
        vs[i] = sx.int("v")
        lit = sx.int("lit")
        want = sx.Or(num_ref(o, vs[i], lit), num_ref(o, 0, lit))
        name = "mn"
    got = run(Filter(OPS[o](AttrRep(attr=name), lit)), {name: vs})
    sx.reach("match" if got else "nomatch")
    sx.check(sx.Iff(want, got), "a multi-valued attribute matches when one of its values does")


CV = {"text": dict(type_=at.String), "exact": dict(type_=at.String, case_exact=True), "int": dict(type_=at.Integer), "bool": dict(type_=at.Boolean),
      "date": dict(type_=at.DateTime), "uri": dict(type_=at.URIReference), "binary": dict(type_=at.Binary)}
RC = Res([ComplexAttribute(name="c_" + k, multi_valued=True, sub_attributes=[Attribute(name="value", **kw), Attribute(name="type", type_=at.String)])
          for k, kw in CV.items()] + [Attribute(name="m_" + k, multi_valued=True, **kw) for k, kw in CV.items()])
B64 = ["QQ==", "Qg==", "qq=="]


@harness("C07", quick={"n": 2}, thorough={"n": 3}, bounds="multi-valued simple attributes of seven types and complex ones by their 'value' of these types, 0..n "
         "items; any text of one character, integer or boolean, six date-times as text or dates; items without value", reach=["match", "nomatch"], budget=3)
def by_value(sx, n):
    """complex attributes compare by the type and letter-case rule of their value, every kind of list by any of its items"""
    kind = sx.choice("kind", list(CV))
    cx = sx.pick("complex", 2)
    o = sx.choice("op", list(OPS) if kind in ("text", "exact") else ORDER if kind in ("int", "date") else ["eq", "ne", "co", "sw", "ew"] if kind == "uri" else ["eq", "ne"])

    def gen(name):
        if kind in ("text", "exact", "uri"):
            return sx.string(name, 1, chars="aAb")
        if kind == "int":
            return sx.int(name)
        if kind == "bool":
            return sx.bool(name)
        if kind == "binary":
            return sx.choice(name, B64)
        return sx.choice(name, TIMES)

    lit = gen("lit")
    vs = []
    for i in range(sx.pick("k", n + 1)):
        if sx.pick(f"has{i}", 2):
            vs.append(gen(f"v{i}"))
        else:
            vs.append(None)
    if kind == "date":
        want = sx.Or(False, *[num_ref(o, v[1], lit[1]) for v in vs if v])
        lit = lit[0]
        obj = sx.pick("obj", 2)
        vs = [v and (datetime.fromisoformat(v[0]) if obj else v[0]) for v in vs]
    elif kind in ("int", "bool"):
        want = sx.Or(False, *[num_ref(o, v, lit) for v in vs if v is not None])
    else:
        low = (lambda x: x) if kind == "exact" else (lambda x: x.lower())
        want = sx.Or(False, *[str_ref(sx, o, low(v), low(lit)) for v in vs if v is not None])
    name = ("c_" if cx else "m_") + kind
    if cx:
        data = {name: [{"value": v, "type": "t"} if v is not None else {"type": "t"} for v in vs]}
    else:
        data = {name: vs}
    st = Filter(OPS[o](AttrRep(attr=name), lit))(SCIMDataContainer(data), RC, True)
    got = bool(st)
    sx.check(sx.Iff(want, got), "some item stands in that relation to the operand")
    sx.reach("match" if got else "nomatch")


@harness("C07", bounds="every pair of unlike types of stored value and operand, any text of one character, integer, fraction or boolean, every operator that takes "
         "the operand; single values, lists and values of complex attributes", reach=["nomatch"])
def unlike(sx):
    """values of incompatible types never match, whatever the operator"""
    kinds = {"text": lambda x: sx.string(x, 1, chars="a10"), "int": lambda x: sx.int(x), "frac": lambda x: sx.real(x, -2, 2, 2), "bool": lambda x: sx.bool(x)}
    stored = sx.choice("stored", ["text", "int", "bool", "exact"])
    operand = sx.choice("operand", [k for k in kinds if k != stored and (stored, k) not in (("int", "frac"), ("exact", "text"))])
    v, lit = kinds["text" if stored == "exact" else stored]("v"), kinds[operand]("lit")
    o = sx.choice("op", [k for k in OPS if {"text": str, "int": int, "frac": float, "bool": bool}[operand] in OPS[k].SUPPORTED_TYPES])
    how = sx.pick("how", 3)
    if how == 0:
        name = {"text": "s", "exact": "S2", "int": "n", "bool": "b"}[stored]
        schema, data = R, {name: v}
    elif how == 1:
        schema, name = RC, "m_" + stored
        data = {name: [v]}
    else:
        schema, name = RC, "c_" + stored
        data = {name: [{"value": v}]}
    st = Filter(OPS[o](AttrRep(attr=name), lit))(SCIMDataContainer(data), schema, sx.choice("strict", [True, False]))
    sx.check(not bool(st), "values of incompatible types do not match")
    sx.reach("nomatch")


@harness("C07", quick={"n": 2}, thorough={"n": 3}, bounds="'pr' of multi-valued attributes of texts, integers and booleans and of complex attributes with such values; 0..n items, "
         "any of them null, empty or any value", reach=["match", "nomatch"])
def present_in_list(sx, n):
    kind = sx.choice("kind", ["text", "int", "bool"])
    cx = sx.pick("complex", 2)
    vs, want = [], False
    for i in range(sx.pick("k", n + 1)):
        st = sx.pick(f"st{i}", 3)
        if st == 0:
            vs.append(None)
        elif kind == "text":
            v = sx.string(f"v{i}", 0, 1)
            vs.append(v)
            want = want or len(v) > 0
        else:
            vs.append(sx.int(f"v{i}") if kind == "int" else sx.bool(f"v{i}"))
            want = True
    name = ("c_" if cx else "m_") + kind
    data = {name: [{"value": v, "type": "x"} for v in vs] if cx else vs}
    st = Filter(op.Present(AttrRep(attr=name)))(SCIMDataContainer(data), RC, sx.choice("strict", [True, False]))
    sx.check(bool(st) == want, "'pr' holds exactly when some item has a value")
    sx.reach("match" if want else "nomatch")


BY_CASE = [Res([Attribute(name="s", type_=at.String, case_exact=e), Attribute(name="ms", type_=at.String, case_exact=e, multi_valued=True)]) for e in (False, True)]


@harness("C07", bounds="one comparison applied to two resources, each of a schema with or without letter case, any texts of one letter, every operator", reach=["match", "nomatch"])
def twice(sx):
    o = sx.choice("op", list(OPS))
    lit = sx.string("lit", 1, chars="aAb")
    name = sx.choice("attr", ["s", "ms"])
    f = Filter(OPS[o](AttrRep(attr=name), lit))
    for i in range(2):
        exact = sx.pick(f"exact{i}", 2)
        v = sx.string(f"v{i}", 1, chars="aAb")
        got = bool(f(SCIMDataContainer({name: [v] if name == "ms" else v}), BY_CASE[exact], True))
        want = str_ref(sx, o, v if exact else v.lower(), lit if exact else lit.lower())
        sx.reach("match" if got else "nomatch")
        sx.check(sx.Iff(want, got), "string comparison")
