"""C04: type soundness of parsing and dumping by a schema"""
from symx.api import harness
from harness.common import Res, at, Attribute, ComplexAttribute, X_URN, ext, has_at, SCIMDataContainer, Missing, AttrRep

TYPES = {"str": at.String, "bool": at.Boolean, "int": at.Integer, "dec": at.Decimal, "uri": at.URIReference,
         "ref": at.SCIMReference}


def attrs(multi=False):
    out = []
    for k, t in TYPES.items():
        out.append(Attribute(name=k, type_=t, multi_valued=multi))
    return out


R = Res(attrs() + [Attribute(name="m" + k, type_=t, multi_valued=True) for k, t in TYPES.items()]
        + [ComplexAttribute(name="c", sub_attributes=attrs()),
           ComplexAttribute(name="cm", sub_attributes=attrs(), multi_valued=True)])
R.with_extension(ext(attrs(), X_URN))


def value(sx, name, kinds="bifsld"):
    """(kind, value)"""
    k = kinds[sx.pick(name + ".k", len(kinds))]
    if k == "b":
        return k, sx.choice(name, [True, False])
    if k == "i":
        return k, sx.int(name)
    if k == "f":
        return k, sx.real(name, -2 ** 42, 2 ** 42, 2 ** 40)
    if k == "s":
        return k, sx.string(name, 0, 2)
    if k == "l":
        return k, ["x"] if sx.pick(name, 2) else []
    return k, {"zz": 1} if sx.pick(name, 2) else {}


def expect(t, k, v):
    """(accepted, value) of a simple type"""
    if t in ("str", "uri", "ref"):
        return k == "s", v
    if t == "bool":
        return k == "b", v
    if t == "int":
        if k == "f":
            return bool(v == int(v)), int(v)
        return k == "i", v
    if t == "dec":
        return k in ("i", "f"), v
    raise ValueError(t)


def same_type(t, got):
    if t == "int":
        return isinstance(got, int) and not isinstance(got, bool)
    if t == "dec":
        return isinstance(got, float)
    return True


def run(sx, body):
    method = sx.choice("method", ["parse", "dump"])
    return (R.parse if method == "parse" else R.dump)(body)


def only_at(issues, *loc):
    """issues exist, all of them at or below loc"""
    d = issues.to_dict()
    for p in loc:
        if list(d.keys()) != [p]:
            return False
        d = d[p]
    return len(d) > 0


@harness("C04", bounds="every simple type x any JSON value; single-valued, inside a complex attribute and in an extension",
         reach=["right", "wrong"])
def simple(sx):
    t = sx.choice("type", list(TYPES))
    where = sx.pick("where", 3)
    k, v = value(sx, "v")
    name = sx.case("name", t)
    body = {"schemas": ["urn:t:T", X_URN]}
    if where == 0:
        body = sx.mkdict([("schemas", body["schemas"]), (name, v)])
        loc, rep = (t,), AttrRep(attr=t)
    elif where == 1:
        body["c"] = sx.mkdict([(name, v)])
        loc, rep = ("c", t), AttrRep(attr="c", sub_attr=t)
    else:
        body[X_URN] = sx.mkdict([(name, v)])
        loc, rep = (X_URN, t), AttrRep(schema=X_URN, attr=t, extension=True)
    data, issues = run(sx, body)
    ok, want = expect(t, k, v)
    if ok:
        sx.reach("right")
        sx.check(not issues.has_issues(), "a value of the right type is refused")
        got = data[rep]
        sx.check(got == want, "a value of the right type is altered")
        sx.check(same_type(t, got), "type of the processed value")
    else:
        sx.reach("wrong")
        sx.check(only_at(issues, *loc), "a value of a wrong type is reported at its attribute, and only there")


@harness("C04", quick={"n": 3}, thorough={"n": 4}, bounds="multi-valued simple attributes of 0..n items of any kind",
         reach=["right", "wrong"])
def multi(sx, n):
    t = sx.choice("type", ["str", "int", "bool", "dec"])
    kinds = "bifsd"
    if sx.pick("notlist", 2):
        k, v = value(sx, "v", "bifsd")
        data, issues = run(sx, {"schemas": ["urn:t:T"], "m" + t: v})
        sx.check(only_at(issues, "m" + t), "a multi-valued attribute is a list")
        return
    items = [value(sx, f"v{i}", kinds) for i in range(sx.pick("n", n + 1))]
    data, issues = run(sx, {"schemas": ["urn:t:T"], "m" + t: [v for _, v in items]})
    exp = [expect(t, k, v) for k, v in items]
    if all([ok for ok, _ in exp]):
        sx.reach("right")
        sx.check(not issues.has_issues(), "values of the right type are refused")
        got = data["m" + t]
        sx.check(isinstance(got, list) and len(got) == len(items), "number of values")
        for g, (_, w) in zip(got, exp):
            sx.check(g == w and same_type(t, g), "value of the right type")
    else:
        sx.reach("wrong")
        for i, (ok, _) in enumerate(exp):
            sx.check(has_at(issues, "m" + t, i) == (not ok), "wrong items are reported at their index, right ones are not")


@harness("C04", quick={"n": 2}, thorough={"n": 3}, bounds="multi-valued complex attributes of 1..n items, each with one "
         "sub-attribute of any kind of value", reach=["right", "wrong"])
def multi_complex(sx, n):
    n = 1 + sx.pick("n", n)
    items, exp = [], []
    for i in range(n):
        if sx.pick(f"plain{i}", 2):
            items.append(sx.choice(f"item{i}", [5, "x", None, []]))
            exp.append((None, None, None, None))
            continue
        t = sx.choice(f"type{i}", ["str", "int", "bool"])
        k, v = value(sx, f"v{i}", "bfs")
        items.append({t: v})
        exp.append((t,) + (None,) + expect(t, k, v))
    data, issues = run(sx, {"schemas": ["urn:t:T"], "cm": items})
    shape_ok = all([e[0] is not None for e in exp])
    if not shape_ok:
        sx.reach("wrong")
        for i, e in enumerate(exp):
            sx.check(has_at(issues, "cm", i) or e[0] is not None, "items that are not complex are reported")
        return
    for i, (t, _, ok, w) in enumerate(exp):
        sx.check(has_at(issues, "cm", i, t) == (not ok), "sub-attributes of items are reported where they are wrong")
    if all([e[2] for e in exp]):
        sx.reach("right")
        sx.check(not issues.has_issues(), "right values refused")
        got = data["cm"]
        sx.check(len(got) == n, "number of items")
        for g, (t, _, _, w) in zip(got, exp):
            sx.check(g[t] == w and len(g.to_dict()) == 1, "item content")


@harness("C04", bounds="attributes absent, null or unknown", reach=["done"])
def absent_null_unknown(sx):
    t = sx.choice("type", list(TYPES))
    where = sx.pick("where", 4)
    null = sx.pick("null", 2)
    unknown = sx.string("unknown", 1, 2, chars="qz_")
    inner = sx.mkdict([(unknown, sx.json("uv", depth=1, kinds="isld", slen=(0, 1), chars="a"))]
                      + ([(t, None)] if null else []))
    body = [{"schemas": ["urn:t:T", X_URN]}]
    if where == 0:
        b = sx.mkdict([("schemas", ["urn:t:T"])] + list(inner.items()))
        rep = AttrRep(attr=t)
    elif where == 1:
        b = {"schemas": ["urn:t:T"], "c": inner}
        rep = AttrRep(attr="c", sub_attr=t)
    elif where == 3:
        b = {"schemas": ["urn:t:T"], "cm": [inner, {"str": "x"}] if sx.pick("two", 2) else [inner]}
        rep = AttrRep(attr="cm", sub_attr=t)
    else:
        b = {"schemas": ["urn:t:T", X_URN], X_URN: inner}
        rep = AttrRep(schema=X_URN, attr=t, extension=True)
    data, issues = run(sx, b)
    sx.check(not issues.has_issues(), "null or unknown attributes are not issues")
    got = data[rep]
    if where == 3:
        sx.check(len(got) == len(b["cm"]), "number of items")
        got = got[0]
    sx.check(got is None if null else got is Missing, "null stays null, absent stays absent")
    d = data.to_dict()
    if where == 1:
        d = d["c"]
    elif where == 3:
        d = d["cm"][0]
    elif where == 2:
        d = d.get(X_URN, {})
    sx.check(unknown not in d, "unknown attributes are not passed on")
    sx.reach("done")


@harness("C04", bounds="any top-level value that is not an object", reach=["done"])
def not_an_object(sx):
    k, v = value(sx, "v", "bifsl")
    v = None if sx.pick("null", 2) else v
    data, issues = run(sx, v)
    sx.check(issues.has_issues() and not issues.can_proceed(), "only an object is a resource")
    sx.reach("done")


@harness("C04", quick={"n": 12}, thorough={"n": 40}, bounds="lists of n items, one of which, anywhere, is of any kind; simple and complex", reach=["right", "wrong"])
def long_list(sx, n):
    at_ = sx.pick("at", n)
    k, v = value(sx, "v", "bifs")
    t = sx.choice("type", ["str", "int"])
    right = ["x" if t == "str" else i for i in range(n)]
    right[at_] = v
    cplx = sx.pick("complex", 2)
    name = "cm" if cplx else "m" + t
    data, issues = run(sx, {"schemas": ["urn:t:T"], name: [{t: x} for x in right] if cplx else right})
    ok, want = expect(t, k, v)
    if not ok:
        sx.reach("wrong")
        sx.check(only_at(issues, name, str(at_), *((t,) if cplx else ())), "the wrong item is reported at its index, and only it")
        return
    sx.reach("right")
    sx.check(not issues.has_issues(), "values of the right type are refused")
    got = data[name]
    sx.check(len(got) == n, "number of values")
    for i, g in enumerate(got):
        sx.check((g[t] if cplx else g) == (want if i == at_ else right[i]), "values keep their places")
