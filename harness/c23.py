"""C23: canonical values and the single primary item"""
from symx.api import harness
from harness.common import Res, at, Attribute, ComplexAttribute, codes_at, has_at, ext, X_URN, T_URN

VALUES = ["ab", "Cd", "e", "\u00df", "\u00c9"]
KW = {"canonical_values": VALUES}


def attrs(case_exact, strict):
    kw = dict(KW, case_exact=case_exact, validate_canonical_values=strict)
    return [
        Attribute(name="v", type_=at.String, **kw),
        Attribute(name="m", type_=at.String, multi_valued=True, **kw),
        ComplexAttribute(name="c", sub_attributes=[Attribute(name="v", type_=at.String, **kw)]),
        ComplexAttribute(name="cm", multi_valued=True, sub_attributes=[
            Attribute(name="v", type_=at.String, **kw), Attribute(name="m", type_=at.String, multi_valued=True, **kw)]),
    ]


def make(case_exact, strict):
    r = Res(attrs(case_exact, strict))
    r.with_extension(ext(attrs(case_exact, strict)))
    return r


SCHEMAS = {(c, s): make(c, s) for c in (True, False) for s in (True, False)}
NUM = Res([Attribute(name="n", type_=at.Integer, canonical_values=[1, 5], validate_canonical_values=True)])
PLACES = ["v", "m", "c.v", "cm.v", "cm.m"]


@harness("C23", bounds="canonical values of five texts, exact or not, enforced or not; any text of 0..2 characters over {a,A,b,C,c,d,e,s,\u00df,\u00e9,\u00c9}; five places, "
         "core or extension, parsed or dumped", reach=["ok", "bad"])
def canonical(sx):
    exact, strict = sx.choice("exact", [True, False]), sx.choice("strict", [True, False])
    schema = SCHEMAS[exact, strict]
    place = sx.choice("place", PLACES)
    v = sx.string("v", 0, 2, chars="aAbCcdes\u00df\u00e9\u00c9")
    twice = place in ("m", "cm.m") and sx.pick("twice", 2)
    vs = [v, v] if twice else ["ab", v]
    item = {"v": v} if place.endswith("v") else {"m": vs}
    data = {"v": {"v": v}, "m": {"m": vs}, "c.v": {"c": item}, "cm.v": {"cm": [{"v": "ab"}, item]},
            "cm.m": {"cm": [{"v": "ab"}, item]}}[place]
    where = {"v": ("v",), "m": ("m", 1), "c.v": ("c", "v"), "cm.v": ("cm", 1, "v"), "cm.m": ("cm", 1, "m", 1)}[place]
    in_ext = sx.pick("ext", 2)
    if in_ext:
        body, where = {"schemas": [T_URN, X_URN], X_URN: data}, (X_URN,) + where
    else:
        body = {"schemas": [T_URN], **data}
    out, issues = (schema.parse if sx.pick("dir", 2) else schema.dump)(body)
    good = not strict
    for w in VALUES:
        good = good or (v == w if exact else v.lower() == w.lower())
    sx.check((14 in codes_at(issues, *where)) == (not good), "values that are not canonical are reported where they must be")
    sx.check(issues.has_issues() == (not good), "nothing else is reported")
    sx.check(not twice or codes_at(issues, *where[:-1], 0) == codes_at(issues, *where), "equal values are reported alike")
    if good:
        sx.reach("ok")
        sx.check(out.to_dict() == body, "values come out as they were")
    else:
        sx.reach("bad")


@harness("C23", bounds="canonical numbers; any integer", reach=["ok", "bad"])
def numbers(sx):
    n = sx.int("n")
    out, issues = NUM.parse({"schemas": [T_URN], "n": n})
    good = sx.Or(n == 1, n == 5)
    sx.check(bool(codes_at(issues, "n")) == (not good) and issues.has_issues() == (not good), "numbers that are not canonical are reported")
    sx.reach("ok" if good else "bad")


P = [ComplexAttribute(name="cm", multi_valued=True, sub_attributes=[Attribute(name="value", type_=at.String),
                                                                     Attribute(name="primary", type_=at.Boolean)])]
PRIM = Res([*P, ComplexAttribute(name="c", sub_attributes=[Attribute(name="primary", type_=at.Boolean)])])
PRIM.with_extension(ext(P))


@harness("C23", quick={"n": 5}, thorough={"n": 6}, bounds="lists of 0..n items each primary, not primary, null or silent about it, every third without a value; core or extension, "
         "parsed or dumped", reach=["ok", "bad"])
def primary(sx, n):
    m = sx.pick("n", n + 1)
    items, count = [], 0
    for i in range(m):
        k = sx.pick(f"k{i}", 3)
        if k == 0:
            p = sx.bool(f"p{i}")
            items.append({"value": f"{i}", "primary": p} if i % 3 else {"primary": p})
            if p:
                count += 1
        elif k == 1:
            items.append({"value": f"{i}", "primary": None})
        else:
            items.append({"value": f"{i}"})
    if sx.pick("ext", 2):
        body, where = {"schemas": [T_URN, X_URN], X_URN: {"cm": items}}, (X_URN, "cm")
    else:
        body, where = {"schemas": [T_URN], "cm": items, "c": {"primary": True}}, ("cm",)
    out, issues = (PRIM.parse if sx.pick("dir", 2) else PRIM.dump)(body)
    good = count <= 1
    sx.check(codes_at(issues, *where) == ([] if good else [9]), "more than one primary item is reported")
    sx.check(issues.has_issues() == (not good), "nothing else is reported")
    if good:
        sx.reach("ok")
        sx.check(out.to_dict() == body, "items come out as they were")
    else:
        sx.reach("bad")


@harness("C23", quick={"n": 12}, thorough={"n": 40}, bounds="lists of n items, any two of which are primary or not", reach=["ok", "bad"])
def many(sx, n):
    i, j = sx.pick("i", n), sx.pick("j", n)
    items = [{"value": str(k), "primary": False} if k % 2 else {"value": str(k)} for k in range(n)]
    a, b = sx.bool("a"), sx.bool("b")
    items[i]["primary"] = a
    items[j]["primary"] = b
    out, issues = (PRIM.parse if sx.pick("dir", 2) else PRIM.dump)({"schemas": [T_URN], "cm": items})
    bad = i != j and bool(a) and bool(b)
    sx.check(codes_at(issues, "cm") == ([9] if bad else []) and issues.has_issues() == bad, "more than one primary item is reported")
    if bad:
        sx.reach("bad")
    else:
        sx.reach("ok")
        sx.check(out.to_dict()["cm"] == items, "items come out as they were")
