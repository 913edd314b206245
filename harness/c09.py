"""C09: filters on complex attributes"""
from symx.api import harness
from harness.common import Res, at, Attribute, ComplexAttribute
from src.data.container import AttrRep, Missing, SCIMDataContainer
from src.filter import Filter

R = Res([
    ComplexAttribute(name="cm", multi_valued=True, sub_attributes=[
        Attribute(name="value", type_=at.String), Attribute(name="type", type_=at.String),
        Attribute(name="n", type_=at.Integer)]),
    ComplexAttribute(name="c", sub_attributes=[
        Attribute(name="a", type_=at.String), Attribute(name="n", type_=at.Integer)]),
    ComplexAttribute(name="nv", multi_valued=True, sub_attributes=[Attribute(name="a", type_=at.String)]),
    Attribute(name="s", type_=at.String),
])

FILTERS = {
    'cm[type eq "w"]': lambda i, k: eqv(i, "type", "w", k),
    'cm.type eq "w"': lambda i, k: eqv(i, "type", "w", k),
    'CM[TYPE eq "W"]': lambda i, k: eqv(i, "type", "w", k),
    'urn:t:T:cm.type eq "w"': lambda i, k: eqv(i, "type", "w", k),
    'cm[type eq "w" and value eq "v"]': lambda i, k: a3(eqv(i, "type", "w", k), eqv(i, "value", "v", k)),
    'cm[type eq "w" or value eq "v"]': lambda i, k: o3(eqv(i, "type", "w", k), eqv(i, "value", "v", k)),
    'cm[not (type eq "w")]': lambda i, k: n3(eqv(i, "type", "w", True), k),
    'cm[type eq "w" and not (value eq "v")]': lambda i, k: a3(eqv(i, "type", "w", k),
                                                              n3(eqv(i, "value", "v", True), k)),
    'cm[(type eq "w" or n gt 1) and value eq "v"]': lambda i, k: a3(o3(eqv(i, "type", "w", k), gtv(i, k)),
                                                                     eqv(i, "value", "v", k)),
    'cm.n gt 1': lambda i, k: gtv(i, k),
    'cm[type pr]': lambda i, k: prv(i, "type"),
    'cm[type pr and n gt 1]': lambda i, k: a3(prv(i, "type"), gtv(i, k)),
}


def eqv(item, key, lit, strict):
    if key not in item:
        return None if strict else True
    return bool(item[key].lower() == lit)


def gtv(item, strict):
    if "n" not in item:
        return None if strict else True
    return bool(item["n"] > 1)


def prv(item, key):
    return key in item and len(item[key]) > 0


def a3(x, y):
    return False if x is False or y is False else (None if x is None or y is None else True)


def o3(x, y):
    return True if x is True or y is True else (None if x is None or y is None else False)


def n3(x, strict):
    return (not strict) if x is None else not x


def item(sx, name):
    d = []
    if sx.pick(name + ".type?", 2):
        d.append(("type", sx.string(name + ".type", 0, 1, chars="wWx")))
    if sx.pick(name + ".value?", 2):
        d.append(("value", sx.string(name + ".value", 1, chars="vx")))
    if sx.pick(name + ".n?", 2):
        d.append(("n", sx.int(name + ".n")))
    return sx.mkdict(d)


@harness("C09", quick={"n": 2}, thorough={"n": 2}, bounds="multi-valued complex attribute of 0..n items with any "
         "subset of three sub-attributes; 12 filters; strict and lenient", reach=["match", "nomatch"])
def multi_valued(sx, n):
    text = sx.choice("filter", list(FILTERS))
    strict = sx.choice("strict", [True, False])
    items = [item(sx, f"i{j}") for j in range(sx.pick("k", n + 1))]
    f, issues = Filter.parse(text)
    sx.check(not issues.has_issues(), "well-formed filter refused")
    got = bool(f(SCIMDataContainer({"cm": items}), R, strict))
    rs = [FILTERS[text](i, strict) for i in items]
    if strict:
        want = True in rs
    else:
        want = True in rs or not items
        if text == "cm[type pr]" and not any("type" in i for i in items):
            want = True
    sx.reach("match" if got else "nomatch")
    sx.check(got == want, "a complex filter holds when one item satisfies all of it")


@harness("C09", quick={"n": 2}, thorough={"n": 2}, bounds="single-valued complex attribute with any subset of two "
         "sub-attributes", reach=["match", "nomatch"])
def single_valued(sx, n):
    text = sx.choice("filter", ['c.a eq "w"', 'c[a eq "w"]', 'c[a eq "w" and n gt 1]', 'C.A ne "w"'])
    d = []
    if sx.pick("a?", 2):
        d.append(("a", sx.string("a", 1, chars="wWx")))
    if sx.pick("n?", 2):
        d.append(("n", sx.int("n")))
    f, issues = Filter.parse(text)
    sx.check(not issues.has_issues(), "well-formed filter refused")
    item = sx.mkdict(d)
    got = bool(f(SCIMDataContainer({"c": item}), R))
    r = eqv(item, "a", "w", True)
    if " and " in text:
        r = a3(r, gtv(item, True))
    if " ne " in text:
        r = None if r is None else not r
    sx.reach("match" if got else "nomatch")
    sx.check(got == (r is True), "filter on a single-valued complex attribute")


@harness("C09", quick={"n": 3}, thorough={"n": 5}, bounds="comparison of a multi-valued complex attribute itself",
         reach=["match", "nomatch"])
def default_value(sx, n):
    """an attribute with a 'value' sub-attribute is compared by it"""
    o = sx.choice("op", ["eq", "ne", "co", "sw", "ew", "pr"])
    name = sx.choice("attr", ["cm", "nv"])
    vs = [sx.string(f"v{i}", 0, 1, chars="vVx") for i in range(sx.pick("k", n + 1))]
    f, issues = Filter.parse(f'{name} pr' if o == "pr" else f'{name} {o} "v"')
    sx.check(not issues.has_issues(), "well-formed filter refused")
    got = bool(f(SCIMDataContainer({name: [{"value": v} for v in vs]}), R))
    if o == "pr":
        if name == "nv":
            return
        want = any([v != "" for v in vs])
    elif name == "nv":
        want = False
    else:
        want = any([(v.lower() == "v") if o != "ne" else (v.lower() != "v") for v in vs])
    sx.reach("match" if got else "nomatch")
    sx.check(got == want, "a multi-valued complex attribute is compared by its values")


@harness("C09", bounds="every shape of data of a complex attribute, every filter", reach=["done"])
def tolerant(sx):
    """data of an unexpected shape never makes the evaluation raise and never matches strictly"""
    text = sx.choice("filter", list(FILTERS) + ['c.a eq "w"', 'c[a eq "w" and n gt 1]', 's[type eq "w"]',
                                                'zz[type eq "w"]', 'zz.type eq "w"', 'cm.zz eq "w"',
                                                'cm[zz eq "w" or type eq "w"]'])
    shape = sx.choice("shape", [None, 5, "x", [], [5], ["x"], [None], [[]], {}, {"type": 5}, [{"type": 5}],
                                [{"type": None}], [{"type": ["w"]}], [{"n": "x"}], [{"n": None, "type": "w"}]])
    strict = sx.choice("strict", [True, False])
    f, issues = Filter.parse(text)
    sx.check(not issues.has_issues(), "well-formed filter refused")
    res = f(SCIMDataContainer({"cm": shape, "c": shape, "s": "x"}), R, strict)
    got = bool(res)
    if text.startswith("zz") or text.startswith("s["):
        sx.check(not got, "unknown or non-complex attribute matched")
    if text == 'cm.zz eq "w"' and strict:
        sx.check(not got, "unknown sub-attribute matched")
    sx.reach("done")


@harness("C09", quick={"n": 8}, thorough={"n": 20}, bounds="n items, any one of which has the type, and any one of which has the value asked for; strict and lenient",
         reach=["match", "nomatch"])
def many_items(sx, n):
    text = sx.choice("filter", ['cm[type eq "w" and value eq "v"]', 'cm[type eq "w" or value eq "v"]', 'cm[not (type eq "w") and value eq "v"]',
                                'cm.type eq "w"', 'cm[(type eq "w" or n gt 1) and value eq "v"]'])
    strict = sx.choice("strict", [True, False])
    i, j = sx.pick("i", n), sx.pick("j", n)
    items = [{"type": "x", "value": "x", "n": 0} for _ in range(n)]
    items[i]["type"] = sx.string("t", 1, chars="wWx")
    items[j]["value"] = sx.string("v", 1, chars="vVx")
    items[j]["n"] = sx.int("n")
    f, issues = Filter.parse(text)
    sx.check(not issues.has_issues(), "well-formed filter refused")
    got = bool(f(SCIMDataContainer({"cm": items}), R, strict))
    w, v = bool(items[i]["type"].lower() == "w"), bool(items[j]["value"].lower() == "v")
    if " or v" in text:
        want = w or v
    elif "gt" in text:
        want = v and ((w and i == j) or bool(items[j]["n"] > 1))
    elif text.startswith("cm."):
        want = w
    else:
        want = v and (w and i == j if "not" not in text else not (w and i == j))
    sx.reach("match" if got else "nomatch")
    sx.check(got == want, "a complex filter holds when one item satisfies all of it")
