"""C13: PATCH operations"""
from symx.api import harness
from harness import validators as V
from harness.common import (CONFIG, Res, at, Attribute, ComplexAttribute, AttributeMutability, AttributeIssuer, has_at,
                            SCIMDataContainer, Missing, X_URN, ext, AttrRep)
from src.request_validators import ResourceObjectPATCH

RO = AttributeMutability.READ_ONLY
R = Res([
    Attribute(name="s", type_=at.String),
    Attribute(name="n", type_=at.Integer),
    Attribute(name="req", type_=at.String, required=True),
    Attribute(name="ro", type_=at.String, mutability=RO),
    Attribute(name="mv", type_=at.String, multi_valued=True),
    ComplexAttribute(name="c", sub_attributes=[
        Attribute(name="a", type_=at.String), Attribute(name="b", type_=at.String, mutability=RO),
        Attribute(name="r", type_=at.String, required=True)]),
    ComplexAttribute(name="rc", mutability=RO, sub_attributes=[Attribute(name="a", type_=at.String)]),
    ComplexAttribute(name="cm", multi_valued=True, sub_attributes=[
        Attribute(name="value", type_=at.String, required=True), Attribute(name="type", type_=at.String),
        Attribute(name="ro", type_=at.String, mutability=RO),
        Attribute(name="sid", type_=at.String, required=True, issuer=AttributeIssuer.SERVER)]),
    ComplexAttribute(name="rm", multi_valued=True, mutability=RO, sub_attributes=[
        Attribute(name="value", type_=at.String)]),
    ComplexAttribute(name="reqc", required=True, sub_attributes=[Attribute(name="a", type_=at.String)]),
])
R.with_extension(ext())
PATCH = ResourceObjectPATCH(CONFIG, resource_schema=R)
F = '[type eq "w"]'
X = X_URN + ":"

# path -> (type of the target, read-only, required, filter without sub-attribute)
TARGETS = {
    "s": ("str", 0, 0, 0), "n": ("int", 0, 0, 0), "req": ("str", 0, 1, 0), "ro": ("str", 1, 0, 0),
    "mv": ("strs", 0, 0, 0), "c": ("obj", 0, 0, 0), "c.a": ("str", 0, 0, 0), "c.b": ("str", 1, 0, 0),
    "c.r": ("str", 0, 1, 0), "rc": ("obj", 1, 0, 0), "rc.a": ("str", 1, 0, 0), "cm": ("objs", 0, 0, 0),
    "cm" + F: ("objs", 0, 0, 1), "cm" + F + ".value": ("str", 0, 1, 0), "cm" + F + ".type": ("str", 0, 0, 0),
    "cm" + F + ".ro": ("str", 1, 0, 0), "rm": ("objs", 1, 0, 0), "rm" + F + ".value": ("str", 1, 0, 0),
    "reqc": ("obj", 0, 2, 0), "id": ("str", 1, 1, 0), "meta": ("obj", 1, 0, 0), "meta.version": ("str", 1, 0, 0),
    X + "e": ("str", 0, 0, 0), X + "en": ("int", 0, 0, 0), "urn:t:T:s": ("str", 0, 0, 0),
    "urn:t:T:cm" + F + ".type": ("str", 0, 0, 0), "urn:t:T:ro": ("str", 1, 0, 0),
}
UNKNOWN = ["zz", "s.a", "c.zz", "cm" + F + ".zz", "zz" + F, "zz" + F + ".value", "urn:q:s", X + "zz", "n.value"]
OP = ("body", "Operations")


def patch(sx, *ops):
    return PATCH.parse_request(body={"schemas": [V.PATCH_URN], "Operations": list(ops)})


def value_for(sx, typ):
    """(value, right): a value of any kind"""
    k = sx.choice("vkind", ["str", "int", "bool", "strs", "obj", "objs"])
    v = {"str": lambda: sx.string("v", 0, 2), "int": lambda: sx.int("v"), "bool": lambda: sx.choice("v", [True, False]),
         "strs": lambda: [sx.string("v", 0, 1)], "obj": lambda: {"a": sx.string("v", 0, 1)},
         "objs": lambda: [{"value": sx.string("v", 1), "type": "w"}]}[k]()
    return v, k == typ


@harness("C13", bounds=f"add/replace in any letter case x {len(TARGETS)} targets x any kind of value",
         reach=["accepted", "readonly", "badtype", "nofilter"])
def add_replace(sx):
    op = sx.choice("op", ["add", "replace"])
    path = sx.choice("path", list(TARGETS))
    typ, ro, req, nosub = TARGETS[path]
    v, right = value_for(sx, typ)
    data, issues = patch(sx, {"op": sx.case("opcase", op), "path": path, "value": v})
    if op == "add" and nosub:
        sx.reach("nofilter")
        sx.check(has_at(issues, *OP, 0, "path"), "'add' to filtered values needs a sub-attribute")
        return
    if ro:
        sx.reach("readonly")
        sx.check(has_at(issues, *OP, 0, "value"), "a read-only target is not modified: " + path)
        return
    if not right:
        sx.reach("badtype")
        sx.check(has_at(issues, *OP, 0, "value"), "a value of a wrong type is reported: " + path)
        return
    sx.reach("accepted")
    sx.check(not issues.has_issues(), "a proper operation is refused: " + path)
    o = data.body["Operations"][0]
    sx.check(o["op"] == op, "the operation is recognised in any letter case")
    got = o["value"]
    if typ == "obj":
        sx.check(isinstance(got, SCIMDataContainer) and got.to_dict() == v, "value of the operation")
    elif typ == "objs":
        sx.check([g.to_dict() for g in got] == v, "values of the operation")
    else:
        sx.check(got == v, "value of the operation")
    text = path.split("[")[0].replace("urn:t:T:", "").replace(X, "")
    p = o["path"]
    sx.check(p.attr_rep.attr == text.split(".")[0], "target of the operation")
    sx.check((p.complex_filter is not None) == ("[" in path), "filter of the operation")


@harness("C13", bounds=f"remove in any letter case x {len(TARGETS)} targets, with or without a value",
         reach=["accepted", "refused"])
def remove(sx):
    path = sx.choice("path", list(TARGETS))
    typ, ro, req, nosub = TARGETS[path]
    item = {"op": sx.case("opcase", "remove"), "path": path}
    if sx.pick("value?", 2):
        item["value"] = sx.string("v", 0, 1)
    data, issues = patch(sx, item)
    if ro or req == 1:
        sx.reach("refused")
        sx.check(has_at(issues, *OP, 0, "path"), "read-only and required targets are not removed: " + path)
    else:
        sx.reach("accepted")
        sx.check(not issues.has_issues(), "a removable target is refused: " + path)
        o = data.body["Operations"][0]
        sx.check(o["op"] == "remove" and o["value"] is Missing, "'remove' has no value")


@harness("C13", bounds="unknown targets, unknown and malformed operations", reach=["done"])
def refused(sx):
    kind = sx.pick("kind", 6)
    if kind == 0:
        item = {"op": sx.choice("op", ["add", "replace", "remove"]), "path": sx.choice("path", UNKNOWN), "value": "x"}
        loc = (0,)
    elif kind == 1:
        op = sx.string("op", 0, 3, chars="adr")
        sx.assume(op != "add")
        item, loc = {"op": op, "path": "s", "value": "x"}, (0, "op")
    elif kind == 2:
        item, loc = {"path": "s", "value": "x"}, (0, "op")
    elif kind == 3:
        item, loc = {"op": sx.case("c", "remove"), "value": "x"}, (0, "path")
        if sx.pick("null", 2):
            item["path"] = None
    elif kind == 4:
        item, loc = {"op": sx.case("c", "add"), "path": "s"}, (0, "value")
        if sx.pick("null", 2):
            item["value"] = None
    else:
        item, loc = {"op": "add", "path": sx.choice("badpath", ["", "s s", "s[", "cm[type]", "a.b.c", "cm[type pr]value"]),
                     "value": "x"}, (0, "path")
    before = sx.pick("before", 2)
    ops = [{"op": "add", "path": "s", "value": "x"}] if before else []
    data, issues = patch(sx, *ops, item)
    sx.check(has_at(issues, *OP, before + loc[0], *loc[1:]), "a bad operation is reported where it is")
    sx.check(not before or not has_at(issues, *OP, 0), "a good operation is not reported")
    sx.check(data.body is None, "nothing is passed on")
    sx.reach("done")


@harness("C13", bounds="operations without a path: any subset of attributes, right and wrong",
         reach=["accepted", "refused"], budget=2)
def no_path(sx):
    op = sx.choice("op", ["add", "replace"])
    key = sx.choice("key", ["s", "n", "ro", "c.a", "c.b", "rc.a", "cm", "mv", X + "e", "id", "meta.version", "zz"])
    v = sx.choice("v", ["str", "int", "strs", "objs"])
    val = {"str": lambda: sx.string("val", 1, 2, chars="a "), "int": lambda: sx.int("val"), "strs": lambda: ["a"],
           "objs": lambda: [{"value": "a"}]}[v]()
    name = key.split(".")[0] if not key.startswith(X) else key
    cname = sx.case("name", name) if not key.startswith(X) else name
    if key.startswith(X):
        pairs, loc = [(X_URN, {"e": val})], (X_URN, "e")
    elif "." in key:
        pairs, loc = [(cname, {key.split(".")[1]: val})], tuple(key.split("."))
    else:
        pairs, loc = [(cname, val)], (key,)
    pairs.append(("req", "r"))
    body = sx.mkdict(pairs)
    data, issues = patch(sx, {"op": op, "value": body})
    typ = {"s": "str", "n": "int", "ro": "ro", "c.a": "str", "c.b": "ro", "rc.a": "ro", "cm": "objs", "mv": "strs",
           X + "e": "str", "id": "ro", "meta.version": "ro", "zz": "any"}[key]
    vloc = OP + (0, "value")
    if typ == "ro":
        sx.reach("refused")
        sx.check(has_at(issues, *vloc, loc[0]), "a read-only attribute is not modified: " + key)
    elif typ != "any" and typ != v:
        sx.reach("refused")
        sx.check(has_at(issues, *vloc, *loc), "a wrong value is reported at its attribute: " + key)
    else:
        sx.reach("accepted")
        sx.check(not issues.has_issues(), "a proper operation is refused: " + key)
        got = data.body["Operations"][0]["value"]
        sx.check(got["req"] == "r", "values are passed on")
        if key == "s" or key == "n":
            sx.check(got[key] == val, "values are passed on")
        if key == "zz":
            sx.check(got["zz"] is Missing, "unknown attributes are not passed on")


@harness("C13", quick={"n": 2}, thorough={"n": 3}, bounds="values of a multi-valued complex attribute, 1..n items, any "
         "subset of the required sub-attributes", reach=["accepted", "refused"])
def required_sub_attributes(sx, n):
    op = sx.choice("op", ["add", "replace"])
    path = sx.pick("path", 3)
    items, lack = [], []
    for i in range(1 + sx.pick("n", n)):
        d = {"type": "w"}
        k = sx.pick(f"value{i}", 3)
        if k == 1:
            d["value"] = sx.string(f"v{i}", 1, 2)
        elif k == 2:
            d["value"] = ""
        items.append(d)
        lack.append(k != 1)
    if path == 0:
        o, loc = {"op": op, "path": "cm", "value": items}, ()
    elif path == 1:
        o, loc = {"op": op, "value": {"cm": items}}, ("cm",)
    else:
        o, loc = {"op": "replace", "path": "cm" + F, "value": items}, ()
    data, issues = patch(sx, o)
    for i, l in enumerate(lack):
        sx.check(has_at(issues, *OP, 0, "value", *loc, i, "value") == l, "required sub-attributes of new items")
    sx.check(issues.has_issues() == any(lack), "server-issued sub-attributes are not required")
    sx.reach("refused" if any(lack) else "accepted")


M = AttributeMutability
R2 = Res([
    ComplexAttribute(name="c", sub_attributes=[
        Attribute(name="im", type_=at.String, mutability=M.IMMUTABLE), Attribute(name="wo", type_=at.String, mutability=M.WRITE_ONLY),
        Attribute(name="rw", type_=at.String), Attribute(name="ro", type_=at.String, mutability=RO),
        Attribute(name="rob", type_=at.Boolean, mutability=RO), Attribute(name="roi", type_=at.Integer, mutability=RO)]),
    ComplexAttribute(name="cm", multi_valued=True, sub_attributes=[
        Attribute(name="value", type_=at.String), Attribute(name="ro", type_=at.String, mutability=RO),
        Attribute(name="cid", type_=at.String, required=True, issuer=AttributeIssuer.CLIENT),
        Attribute(name="sid", type_=at.String, required=True, issuer=AttributeIssuer.SERVER)]),
    Attribute(name="im", type_=at.String, mutability=M.IMMUTABLE), Attribute(name="wo", type_=at.String, mutability=M.WRITE_ONLY),
    Attribute(name="ro", type_=at.String, mutability=RO),
])
R2.with_extension(ext([
    Attribute(name="e", type_=at.String), Attribute(name="ero", type_=at.String, mutability=RO),
    ComplexAttribute(name="ec", sub_attributes=[Attribute(name="rw", type_=at.String),
                                                Attribute(name="ro", type_=at.String, mutability=RO)]),
    ComplexAttribute(name="ecm", multi_valued=True, sub_attributes=[
        Attribute(name="value", type_=at.String), Attribute(name="r", type_=at.String, required=True),
        Attribute(name="ro", type_=at.String, mutability=RO)])]))
PATCH2 = ResourceObjectPATCH(CONFIG, resource_schema=R2)


def patch2(*ops):
    return PATCH2.parse_request(body={"schemas": [V.PATCH_URN], "Operations": list(ops)})


@harness("C13", bounds="sub-attributes of every mutability of a complex attribute, set through its path, through the path of the "
         "attribute or without a path; texts of 0..2 characters, booleans and integers", reach=["accepted", "refused"])
def mutability(sx):
    op = sx.choice("op", ["add", "replace"])
    sub = sx.choice("sub", ["im", "wo", "rw", "ro", "rob", "roi"])
    v = sx.bool("v") if sub == "rob" else sx.int("v") if sub == "roi" else sx.string("v", 0, 2)
    other = sx.pick("other", 2)
    name = sx.case("name", sub)
    obj = sx.mkdict(([("rw", "x")] if other and sub != "rw" else []) + [(name, v)])
    how = sx.pick("how", 3)
    if how == 0:
        o, loc = {"op": op, "path": "c", "value": obj}, ("value",)
    elif how == 1:
        o, loc = {"op": op, "path": "c." + name, "value": v}, ("value",)
    else:
        o, loc = {"op": op, "value": {"c": obj}}, ("value", "c")
    data, issues = patch2(o)
    if sub[:2] == "ro":
        sx.reach("refused")
        sx.check(has_at(issues, *OP, 0, *loc) and data.body is None, "a read-only sub-attribute is not modified")
    else:
        sx.reach("accepted")
        sx.check(not issues.has_issues(), "immutable, write-only and read-write sub-attributes may be set")
        got = data.body["Operations"][0]["value"]
        if how == 1:
            sx.check(got == v, "value of the operation")
        else:
            sx.check((got if how == 0 else got["c"])[sub] == v, "value of the operation")


@harness("C13", bounds="read-only sub-attributes of items of a multi-valued attribute, of the resource and of the extension, 1..2 items, "
         "any text of 0..1 characters", reach=["accepted", "refused"])
def items_mutability(sx):
    op = sx.choice("op", ["add", "replace"])
    attr = sx.choice("attr", ["cm", "ecm"])
    items, bad, lack = [], False, []
    for i in range(1 + sx.pick("n", 2)):
        d = {"value": "x"}
        k = sx.pick(f"k{i}", 3)
        if k == 1:
            d["ro"] = sx.string(f"ro{i}", 0, 1)
            bad = True
        if k != 2:
            d["cid" if attr == "cm" else "r"] = "q"
        lack.append(k == 2)
        items.append(d)
    how = sx.pick("how", 2)
    if how == 0:
        o, loc = {"op": op, "path": attr if attr == "cm" else X + attr, "value": items}, ("value",)
    elif attr == "cm":
        o, loc = {"op": op, "value": {"cm": items}}, ("value", "cm")
    else:
        o, loc = {"op": op, "value": {X_URN: {"ecm": items}}}, ("value", X_URN, "ecm")
    data, issues = patch2(o)
    if not bad and not any(lack):
        sx.reach("accepted")
        sx.check(not issues.has_issues(), "a proper operation is refused")
        return
    sx.reach("refused")
    sx.check(has_at(issues, *OP, 0, *loc) and data.body is None, "read-only and required sub-attributes of items")
    if not bad:
        for i, l in enumerate(lack):
            sx.check(has_at(issues, *OP, 0, *loc, i, "cid" if attr == "cm" else "r") == l, "required sub-attributes of new items")


@harness("C13", bounds="operations without a path with a partial resource without schemas; simple, complex and extension attributes of every "
         "mutability", reach=["accepted", "refused"])
def no_path_partial(sx):
    op = sx.choice("op", ["add", "replace"])
    key = sx.choice("key", ["im", "wo", "ro", X + "e", X + "ero", X + "ec.rw", X + "ec.ro"])
    v = sx.string("v", 0, 1)
    pairs = []
    short = key.replace(X, "")
    a, _, b = short.partition(".")
    inner = {a: {b: v} if b else v}
    pairs += [(X_URN, inner)] if short != key else list(inner.items())
    data, issues = patch2({"op": op, "value": sx.mkdict(pairs)})
    if short.endswith("ro"):
        sx.reach("refused")
        sx.check(has_at(issues, *OP, 0, "value", *((X_URN,) if short != key else ()), a) and data.body is None,
                 "a read-only attribute is not modified")
    else:
        sx.reach("accepted")
        sx.check(not issues.has_issues(), "a partial resource needs no schemas")
        got = data.body["Operations"][0]["value"]
        rep = AttrRep(schema=X_URN if short != key else "", attr=a, sub_attr=b, extension=short != key)
        sx.check(got[rep] == v, "values are passed on")


SEQ = [
    ({"op": "add", "path": "s"}, True), ({"op": "replace", "path": "c.a"}, True), ({"op": "remove", "path": "S"}, True),
    ({"op": "add", "path": "ro"}, False), ({"op": "remove", "path": "req"}, False), ({"op": "add", "path": "n"}, False),
    ({"op": "replace", "path": "zz"}, False), ({"op": "remove"}, False), ({"op": "Replace"}, True), ({"path": "s"}, False),
]


@harness("C13", quick={"n": 3}, thorough={"n": 4}, bounds="sequences of 1..n operations, proper or not, in any order, with repetitions; "
         "texts of 1..2 characters", reach=["accepted", "refused"])
def sequence(sx, n):
    ops, good, want = [], [], []
    for i in range(1 + sx.pick("n", n)):
        o, ok = SEQ[sx.pick(f"o{i}", len(SEQ))]
        v = sx.string(f"v{i}", 1, 2)
        ops.append(dict(o, value=v if o.get("path") or o.get("op") == "remove" else {"s": v}))
        good.append(ok)
        want.append((o.get("op", "").lower(), None if o.get("op") == "remove" else v, (o.get("path") or "").lower()))
    data, issues = patch(sx, *ops)
    for i, ok in enumerate(good):
        sx.check(has_at(issues, *OP, i) == (not ok), "every operation is judged on its own")
    sx.check(issues.has_issues() == (not all(good)) and (data.body is None) == (not all(good)), "all of them have to be proper")
    if not all(good):
        sx.reach("refused")
        return
    sx.reach("accepted")
    got = data.body["Operations"]
    sx.check(len(got) == len(ops), "all operations are passed on")
    for o, (op, v, path) in zip(got, want):
        sx.check(o["op"] == op, "in their order")
        if path:
            sx.check(str(o["path"].attr_rep).lower() == path, "with their targets")
        else:
            sx.check(o["path"] is Missing or o["path"] is None, "with no target where there is none")
        if v is not None:
            sx.check((o["value"] if path else o["value"]["s"]) == v, "with their values")


@harness("C13", quick={"n": 12}, thorough={"n": 30}, bounds="n operations, all proper but one, anywhere, which is any of the above", reach=["accepted", "refused"])
def long_sequence(sx, n):
    i = sx.pick("at", n)
    o, ok = SEQ[sx.pick("o", len(SEQ))]
    v = sx.string("v", 1, 2)
    ops = [{"op": ("add", "replace", "remove")[k % 3], "path": ("s", "c.a", "mv", "s")[k % 4], "value": ["x"] if k % 4 == 2 else f"x{k}"} for k in range(n)]
    ops[i] = dict(o, value=v if o.get("path") or o.get("op") == "remove" else {"s": v})
    data, issues = patch(sx, *ops)
    for k in range(n):
        sx.check(has_at(issues, *OP, k) == (k == i and not ok), "every operation is judged on its own")
    sx.check(issues.has_issues() == (not ok) and (data.body is None) == (not ok), "all of them have to be proper")
    sx.reach("accepted" if ok else "refused")
    if ok:
        got = data.body["Operations"]
        sx.check(len(got) == n, "all operations are passed on")
        for k in range(n):
            if k != i:
                sx.check(got[k]["op"] == ops[k]["op"] and str(got[k]["path"].attr_rep) == ops[k]["path"], "in their order")
                sx.check(got[k]["op"] == "remove" or got[k]["value"] == ops[k]["value"], "with their values")
