"""C14: bodies of PUT and POST requests: read-only and required attributes"""
from symx.api import harness
from harness.common import (CONFIG, Res, at, Attribute, ComplexAttribute, AttributeMutability, AttributeIssuer,
                            AttributeReturn, has_at, X_URN, T_URN, ext, Missing)
from src.request_validators import ResourceObjectPUT, ResourcesPOST

RO = AttributeMutability.READ_ONLY
SRV = AttributeIssuer.SERVER
CLI = AttributeIssuer.CLIENT


def A(name, type_=at.String, **kw):
    return Attribute(name=name, type_=type_, **kw)


R = Res([
    A("s"), A("ro", mutability=RO), A("im", mutability=AttributeMutability.IMMUTABLE),
    A("wo", mutability=AttributeMutability.WRITE_ONLY, returned=AttributeReturn.NEVER), A("mro", mutability=RO, multi_valued=True),
    ComplexAttribute(name="c", sub_attributes=[A("a"), A("b", mutability=RO)]),
    ComplexAttribute(name="rc", mutability=RO, sub_attributes=[A("a")]),
    ComplexAttribute(name="cm", multi_valued=True, sub_attributes=[A("value"), A("b", mutability=RO)]),
])
R.with_extension(ext([A("e"), A("ro", mutability=RO),
                      ComplexAttribute(name="ec", sub_attributes=[A("a"), A("b", mutability=RO)])]))
PUT = ResourceObjectPUT(CONFIG, resource_schema=R)
POST = ResourcesPOST(CONFIG, resource_schema=R)
# (name, value builder, location of the value, read-only)
ITEMS = [
    ("s", lambda v: v, "s", 0), ("im", lambda v: v, "im", 0), ("wo", lambda v: v, "wo", 0), ("ro", lambda v: v, "ro", 1),
    ("mro", lambda v: [v], "mro", 1),
]


@harness("C14", bounds="any subset of attributes of every mutability, at the top level, inside complex attributes and in an "
         "extension, any letter case of one name, texts of 1..2 characters", reach=["done"], budget=2)
def read_only_dropped(sx):
    v = sx.string("v", 1, 2)
    put = sx.pick("put", 2)
    name = sx.choice("name", ["s", "im", "wo", "ro", "mro"])
    pairs = [("schemas", [T_URN, X_URN]), ("id", "1")]
    pairs.append((sx.case("case", name), [v] if name == "mro" else v))
    c = sx.pick("c", 4)
    if c:
        pairs.append(("c", {"a": v, "b": v} if c == 1 else {"b": v} if c == 2 else {"a": v}))
    if sx.pick("rc", 2):
        pairs.append(("rc", {"a": v}))
    cm = sx.pick("cm", 4)
    if cm:
        pairs.append(("cm", [[], [{"value": v, "b": v}], [{"value": "1"}, {"b": v, "value": v}]][cm - 1]))
    x = sx.pick("x", 4)
    if x:
        pairs.append((X_URN, [{"e": v}, {"e": v, "ro": v}, {"ec": {"a": v, "b": v}}][x - 1]))
    body = sx.mkdict(pairs)
    data, issues = (PUT if put else POST).parse_request(body=body)
    sx.check(not issues.has_issues(), "the body is proper")
    b = data.body

    def same(key, want):
        got = b[key]
        sx.check(got is Missing if want is None else got == want, "value of " + key)

    drop = bool(put)
    if name in ("ro", "mro"):
        same(name, None if drop else ([v] if name == "mro" else v))
    else:
        same(name, v)
    for other in ("s", "im", "wo", "ro", "mro"):
        if other != name:
            same(other, None)
    same("c.a", v if c in (1, 3) else None)
    same("c.b", v if c in (1, 2) and not drop else None)
    same("rc", None if drop or not any(k == "rc" for k, _ in pairs) else {"a": v})
    if cm == 0:
        same("cm", None)
    else:
        got = b["cm"]
        want = [[], [v], ["1", v]][cm - 1]
        sx.check([i["value"] for i in got] == want, "items are kept")
        wb = [[], [v], [None, v]][cm - 1]
        for i, w in zip(got, wb):
            gb = i["b"]
            sx.check(gb is Missing if (w is None or drop) else gb == w, "read-only sub-attribute of items")
    same(X_URN + ":e", v if x in (1, 2) else None)
    if x == 2:
        same(X_URN + ":ro", None if drop else v)
    if x == 3:
        same(X_URN + ":ec.a", v)
        same(X_URN + ":ec.b", None if drop else v)
    sx.reach("done")


Q = Res([
    A("req", required=True), A("n", at.Integer, required=True), A("mreq", required=True, multi_valued=True),
    A("srv", required=True, issuer=SRV), A("cli", required=True, issuer=CLI),
    ComplexAttribute(name="c", sub_attributes=[A("a", required=True), A("o"), A("sv", required=True, issuer=SRV)]),
    ComplexAttribute(name="cm", multi_valued=True, sub_attributes=[A("value", required=True, issuer=CLI), A("o"),
                                                                    A("sv", required=True, issuer=SRV)]),
    ComplexAttribute(name="creq", required=True, sub_attributes=[A("o")]),
    ComplexAttribute(name="csrv", required=True, issuer=SRV, sub_attributes=[A("o")]),
    ComplexAttribute(name="cms", required=True, issuer=SRV, multi_valued=True, sub_attributes=[A("o")]),
    ComplexAttribute(name="cmr", required=True, multi_valued=True, sub_attributes=[A("o")]),
])
Q.with_extension(ext([A("ereq", required=True), A("ecli", required=True, issuer=CLI), A("eo"), A("esrv", required=True, issuer=SRV)]))
QPUT = ResourceObjectPUT(CONFIG, resource_schema=Q)
QPOST = ResourcesPOST(CONFIG, resource_schema=Q)


def full(sx):
    return {"schemas": [T_URN, X_URN], "id": "1", "req": "x", "n": 1, "mreq": ["x"], "srv": "x", "cli": "x",
            "c": {"a": "x", "sv": "x"}, "cm": [{"value": "x", "sv": "x"}, {"value": "x", "sv": "x"}], "creq": {"o": "x"}, "csrv": {"o": "x"},
            "cms": [{"o": "x"}], "cmr": [{"o": "x"}],
            X_URN: {"ereq": "x", "ecli": "x", "esrv": "x"}}


# location, issued by the server
REQ = [(("schemas",), 0), (("id",), 1), (("req",), 0), (("n",), 0), (("mreq",), 0), (("srv",), 1), (("cli",), 0), (("c", "a"), 0),
       (("c", "sv"), 1), (("cm", 0, "value"), 0), (("cm", 1, "value"), 0), (("cm", 1, "sv"), 1), (("creq",), 0), (("csrv",), 1), (("cms",), 1), (("cmr",), 0),
       ((X_URN, "ereq"), 0), ((X_URN, "ecli"), 0), ((X_URN, "esrv"), 1)]


@harness("C14", bounds=f"{len(REQ)} required attributes issued by either side, each absent, null, empty or with a value, any two of them at once",
         reach=["ok", "missing", "server"], budget=4)
def required(sx):
    put = sx.pick("put", 2)
    body = full(sx)
    k1 = sx.pick("k1", len(REQ))
    k2 = sx.pick("k2", len(REQ))
    want = []
    for i, k in enumerate([k1] if k1 == k2 else [k1, k2]):
        loc, srv = REQ[k]
        how = sx.pick(f"how{i}", 4)
        d = body
        for part in loc[:-1]:
            d = d[part]
        key = loc[-1]
        multi = key in ("mreq", "schemas", "cms", "cmr")
        if how == 0:
            del d[key]
        elif how == 1:
            d[key] = None
        elif how == 2:
            if key in ("n", "creq", "csrv"):
                continue
            d[key] = [] if multi else ""
        else:
            v = sx.string(f"v{i}", 1, 1, chars="ab") if not multi else None
            if key in ("n", "creq", "csrv") or multi:
                continue
            d[key] = v
        lacking = how < 3 and (put or not srv)
        if lacking:
            want.append(loc)
        elif how < 3:
            sx.reach("server")
    data, issues = (QPUT if put else QPOST).parse_request(body=body)
    for loc, _ in REQ:
        sx.check(has_at(issues, "body", *loc) == (loc in want), f"required attribute {loc}")
    sx.check(issues.has_issues() == bool(want), "only missing required attributes are reported")
    sx.check((data.body is None) == bool(want), "the body is withheld")
    sx.reach("missing" if want else "ok")


@harness("C14", quick={"n": 3}, thorough={"n": 4}, bounds="1..n items of a multi-valued complex attribute, each with or without its read-only and its "
         "required sub-attributes; texts of 0..1 characters", reach=["ok", "missing"])
def items(sx, n):
    put = sx.pick("put", 2)
    rows, lack = [], []
    for i in range(1 + sx.pick("n", n)):
        k = sx.pick(f"k{i}", 4)
        d = {"o": str(i)}
        if k < 2:
            d["value"] = v = sx.string(f"v{i}", 0, 1)
            if v == "":
                lack.append((i, "value"))
        else:
            lack.append((i, "value"))
        if k % 2:
            d["sv"] = "x"
        elif put:
            lack.append((i, "sv"))
        rows.append(d)
    data, issues = (QPUT if put else QPOST).parse_request(body={**full(sx), "cm": rows})
    for i in range(len(rows)):
        for k in ("value", "sv", "o"):
            sx.check(has_at(issues, "body", "cm", i, k) == ((i, k) in lack), "required sub-attributes of every item")
    sx.check(issues.has_issues() == bool(lack) and (data.body is None) == bool(lack), "nothing else is reported")
    sx.reach("missing" if lack else "ok")
    rows, ro = [], []
    for i in range(n):
        k = sx.pick(f"r{i}", 2)
        rows.append({"value": str(i), "b": "x"} if k else {"value": str(i)})
        ro.append(k)
    data, issues = (PUT if put else POST).parse_request(body={"schemas": [T_URN], "id": "1", "cm": rows})
    sx.check(not issues.has_issues(), "the body is proper")
    got = data.body["cm"]
    sx.check([g["value"] for g in got] == [r["value"] for r in rows], "items are kept")
    for g, r in zip(got, ro):
        sx.check((g["b"] is Missing) == bool(put or not r), "read-only sub-attributes of every item")


@harness("C14", quick={"n": 12}, thorough={"n": 40}, bounds="n items of a multi-valued complex attribute, one of which, anywhere, lacks a required sub-attribute or has a read-only one",
         reach=["ok", "missing"])
def many_items(sx, n):
    put = sx.pick("put", 2)
    i = sx.pick("at", n)
    v = sx.string("v", 0, 1)
    rows = [{"value": "x", "sv": "x"} for _ in range(n)]
    rows[i]["value"] = v
    data, issues = (QPUT if put else QPOST).parse_request(body={**full(sx), "cm": rows})
    for k in range(n):
        sx.check(has_at(issues, "body", "cm", k) == (k == i and v == ""), "required sub-attributes of every item")
    sx.check(issues.has_issues() == (v == "") and (data.body is None) == (v == ""), "nothing else is reported")
    sx.reach("missing" if v == "" else "ok")
    rows = [{"value": str(k)} for k in range(n)]
    rows[i]["b"] = v
    data, issues = (PUT if put else POST).parse_request(body={"schemas": [T_URN], "id": "1", "cm": rows})
    sx.check(not issues.has_issues() and len(data.body["cm"]) == n, "the body is proper")
    for k, g in enumerate(data.body["cm"]):
        sx.check(g["value"] == str(k), "items are kept")
        sx.check((g["b"] is Missing) == (bool(put) or k != i), "read-only sub-attributes of every item")


def every(mutability, pre):
    return [Attribute(name=pre + n, type_=t, multi_valued=m, mutability=mutability) for n, t, m in (
        ("b", at.Boolean, False), ("n", at.Integer, False), ("s", at.String, False), ("ms", at.String, True), ("mn", at.Integer, True), ("d", at.Decimal, False))]


BOTH = every(AttributeMutability.READ_ONLY, "r") + every(AttributeMutability.READ_WRITE, "w")
ANY = Res(BOTH + [ComplexAttribute(name="c", sub_attributes=BOTH), ComplexAttribute(name="cm", multi_valued=True, sub_attributes=BOTH)])
ANY.with_extension(ext(BOTH + [ComplexAttribute(name="ec", sub_attributes=BOTH)]))
ANYPUT, ANYPOST = ResourceObjectPUT(CONFIG, resource_schema=ANY), ResourcesPOST(CONFIG, resource_schema=ANY)


@harness("C14", bounds="read-only and writable attributes of six types, with any integer, boolean, text of at most one character, null or list of at most one of them, at the top level, in "
         "complex attributes, in items and in the extension", reach=["ro", "rw"])
def any_value(sx):
    put = sx.pick("put", 2)
    pre = sx.choice("mutability", ["r", "w"])
    kind = sx.choice("kind", ["b", "n", "s", "ms", "mn", "d"])
    how = sx.choice("how", ["value", "null", "empty"]) if kind in ("ms", "mn") else sx.choice("how", ["value", "null"])
    if how == "null":
        v = None
    elif how == "empty":
        v = []
    else:
        v = bool(sx.bool("v")) if kind == "b" else sx.string("v", 0, 1, chars="ab") if kind in ("s", "ms") else sx.int("v", -2, 2)
        v = [v] if kind in ("ms", "mn") else v
    where = sx.choice("where", ["top", "c", "cm", "ext", "ec"])
    name = pre + kind
    part = {name: v, "wd": 1}
    if pre + kind == "wd":
        part = {name: v}
    body = {"schemas": [T_URN, X_URN], "id": "1", **({"top": part, "c": {"c": part}, "cm": {"cm": [part, {"ws": "z"}]}, "ext": {X_URN: part}, "ec": {X_URN: {"ec": part}}}[where])}
    data, issues = (ANYPUT if put else ANYPOST).parse_request(body=body)
    sx.check(not issues.has_issues(), "the body is proper")
    d = data.body.to_dict()
    got = {"top": lambda: d, "c": lambda: d["c"], "cm": lambda: d["cm"][0], "ext": lambda: d[X_URN], "ec": lambda: d[X_URN]["ec"]}[where]()
    if pre == "r" and put:
        sx.reach("ro")
        sx.check(name not in got, "a read-only attribute is dropped, whatever its value")
    else:
        sx.reach("rw")
        sx.check(name in got and (got[name] is None if v is None else got[name] == v), "other values are kept")
    sx.check("wd" in got, "so are other attributes")
