"""C29: validators leave what they are given alone and keep no memory of earlier requests"""
from symx.api import harness
from harness import validators as V
from copy import deepcopy
from datetime import datetime, timezone

from harness.common import CONFIG, Attribute, AttributeMutability, ComplexAttribute, Res, X_URN, T_URN, at, ext, SCIMDataContainer, AttrRep
from src.attributes_presence import AttributePresenceChecker
from src.data.path import PatchPath
from src.filter import Filter
from src.request_validators import BulkOperations, ResourceObjectPATCH, ResourceObjectPUT, ResourcesGET, ResourcesPOST
from src.sorter import Sorter

S_URN = "urn:ietf:params:scim:schemas:core:2.0:Schema"
BULK = BulkOperations(CONFIG, resource_schemas=[V.R])


def value(sx, name):
    return sx.json(name, depth=1, kinds="nisld", slen=(0, 1), chars="aB", nlist=1, keys=["a", "value"])


def resource(v, w):
    return {"schemas": [T_URN, X_URN], "id": "1", "req": "x", "s": v, "c": {"a": w, "b": 1, "zz": 2}, "ro": "r", "zz": [1],
            "cm": [{"value": "1", "type": v}, {"VALUE": "2", "primary": True}], "mv": ["a", "B"], X_URN: {"e": w, "zz": 1},
            "meta": {"location": "https://h/Ts/1", "resourceType": "T"}}


def patch(v, w):
    return {"schemas": [V.PATCH_URN], "Operations": [
        {"op": "Add", "path": "cm", "value": [{"value": "1", "zz": 1, "type": w}]}, {"op": "replace", "value": {"s": v, "c": {"a": w}}},
        {"op": "remove", "path": 'cm[value eq "1"].type'}, {"op": "add", "path": "s", "value": v}]}


def bulk(v, w):
    return {"schemas": [V.BULK_URN], "Operations": [
        {"method": "PUT", "path": "/Ts/1", "data": {"schemas": [T_URN], "id": "1", "req": "x", "s": v, "ro": "r"}},
        {"method": "GET", "path": "/Ts/1", "data": {"zz": w}}]}


def bulk_patch(v, w):
    return {"schemas": [V.BULK_URN], "Operations": [{"method": "PATCH", "path": "/Ts/1", "data": patch(v, w)}]}


def search(v, w):
    return {"schemas": [V.SEARCH_URN], "attributes": ["s", "c.a"], "filter": 's eq "a"', "sortBy": "s", "sortOrder": "descending", "count": v, "startIndex": w}


def bulk_response(v, w):
    r = resource(v, w)
    r["schemas"] = [T_URN]
    del r[X_URN]
    return {"schemas": [V.BULK_RESP_URN], "Operations": [
        {"method": "PUT", "location": "https://h/Ts/1", "status": "200", "response": r},
        {"method": "DELETE", "location": "https://h/Ts/1", "status": "404", "response": {"schemas": [V.ERROR_URN], "status": "404", "detail": v}}]}


def listing(v, w):
    a, b = resource(v, w), resource(w, v)
    for r in (a, b):
        r["schemas"] = [T_URN]
        del r[X_URN]
        r.pop("ro")
    return {"schemas": [V.LIST_URN], "totalResults": 2, "Resources": [a, b]}


def schema_list(v, w):
    attr = {"name": "x", "type": "complex", "multiValued": False, "description": v, "required": True, "caseExact": True, "mutability": "readWrite",
            "returned": "default", "uniqueness": "none", "subAttributes": [
                {"name": "y", "type": "integer", "multiValued": False, "description": w, "required": True, "caseExact": True,
                 "mutability": "readWrite", "returned": "default", "uniqueness": "none"}]}
    return {"schemas": [V.LIST_URN], "totalResults": 1, "Resources": [{"schemas": [S_URN], "id": "i", "name": "T", "attributes": [attr]}]}


def error(v, w):
    return {"schemas": [V.ERROR_URN], "status": "400", "detail": v, "scimType": w}


QUERY = {"attributes": "s,c", "filter": 's eq "a"', "sortBy": "s", "count": "5", "startIndex": "1"}
REQUESTS = {
    "PUT": (V.PUT, resource), "POST": (V.POST, resource), "PATCH": (V.PATCH, patch), "BULK": (BULK, bulk), "BULKP": (BULK, bulk_patch),
    "SEARCH": (V.SEARCH, search), "LIST": (V.LIST, None), "GET": (V.GET, None)}
RESPONSES = {"PUT": (V.PUT, 200, resource), "POST": (V.POST, 201, resource), "GET": (V.GET, 200, resource), "BULK": (BULK, 200, bulk_response),
             "LIST": (V.LIST, 200, listing), "SEARCH": (V.SEARCH, 200, listing), "SCHEMAS": (V.SCHEMAS, 200, schema_list),
             "ERROR": (V.ERROR, 400, error)}


def run_request(kind, body, q):
    v = REQUESTS[kind][0]
    return v.parse_request(body=body, query_string=q, headers={"h": "v"})


def run_response(kind, body, headers, kw):
    v, status, _ = RESPONSES[kind]
    return v.dump_response(status_code=status, body=body, headers=headers, **kw)


def plain(x):
    if isinstance(x, SCIMDataContainer):
        x = x.to_dict()
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, list):
        return [plain(v) for v in x]
    return x


def same(sx, d1, i1, d2, i2):
    sx.check(i1.to_dict() == i2.to_dict(), "the same issues again")
    b1, b2 = d1.body, d2.body
    sx.check((b1 is None) == (b2 is None) and sorted(k for k in plain(b1) or {}) == sorted(k for k in plain(b2) or {}), "the same body again")


def compare(sx, kind, d1, d2):
    """bodies without the parts that are objects of their own (filters, paths)"""
    if d1.body is None or kind in ("PATCH", "BULKP", "SEARCH"):
        return
    sx.check(plain(d1.body) == plain(d2.body), "with the same content")


@harness("C29", bounds="requests of every kind with any two JSON values in them, good or bad", reach=["ok", "bad"], budget=2)
def requests(sx):
    kind = sx.choice("kind", list(REQUESTS))
    make = REQUESTS[kind][1]
    if make is None:
        body = ref = None
    else:
        v = value(sx, "v")
        w = sx.string("w", 0, 1, chars="aB")
        body, ref = make(v, w), make(v, w)
    q, qref = dict(QUERY), dict(QUERY)
    d1, i1 = run_request(kind, body, q)
    sx.check(body == ref, "the body given is left as it was")
    sx.check(q == qref, "and so is the query")
    d2, i2 = run_request(kind, body, q)
    same(sx, d1, i1, d2, i2)
    compare(sx, kind, d1, d2)
    sx.check(body == ref and q == qref, "still")
    sx.reach("bad" if i1.has_issues() else "ok")


@harness("C29", bounds="responses of every kind with any two JSON values in them, good or bad", reach=["ok", "bad"], budget=2)
def responses(sx):
    kind = sx.choice("kind", list(RESPONSES))
    make = RESPONSES[kind][2]
    v = value(sx, "v")
    w = sx.string("w", 0, 1, chars="aB") if kind != "ERROR" else sx.choice("w", ["tooMany", "TOOMANY", "x"])
    body, ref = make(v, w), make(v, w)
    headers = {"Location": "https://h/Ts/1"}
    kw = {}
    if kind in ("LIST", "SEARCH"):
        kw = {"filter_": Filter.parse("req pr")[0], "sorter": Sorter(AttrRep(attr="n"), True), "presence_checker": AttributePresenceChecker([AttrRep(attr="zz")], False)}
    d1, i1 = run_response(kind, body, headers, kw)
    sx.check(body == ref, "the body given is left as it was")
    sx.check(headers == {"Location": "https://h/Ts/1"}, "and so are the headers")
    d2, i2 = run_response(kind, body, headers, kw)
    same(sx, d1, i1, d2, i2)
    compare(sx, kind, d1, d2)
    sx.check(body == ref, "still")
    sx.reach("bad" if i1.has_issues() else "ok")


@harness("C29", bounds="any other request or response, good or bad, of the same validators in between two equal ones", reach=["ok", "bad"], budget=2)
def memory(sx):
    kind = sx.choice("kind", list(REQUESTS))
    make = REQUESTS[kind][1]
    v = (sx.string("v", 0, 1, chars="aB") if sx.pick("vk", 2) else sx.int("v")) if make else None
    body = make(v, "a") if make else None
    q = dict(QUERY)
    d1, i1 = run_request(kind, body, q)
    other = sx.pick("other", 3)
    bad = sx.choice("bad", [5, "a"])
    if other == 0:
        k2 = sx.choice("kind2", list(REQUESTS))
        m2 = REQUESTS[k2][1]
        run_request(k2, m2(bad, "a") if m2 else None, {"excludeAttributes": ["n"], "count": 1})
    elif other == 1:
        k2 = sx.choice("kind2", list(RESPONSES))
        run_response(k2, RESPONSES[k2][2](bad, "a"), None, {})
    else:
        run_request(kind, sx.choice("junk", [None, {}, 5, {"schemas": ["x"]}]), None)
    d2, i2 = run_request(kind, body, q)
    same(sx, d1, i1, d2, i2)
    compare(sx, kind, d1, d2)
    sx.reach("bad" if i1.has_issues() else "ok")


@harness("C29", bounds="filters and sorters of seven kinds applied to two resources with any texts and integers, one after another", reach=["done"])
def queries(sx):
    n, m, a, b = sx.int("n"), sx.int("m"), sx.string("a", 1, chars="aB"), sx.string("b", 1, chars="aB")

    def make():
        return [SCIMDataContainer({"id": "1", "s": a, "n": n, "mv": [a, b], "cm": [{"value": a, "type": b}, {"value": b}], "c": {"a": a}}),
                SCIMDataContainer({"id": "2", "s": b, "n": m, "mv": [b, a], "cm": [{"value": b, "primary": True}, {"value": a}], "c": {"a": b}})]

    data, ref = make(), make()
    f = Filter.parse(sx.choice("f", ['s eq "a"', 'not (n gt 5) and mv eq "a"', 'cm[value eq "a" and type pr]', 'c.a co "b"', "cm pr"]))[0]
    s = Sorter(sx.choice("s", [AttrRep(attr="n"), AttrRep(attr="cm"), AttrRep(attr="mv"), AttrRep(attr="c", sub_attr="a")]), sx.choice("asc", [True, False]))
    r1 = [bool(f(x, V.R, False)) for x in data]
    o1 = [x["id"] for x in s(data, V.R)]
    for x, y in zip(data, ref):
        sx.check(x == y, "filters and sorters leave resources as they were")
    sx.check([x["id"] for x in data] == ["1", "2"], "and the list of them")
    sx.check([bool(f(x, V.R, False)) for x in data] == r1 and [x["id"] for x in s(data, V.R)] == o1, "and say the same again")
    sx.reach("done")


C29 = Res([Attribute(name="s", type_=at.String), Attribute(name="ce", type_=at.String, case_exact=True)])


@harness("C29", quick=dict(n=3), thorough=dict(n=4), bounds="{n} attribute names, filters and paths with any names and literals of one and two letters in either case and spaces, read one after another",
         reach=["name", "filter", "path", "again"], budget=2)
def texts(sx, n):
    """what was read before does not show in what is read now: each text means what it spells, in whatever order they come"""
    what = sx.choice("what", ["name", "filter", "path"])
    seen = []
    for i in range(n):
        a = sx.string(f"a{i}", 1, chars="aA")
        w = sx.string(f"w{i}", 2, chars="aA ")
        sub = sx.bool(f"sub{i}")
        if what == "name":
            r = AttrRep.parse(a + ".b" if sub else a)
            sx.check(bool(r) and r.attr == a and r.sub_attr == ("b" if sub else ""), "the name read is the one spelled")
        elif what == "filter":
            f, issues = Filter.parse(f'{a}.b eq "{w}"' if sub else f'{a} eq "{w}"')
            sx.check(not issues.has_issues(), "a well-formed filter is read")
            leaf = {"op": "eq", "attr_rep": "b" if sub else a, "value": w}
            sx.check(f.to_dict() == ({"op": "complex", "attr_rep": a, "sub_op": leaf} if sub else leaf), "the filter read is the one spelled")
        else:
            p, issues = PatchPath.parse(f'{a}[b eq "{w}"].c' if sub else f'{a}[b eq "{w}"]')
            sx.check(not issues.has_issues(), "a well-formed path is read")
            sx.check(p.attr_rep.attr == a and p.complex_filter.to_dict()["sub_op"]["value"] == w
                     and (p.complex_filter_attr_rep.sub_attr == "c" if sub else p.complex_filter_attr_rep is None), "the path read is the one spelled")
        if any(a.lower() == x and w == y for x, y in seen):
            sx.reach("again")
        seen.append((a.lower(), w))
        sx.reach(what)


@harness("C29", quick=dict(n=3), thorough=dict(n=4), bounds="{n} requests or responses one after another, each of any of six kinds and with any text or integer in a text and in a complex attribute",
         reach=["ok", "bad", "ok after bad"], budget=2)
def history(sx, n):
    """the outcome of each is that of its own content"""
    bad_before = False
    for i in range(n):
        kind = sx.choice(f"kind{i}", ["PUT", "POST", "PATCH", "dump", "GET"])
        v = sx.string(f"v{i}", 0, 1, chars="aA") if sx.bool(f"text{i}") else sx.int(f"v{i}")
        w = sx.string(f"w{i}", 1, chars="aA")
        good = isinstance(v, str)
        if kind in ("PUT", "POST"):
            body = {"schemas": [T_URN], "id": "1", "req": "x", "s": v, "cm": [{"value": w}]}
            d, issues = REQUESTS[kind][0].parse_request(body=body)
            got = d.body and (d.body["s"], d.body["cm"][0]["value"])
            at = ("body", "s")
        elif kind == "PATCH":
            body = {"schemas": [V.PATCH_URN], "Operations": [{"op": "add", "path": f'cm[value eq "{w}"].type', "value": v}]}
            d, issues = V.PATCH.parse_request(body=body)
            got = d.body and (d.body["Operations"][0]["value"], d.body["Operations"][0]["path"].complex_filter.to_dict()["sub_op"]["value"])
            at = ("body", "Operations", 0, "value")
        elif kind == "dump":
            body = {"schemas": [T_URN], "id": "1", "req": "x", "s": v, "cm": [{"value": w}], "meta": {"location": "https://h/Ts/1", "resourceType": "T"}}
            d, issues = V.PUT.dump_response(status_code=200, body=body, headers={"Location": "https://h/Ts/1"})
            got = d.body and (d.body["s"], d.body["cm"][0]["value"])
            at = ("body", "s")
        else:
            d, issues = V.LIST.parse_request(query_string={"filter": f's eq "{w}"', "count": v})
            good = not isinstance(v, str)
            got = (not issues.has_issues()) and (v, d.query_string["filter"].to_dict()["value"])
            at = ("query_string", "count")
        sx.check(issues.has_issues() == (not good), "issues are those of this request or response")
        if good:
            sx.check(bool(got) and got[0] == v and got[1] == w, "and so is the content")
            sx.reach("ok after bad" if bad_before else "ok")
        else:
            sx.check(issues.has_issues(at), "at their own place")
            sx.reach("bad")
            bad_before = True


@harness("C29", quick=dict(n=2), thorough=dict(n=3), bounds="{n} filters with any literal of up to two letters applied to one resource after another, with any texts, on attributes with and without letter case, and {n} lists sorted one after another",
         reach=["match", "no match", "sorted"], budget=2)
def verdicts(sx, n):
    sort = sx.bool("sort")
    for i in range(n):
        a = sx.string(f"a{i}", 1, 2, chars="aAb")
        b = sx.string(f"b{i}", 1, 2, chars="aAb")
        attr = sx.choice(f"attr{i}", ["s", "S", "ce"])
        exact = attr == "ce"
        if sort:
            asc = sx.bool(f"asc{i}")
            order = [x["id"] for x in Sorter(AttrRep(attr=attr), bool(asc))([SCIMDataContainer({"id": "1", attr: a}), SCIMDataContainer({"id": "2", attr: b})], C29)]
            x, y = (a, b) if exact else (a.lower(), b.lower())
            swapped = x > y if asc else x < y
            sx.check(order == (["2", "1"] if swapped else ["1", "2"]), "sorted by their own values")
            sx.reach("sorted")
        else:
            f, _ = Filter.parse(f'{attr} eq "{a}"')
            got = bool(f(SCIMDataContainer({"id": "1", attr: b}), C29, True))
            want = a == b if exact else a.lower() == b.lower()
            sx.check(got == want, "selected by its own value")
            sx.reach("match" if got else "no match")


CONT = Res([Attribute(name="s", type_=at.String), Attribute(name="n", type_=at.Decimal), Attribute(name="mv", type_=at.String, multi_valued=True),
            Attribute(name="ro", type_=at.String, mutability=AttributeMutability.READ_ONLY), Attribute(name="ds", type_=at.DateTime, multi_valued=True),
            ComplexAttribute(name="c", sub_attributes=[Attribute(name="a", type_=at.String), Attribute(name="d", type_=at.DateTime),
                                                       Attribute(name="ro", type_=at.String, mutability=AttributeMutability.READ_ONLY)]),
            ComplexAttribute(name="cm", multi_valued=True, sub_attributes=[Attribute(name="value", type_=at.String), Attribute(name="ds", type_=at.DateTime, multi_valued=True)])])
CONT.with_extension(ext())
CONT_PUT = ResourceObjectPUT(CONFIG, resource_schema=CONT)
CONT_POST = ResourcesPOST(CONFIG, resource_schema=CONT)
CONT_LIST = ResourcesGET(CONFIG, resource_schema=CONT)
DATE = "2011-05-13T04:42:34Z"


@harness("C29", bounds="bodies given as containers, with any two JSON values among texts, dates, lists and items, parsed and dumped by schema and by validators",
         reach=["ok", "bad"], budget=2)
def containers(sx):
    how = sx.choice("how", ["parse", "dump", "PUT", "POST", "respond", "list"])
    v = value(sx, "v")
    w = sx.string("w", 0, 1, chars="aB")
    dates = how in ("parse", "PUT", "POST")

    def make():
        d = DATE if dates else datetime(2011, 5, 13, 4, 42, 34, tzinfo=timezone.utc)
        return SCIMDataContainer({"schemas": [T_URN, X_URN], "id": "1", "S": v, "n": 5, "mv": [w, "B"], "ro": "r", "ds": [d, d], "c": {"a": v, "d": d, "ro": "x", "zz": 1},
                                  "cm": [{"VALUE": w, "zz": 1, "ds": [d]}, {"value": v}], X_URN: {"E": w, "zz": 1, "en": 1}, "zz": [1],
                                  "meta": {"location": "https://h/Ts/1", "resourceType": "T"}})

    body, ref = make(), make()

    def run():
        if how in ("parse", "dump"):
            d, issues = getattr(CONT, how)(body)
        elif how in ("PUT", "POST"):
            d, issues = (CONT_PUT if how == "PUT" else CONT_POST).parse_request(body=body)
            d = d.body
        elif how == "respond":
            d, issues = CONT_PUT.dump_response(status_code=200, body=body, headers={"Location": "https://h/Ts/1"})
            d = d.body
        else:
            d, issues = CONT_LIST.dump_response(status_code=200, body={"schemas": [V.LIST_URN], "totalResults": 1, "Resources": [body]})
            d = d.body and d.body["Resources"][0]
        return d, issues

    d1, i1 = run()
    sx.check(body.to_dict() == ref.to_dict(), "the container given is left as it was")
    d2, i2 = run()
    sx.check(body.to_dict() == ref.to_dict(), "still")
    sx.check(i1.to_dict() == i2.to_dict(), "the same issues again")
    sx.check(plain(d1) == plain(d2), "and the same content")
    sx.reach("bad" if i1.has_issues() else "ok")


LAX, EXACT = [Res([Attribute(name="s", type_=at.String, case_exact=e), Attribute(name="ms", type_=at.String, case_exact=e, multi_valued=True),
                   ComplexAttribute(name="cm", multi_valued=True, sub_attributes=[Attribute(name="value", type_=at.String, case_exact=e)])]) for e in (False, True)]


@harness("C29", quick=dict(n=2), thorough=dict(n=3), bounds="one filter or sorter used {n} times, each for a schema with or without letter case, with any texts of one letter", reach=["match", "no match", "sorted"])
def reused(sx, n):
    """what is made once means the same every time"""
    lit = sx.string("lit", 1, chars="aAb")
    kind = sx.choice("kind", ["eq", "sw", "not", "cm", "ms", "and", "sort"])
    text = {"eq": 's eq "{}"', "sw": 's sw "{}"', "not": 'not (s eq "{}")', "cm": 'cm[value eq "{}"]', "ms": 'ms co "{}"', "and": 's eq "{}" and s pr', "sort": ""}[kind].replace("{}", lit)
    f = Sorter(AttrRep(attr="s")) if kind == "sort" else Filter.parse(text)[0]
    for i in range(n):
        exact = sx.pick(f"exact{i}", 2)
        schema = EXACT if exact else LAX
        v = sx.string(f"v{i}", 1, chars="aAb")
        if kind == "sort":
            order = [x["id"] for x in f([SCIMDataContainer({"id": "1", "s": lit}), SCIMDataContainer({"id": "2", "s": v})], schema)]
            swapped = v < lit if exact else v.lower() < lit.lower()
            sx.check(order == (["2", "1"] if swapped else ["1", "2"]), "sorted by the rules of the schema")
            sx.reach("sorted")
            continue
        got = bool(f(SCIMDataContainer({"s": v, "ms": [v], "cm": [{"value": v}]}), schema, True))
        same = v == lit if exact else v.lower() == lit.lower()
        sx.check(got == (same != (kind == "not")), "selected by the rules of the schema")
        sx.reach("match" if got else "no match")


@harness("C29", bounds="any text, integer or list of two for attributes with canonical values, which are enforced or not, parsed or dumped", reach=["done"])
def declarations(sx):
    """what a schema declares does not change by what it is used for"""
    given = ["a", "B"]
    strict = sx.pick("strict", 2)
    multi = sx.pick("multi", 2)
    exact = sx.pick("exact", 2)
    one = Attribute(name="v", type_=at.String, canonical_values=given, validate_canonical_values=bool(strict), multi_valued=bool(multi), case_exact=bool(exact))
    schema = Res([one, ComplexAttribute(name="c", sub_attributes=[one])])
    before = deepcopy([a.to_dict() for a in schema.attrs])
    text = sx.string("text", 0, 2, chars="aBc")
    v = [text, "a"] if multi else text
    body = {"schemas": [T_URN], "v": v, "c": {"v": v}}
    getattr(schema, sx.choice("way", ["parse", "dump"]))(body)
    sx.check([a.to_dict() for a in schema.attrs] == before, "the declaration is the same")
    sx.check(given == ["a", "B"], "so is what it was made of")
    sx.reach("done")
