"""C03: a processed body comes back exactly when there are no issues"""
from symx.api import harness
from harness import validators as V
from harness.common import X_URN
from src.data.container import SCIMDataContainer


def facets(sx, wrong):
    """facet(name, good, bad): the good value, or one of the bad ones, at most `wrong` times per run"""
    left = [wrong]

    def facet(name, good, bad):
        if not left[0]:
            return good
        k = sx.pick(name, len(bad) + 1)
        if k:
            left[0] -= 1
        return good if k == 0 else bad[k - 1]
    return facet


ABSENT = object()


def body_of(**kw):
    return {k: v for k, v in kw.items() if v is not ABSENT}


def verdict(sx, data, issues, want_type):
    bad = issues.has_issues()
    sx.reach("issues" if bad else "ok")
    sx.check(bad == (data.body is None), "the body is returned exactly when there are no issues")
    sx.check(bad or isinstance(data.body, want_type), "type of the returned body")
    d = issues.to_dict()
    sx.check(bad == (len(d) > 0), "issues are listed exactly when there are any")
    return bad


def json_value(sx, name):
    return sx.json(name, depth=1, kinds="nbisld", slen=(0, 1), chars="a", nlist=1, keys=["value", "a"])


@harness("C03", quick={"wrong": 2}, thorough={"wrong": 9}, bounds="PUT and POST bodies with every combination of right and wrong facets, one attribute any JSON value",
         reach=["ok", "issues"], budget=2)
def resource_request(sx, wrong):
    facet = facets(sx, wrong)
    v = sx.choice("validator", [V.PUT, V.POST])
    body = body_of(schemas=facet("schemas", ["urn:t:T", X_URN], [["urn:t:T"], [], ["urn:zz"], 5, ABSENT]),
                   id=facet("id", "1", ["bulkId:1", ABSENT]), req=facet("req", "x", ["", 5, ABSENT]))
    body[X_URN] = {"e": sx.choice("e", ["x", 5])}
    if facet("extra", 0, [1]):
        body[sx.choice("key", ["s", "n", "cm", "ro", "zz"])] = json_value(sx, "val")
    qs = facet("qs", None, [{"attributes": "s", "excludeAttributes": "n"}])
    data, issues = v.parse_request(body=body, query_string=qs)
    verdict(sx, data, issues, SCIMDataContainer)


@harness("C03", quick={"wrong": 2}, thorough={"wrong": 9}, bounds="PATCH bodies with one or two operations, right or wrong", reach=["ok", "issues"])
def patch_request(sx, wrong):
    facet = facets(sx, wrong)
    def op(i):
        return body_of(op=facet(f"op{i}", "add", ["replace", "remove", "zz", 5, ABSENT]),
                       path=facet(f"path{i}", "s", ["cm[type eq \"a\"].value", "zz", "ro", "req", 5, ABSENT]),
                       value=facet(f"value{i}", "x", [5, {"s": "x"}, {"ro": "x"}, [{"value": "x"}], ABSENT]))
    ops = [op(0)]
    if sx.pick("two", 2):
        ops.append(sx.choice("second", [{"op": "add", "path": "s", "value": "x"}, {"op": "add", "path": "s"}, 5]))
    body = body_of(schemas=facet("schemas", [V.PATCH_URN], [["urn:zz"], ABSENT]), Operations=ops)
    data, issues = V.PATCH.parse_request(body=body)
    verdict(sx, data, issues, SCIMDataContainer)


@harness("C03", quick={"wrong": 2}, thorough={"wrong": 9}, bounds="bulk requests of one to three operations, right or wrong", reach=["ok", "issues"])
def bulk_request(sx, wrong):
    facet = facets(sx, wrong)
    def op(i):
        k = sx.pick(f"kind{i}", 6)
        good = facet(f"data{i}", {"schemas": ["urn:t:T"], "req": "x", "id": "1"}, [{"schemas": ["urn:t:T"]}, ABSENT])
        if k == 0:
            return body_of(method="POST", path="/Ts", bulkId=facet(f"bulkId{i}", "q", [ABSENT]), data=good)
        if k == 1:
            return body_of(method="PUT", path="/Ts/1", data=good)
        if k == 2:
            return body_of(method="PATCH", path="/Ts/1",
                           data={"schemas": [V.PATCH_URN], "Operations": [{"op": "add", "path": "s", "value": "x"}]})
        if k == 3:
            return {"method": "DELETE", "path": "/Ts/1"}
        if k == 4:
            return {"method": "GET", "path": "/Ts/1"}
        return {"method": "DELETE", "path": facet(f"path{i}", "/Ts/1", ["Ts", "/Ts", 5])}
    ops = [op(0)]
    for _ in range(sx.pick("more", 3)):
        ops.append({"method": "DELETE", "path": "/Ts/1"})
    body = body_of(schemas=facet("schemas", [V.BULK_URN], [["urn:zz"]]), Operations=ops)
    data, issues = V.BULK.parse_request(body=body)
    verdict(sx, data, issues, SCIMDataContainer)


@harness("C03", quick={"wrong": 2}, thorough={"wrong": 9}, bounds="search requests with one attribute of any JSON value", reach=["ok", "issues"])
def search_request(sx, wrong):
    facet = facets(sx, wrong)
    body = {"schemas": facet("schemas", [V.SEARCH_URN], [["urn:zz"]])}
    body[sx.choice("key", ["filter", "sortBy", "count", "startIndex", "attributes", "excludeAttributes"])] = \
        sx.json("val", depth=1, kinds="nbisl", slen=(0, 2), chars="a.(", nlist=1)
    data, issues = V.SEARCH.parse_request(body=body)
    verdict(sx, data, issues, SCIMDataContainer)


@harness("C03", quick={"wrong": 2}, thorough={"wrong": 9}, bounds="resource responses with every combination of right and wrong facets", reach=["ok", "issues"], budget=2)
def resource_response(sx, wrong):
    facet = facets(sx, wrong)
    v = sx.choice("validator", [V.GET, V.PUT, V.POST, V.PATCH])
    body = body_of(schemas=facet("schemas", ["urn:t:T"], [["urn:zz"], [], ABSENT]),
                   id=facet("id", "1", [5, ABSENT]), req=facet("req", "x", [5, ABSENT]),
                   meta=facet("meta", {"location": "/Ts/1"}, [{"location": "/Ts/2"}, {"resourceType": "zz"}, 5]))
    if facet("extra", 0, [1]):
        body[sx.choice("key", ["s", "n", "cm", "sec"])] = json_value(sx, "val")
    good = 201 if v is V.POST else 200
    status = facet("status", good, [203])
    data, issues = v.dump_response(status_code=status, body=body,
                                   headers=facet("headers", {"Location": "/Ts/1"}, [None]))
    verdict(sx, data, issues, dict)


@harness("C03", quick={"wrong": 2}, thorough={"wrong": 9}, bounds="list responses with right and wrong counters, items and query arguments", reach=["ok", "issues"])
def list_response(sx, wrong):
    facet = facets(sx, wrong)
    v = sx.choice("validator", [V.LIST, V.SEARCH, V.ROOT])
    n = sx.pick("n", 3)
    items = [V.resource(s="a", schemas=["urn:t:T"]) for _ in range(n)]
    if n:
        items[0]["s"] = facet("s", "b", ["a", 5])
    body = body_of(schemas=facet("schemas", [V.LIST_URN], [["urn:zz"]]),
                   totalResults=sx.choice("total", [0, 1, 2, 5, "x"]),
                   startIndex=facet("start", ABSENT, [1, 2]), itemsPerPage=facet("ipp", ABSENT, [n]),
                   Resources=facet("res", items, [ABSENT]))
    kw = sx.choice("args", [{}, {"filter_": V.filters()[1]}, {"sorter": V.sorters()[1]}, {"count": 1},
                            {"presence_checker": V.checkers()[2]}])
    data, issues = v.dump_response(status_code=facet("status", 200, [404]), body=body, **kw)
    verdict(sx, data, issues, dict)


@harness("C03", quick={"wrong": 2}, thorough={"wrong": 9}, bounds="error responses", reach=["ok", "issues"])
def error_response(sx, wrong):
    facet = facets(sx, wrong)
    body = body_of(schemas=facet("schemas", [V.ERROR_URN], [["urn:zz"], ABSENT]),
                   status=facet("status", "404", ["200", "299", "300", "599", "600", 404, "x", ABSENT]),
                   scimType=facet("scimType", ABSENT, ["invalidFilter", "zz"]),
                   detail=facet("detail", ABSENT, ["x", 5]))
    data, issues = V.ERROR.dump_response(status_code=sx.choice("code", [404, 400, 200, 299, 300, 599, 600]), body=body)
    verdict(sx, data, issues, dict)


@harness("C03", quick={"wrong": 2}, thorough={"wrong": 9}, bounds="bulk responses of one operation", reach=["ok", "issues"])
def bulk_response(sx, wrong):
    facet = facets(sx, wrong)
    m = sx.choice("method", ["POST", "PUT", "DELETE", "GET"])
    op = body_of(method=m, bulkId=facet("bulkId", "q", [ABSENT]),
                 location=facet("location", "https://h/Ts/1", ["https://h/zz/1", "https://h/Ts/2", "/Ts/1", ABSENT]),
                 status=sx.choice("status", ["200", "201", "204", "404", "x"]),
                 version=facet("version", ABSENT, ["W"]))
    r = sx.pick("response", 4)
    if r:
        op["response"] = [V.resource(meta={"location": "https://h/Ts/1"}), V.resource(meta={"version": "V", "location": "https://h/Ts/1"}),
                          {"schemas": [V.ERROR_URN], "status": "404"}][r - 1]
    data, issues = V.BULK.dump_response(status_code=facet("code", 200, [404]), fail_on_errors=facet("f", None, [0]),
                                        body={"schemas": [V.BULK_RESP_URN], "Operations": [op]})
    verdict(sx, data, issues, (dict, SCIMDataContainer))


REQ_PARTS = [(V.PUT, ["schemas", "req", "cm", "c"]), (V.POST, ["schemas", "req", "mv", X_URN]), (V.PATCH, ["schemas", "Operations"]),
             (V.BULK, ["schemas", "Operations", "failOnErrors"]), (V.SEARCH, ["schemas", "attributes", "count"])]
GOOD = {V.PUT: V.resource(), V.POST: V.resource(), V.SEARCH: {"schemas": [V.SEARCH_URN]},
        V.PATCH: {"schemas": [V.PATCH_URN], "Operations": [{"op": "add", "path": "s", "value": "x"}]},
        V.BULK: {"schemas": [V.BULK_URN], "Operations": [{"method": "DELETE", "path": "/Ts/1"}]}}
RESP_PARTS = [(V.GET, ["schemas", "meta", "c"]), (V.POST, ["schemas", "mv"]), (V.LIST, ["schemas", "Resources", "totalResults", "itemsPerPage", "startIndex"]),
              (V.BULK, ["schemas", "Operations"]), (V.ERROR, ["schemas", "status", "scimType"]), (V.SCHEMAS, ["schemas", "Resources"])]
GOOD_RESP = {V.GET: V.resource(), V.POST: V.resource(), V.LIST: {"schemas": [V.LIST_URN], "totalResults": 1, "Resources": [V.resource(schemas=["urn:t:T"])]},
             V.BULK: {"schemas": [V.BULK_RESP_URN], "Operations": [{"method": "DELETE", "status": "204", "location": "https://h/Ts/1"}]},
             V.ERROR: {"schemas": [V.ERROR_URN], "status": "404"}, V.SCHEMAS: {"schemas": [V.LIST_URN], "totalResults": 0}}


@harness("C03", quick={"depth": 1}, thorough={"depth": 2}, bounds="requests and responses of every kind, good but for the whole body or one main part of it, which is any "
         "small JSON value or absent; a request of every kind also with a good or bad query", reach=["ok", "issues"])
def shapes(sx, depth):
    request = sx.pick("request", 2)
    v, parts = sx.choice("validator", REQ_PARTS if request else RESP_PARTS)
    good = (GOOD if request else GOOD_RESP)[v]
    k = sx.pick("part", len(parts) + 2)
    kinds = dict(kinds="nbisld", slen=(0, 1), chars="a0", nlist=1, keys=["value", "Operations", "op", "schemas"])
    if k == 0:
        body = good
    elif k == 1:
        body = sx.json("body", depth=depth, **kinds)
    else:
        body = {a: b for a, b in good.items() if a != parts[k - 2]}
        if sx.pick("absent", 2) == 0:
            body[parts[k - 2]] = sx.json("part!", depth=depth, **kinds)
    if request:
        qs = sx.choice("query", [None, {"attributes": "s", "excludeAttributes": "n"}]) if v in (V.PUT, V.POST, V.PATCH) else None
        data, issues = v.parse_request(body=body, query_string=qs)
        bad = verdict(sx, data, issues, SCIMDataContainer)
        sx.check(k or bad == (qs is not None), "a good request is passed on, unless its query is bad")
    else:
        status = sx.choice("status", [404, 200, 201])
        data, issues = v.dump_response(status_code=status, body=body, **({} if v is V.ERROR or v is V.LIST or v is V.BULK or v is V.SCHEMAS
                                                                          else {"headers": {"Location": "/Ts/1"}}))
        if v is V.POST and not body:
            return      # an empty answer to a creation is passed on as it is
        bad = verdict(sx, data, issues, (dict, SCIMDataContainer))
        sx.check(k or bad == (status != {V.POST: 201, V.ERROR: 404}.get(v, 200)), "a good response is passed on, unless its status is wrong")
