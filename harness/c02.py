"""C02: dumping a response never raises; C03 is checked on the same runs"""
from symx.api import harness
from harness import kinds as K
from harness import validators as V
from harness.common import CONFIG, X_URN
from src.data.container import AttrRep
from src.filter import Filter
from src.request_validators import ResourceObjectGET, ResourcesGET
from src.sorter import Sorter


def small(sx, name, depth=1, keys=("a", "value")):
    return sx.json(name, depth=depth, kinds="nbxsld", slen=(0, 1), chars="a:", nlist=1, keys=list(keys))


def dump(sx, v, **kw):
    data, issues = v.dump_response(**kw)
    bad = issues.has_issues()
    sx.reach("issues" if bad else "ok")
    sx.check(not bad or data.body is None, "a response body came with issues")
    return data, issues, bad


@harness("C02", quick={"depth": 1}, thorough={"depth": 2},
         bounds="any JSON-like body, any status, with and without headers, of every validator",
         reach=["issues", "ok"])
def any_body(sx, depth):
    v = sx.choice("validator", [V.GET, V.POST, V.PATCH, V.LIST, V.BULK, V.ERROR, V.SCHEMAS])
    body = sx.json("body", depth=depth + 1, kinds="nbxsld", slen=(0, 1), chars="a", nlist=1,
                   keys=["schemas", "Operations", "Resources", "status", "meta"])
    dump(sx, v, status_code=sx.choice("status", [200, 404]), body=body)


@harness("C02", quick={"depth": 1}, thorough={"depth": 2},
         bounds="a valid resource with any small JSON value for one attribute", reach=["issues", "ok"])
def resource_body(sx, depth):
    v = sx.choice("validator", [V.GET, V.POST])
    key = sx.choice("key", ["schemas", "id", "s", "n", "sec", "mv", "c", "cm", "meta", X_URN, "urn:t:T"])
    body = V.resource()
    body[key] = sx.json("val", depth=depth, kinds="nbfxsld", slen=(0, 1), chars="a:", nlist=1,
                        keys=["value", "a", "b", "e", "primary", "created", "location"])
    dump(sx, v, status_code=200 if v is V.GET else 201, body=body, headers={"Location": "/Ts/1"},
         presence_checker=sx.choice("checker", V.checkers()))


@harness("C02", bounds="any headers, status and requested attributes of a resource response", reach=["issues", "ok"])
def headers(sx):
    v = sx.choice("validator", [V.GET, V.PUT, V.POST, V.PATCH])
    h = sx.choice("headers", [None, 5, "x", [], {}, {"Location": "/Ts/1"}, {"Location": None}, {"Location": 5}])
    meta = sx.choice("meta", [{"location": "/Ts/1"}, {"location": 5}, 5, None, {}])
    dump(sx, v, status_code=sx.int("status"), body=V.resource(meta=meta), headers=h,
         presence_checker=sx.choice("checker", V.checkers()))


@harness("C02", quick={"depth": 1}, thorough={"depth": 2},
         bounds="list responses: any shape of Resources, of the counters and of the query arguments",
         reach=["issues", "ok"], budget=2)
def list_body(sx, depth):
    which = sx.pick("which", 4)
    if which == 3:
        item = V.resource(schemas=[small(sx, "urn0", depth)] + (["urn:t:T"] if sx.pick("more", 2) else []))
        body = {"schemas": [V.LIST_URN], "totalResults": 1, "Resources": [item]}
        dump(sx, sx.choice("multi", [V.ROOT, V.SEARCH]), status_code=200, body=body)
        return
    v = sx.choice("validator", [V.LIST, V.ROOT]) if which == 2 else V.LIST
    body = {"schemas": [V.LIST_URN], "totalResults": 1, "Resources": [V.resource()]}
    kw = {}
    if which == 0:
        item = V.resource()
        key = sx.choice("key", ["s", "n", "cm", "schemas", "c", "mv"])
        item[key] = small(sx, "val", depth)
        body["Resources"] = [item, V.resource(s="a")] if sx.pick("two", 2) else [item]
        body["totalResults"] = len(body["Resources"])
        fs, ss = V.filters(), V.sorters()
        k = sx.pick("arg", len(fs) + len(ss))
        kw = dict(filter_=fs[k]) if k < len(fs) else dict(sorter=ss[k - len(fs)])
    elif which == 1:
        body[sx.choice("key", ["totalResults", "startIndex", "itemsPerPage", "Resources", "schemas"])] = \
            small(sx, "val", depth)
        kw = dict(start_index=sx.int("start"), count=sx.choice("count", [None, 0, 1]))
    else:
        body["Resources"] = [small(sx, "item", depth, ["schemas", "s"])]
        kw = sx.choice("args", [{}, dict(filter_=V.filters()[1], sorter=V.sorters()[1]),
                                dict(presence_checker=V.checkers()[1])])
    dump(sx, v, status_code=200, body=body, **kw)


@harness("C02", bounds="bulk responses: one operation with any method, status, location, version and response shape",
         reach=["issues", "ok"], budget=2)
def bulk_body(sx):
    item = {}
    m = sx.pick("method", 8)
    if m >= 3:
        item["method"] = ["GET", "POST", "PUT", "PATCH", "DELETE"][m - 3]
    elif m:
        item["method"] = ["post", 5][m - 1]
    item["bulkId"] = "q"
    for key, vals in (("location", ["/Ts/1", "/zz/1", 5]), ("version", ["W"]),
                      ("status", ["200", "201", "404", "x", 5, "20.5"])):
        k = sx.pick(key, len(vals) + 1)
        if k:
            item[key] = vals[k - 1]
    r = sx.pick("response", 7)
    if r:
        item["response"] = [None, 5, [], {}, V.resource(), {"schemas": [V.ERROR_URN], "status": "404"}][r - 1]
    dump(sx, V.BULK, status_code=200, body={"schemas": [V.BULK_RESP_URN], "Operations": [item]},
         fail_on_errors=0)


@harness("C02", bounds="error responses: any small JSON value of every attribute, any status", reach=["issues", "ok"])
def error_body(sx):
    body = {"schemas": [V.ERROR_URN], "status": "404"}
    key = sx.choice("key", ["status", "scimType", "detail", "schemas", "zz"])
    body[key] = sx.json("val", depth=1, kinds="nbifxsld", slen=(0, 3), chars="04a", nlist=1)
    data, issues, bad = dump(sx, V.ERROR, status_code=sx.choice("status", [404, 200, 0, -1, 600]), body=body,
                             headers=sx.choice("headers", [None, 5, {}]))


@harness("C02", bounds="DELETE responses with any status", reach=["issues", "ok"])
def delete(sx):
    s = sx.int("status")
    data, issues, bad = dump(sx, V.DELETE, status_code=s, headers=None)
    sx.check(sx.Iff(s != 204, bad), "a DELETE response has the status 204")


K_GET, K_LIST = ResourceObjectGET(CONFIG, resource_schema=K.SCHEMA), ResourcesGET(CONFIG, resource_schema=K.SCHEMA)


@harness("C02", quick={"depth": 0}, thorough={"depth": 1}, bounds="an attribute of every type, single- or multi-valued, plain or in a complex attribute, with any "
         "small JSON value or one of 23 extreme ones (huge numbers, infinities, lone surrogates, odd URLs and dates), in a resource or in a list filtered and sorted by it",
         reach=["ok", "issues"])
def every_type(sx, depth):
    body = {"schemas": ["urn:t:T"], "id": "1", "meta": {"resourceType": "T", "location": "/Ts/1"}}
    k, v, form = K.put(sx, body, depth)
    if sx.pick("list", 2):
        name = k if k in body else ("c." if "c" in body else "cm.") + k
        flt = Filter.parse(name + sx.choice("filter", [" gt 1", ' ne "a"']))[0]
        dump(sx, K_LIST, status_code=200, body={"schemas": [V.LIST_URN], "totalResults": 2, "Resources": [body, dict(body, id="2")]},
             filter_=flt, sorter=Sorter(AttrRep.parse(name), form % 2 == 0))
    else:
        dump(sx, K_GET, status_code=200, body=body)
