"""C01: parsing a request never raises"""
from symx.api import harness

from harness import kinds as K
from harness.common import CONFIG, Res, X_URN, ext, fields
from src.request_validators import (
    BulkOperations,
    ResourceObjectGET,
    ResourceObjectPATCH,
    ResourceObjectPUT,
    ResourcesGET,
    ResourcesPOST,
    ResourceTypesGET,
    SchemasGET,
    SearchRequestPOST,
    ServerRootResourceGET,
)

R = Res()
R2 = Res()
R2.with_extension(ext())
PATCH = ResourceObjectPATCH(CONFIG, resource_schema=R)
PUT = ResourceObjectPUT(CONFIG, resource_schema=R2)
POST = ResourcesPOST(CONFIG, resource_schema=R2)
GET = ResourceObjectGET(CONFIG, resource_schema=R)
LIST = ResourcesGET(CONFIG, resource_schema=R)
ROOT = ServerRootResourceGET(CONFIG, resource_schemas=[R, R2])
SEARCH = SearchRequestPOST(CONFIG, resource_schemas=[R])
BULK = BulkOperations(CONFIG, resource_schemas=[R])
SCHEMAS = SchemasGET(CONFIG)
RTYPES = ResourceTypesGET(CONFIG)


def total(sx, v, **kw):
    data, issues = v.parse_request(**kw)
    sx.check(issues.has_issues() in (True, False), "no verdict")
    return data, issues


def scalar(sx, name):
    return sx.json(name, depth=0, kinds="nbis", slen=(0, 1), chars="ab")


def small(sx, name):
    return sx.json(name, depth=1, kinds="nislxd", slen=(0, 1), chars="ab", keys=["a", "value"])


@harness("C01", bounds="any JSON-like body of depth <= 2", reach=["ok", "issues"])
def any_body(sx):
    v = sx.choice("validator", [PUT, POST, PATCH, SEARCH, BULK, GET, LIST, SCHEMAS])
    body = sx.json("body", depth=2, kinds="nbifxsld", slen=(0, 1), chars="a\u00e9", nlist=1,
                   keys=["schemas", "Operations", "filter", "s", "urn:t:T"])
    data, issues = total(sx, v, body=body)
    sx.reach("issues" if issues.has_issues() else "ok")


@harness("C01", quick={"depth": 1}, thorough={"depth": 2}, bounds="resource bodies: any subset of the attributes, any small JSON value for one of them",
         reach=["ok", "issues"])
def resource_body(sx, depth):
    v = sx.choice("validator", [PUT, POST])
    key = sx.choice("key", ["schemas", "id", "s", "n", "mv", "c", "cm", "meta", "ro", X_URN, "urn:t:T", ""])
    rest = sx.pick("rest", 2)
    val = sx.json("val", depth=depth, kinds="nbfxsld", slen=(0, 1), chars="a:", nlist=1,
                  keys=["value", "a", "b", "e", "primary", "created"])
    body = {"req": "x", "schemas": ["urn:t:T"], "id": "1"} if rest else {}
    body[key] = val
    data, issues = total(sx, v, body=body)
    sx.reach("issues" if issues.has_issues() else "ok")


PATHS = ["s", "S", "ro", "c", "c.a", "C.b", "cm", "cm.value", "mv", "zz", "cm.zz", "c.a.b", "", "cm[", "cm[]",
         'cm[type eq "a"]', 'cm[type eq "a"].value', 'cm[type eq "a"].zz', 'not cm[type pr]', 'cm[value pr] or s pr',
         'cm[type eq "a"]value', 's[type pr]', 'c[a pr].a', "urn:t:T:s", "urn:t:T:cm[value pr].type", "meta.created"]


@harness("C01", quick={"depth": 1}, thorough={"depth": 2}, bounds="PATCH bodies: one operation, any op/path/value of small JSON or from a list of paths",
         reach=["ok", "issues"], budget=2)
def patch_op(sx, depth):
    item = {}
    k = sx.pick("opkind", 6)
    if k >= 2:
        item["op"] = sx.case("op", ["add", "remove", "replace", "bad"][k - 2])
    elif k == 1:
        item["op"] = scalar(sx, "op.v")
    p = sx.pick("path", len(PATHS) + 2)
    if p >= 2:
        item["path"] = PATHS[p - 2]
    elif p == 1:
        item["path"] = scalar(sx, "path.v")
    if sx.pick("value?", 2):
        item["value"] = sx.json("value", depth=depth, kinds="nbsxld", slen=(0, 1), chars="a", nlist=1,
                                keys=["value", "s", "cm", "c"])
    body = {"schemas": ["urn:ietf:params:scim:api:messages:2.0:PatchOp"], "Operations": [item]}
    data, issues = total(sx, PATCH, body=body)
    sx.reach("issues" if issues.has_issues() else "ok")


@harness("C01", bounds="PATCH path: every text of at most n characters over the path alphabet",
         quick={"n": 3}, thorough={"n": 5}, reach=["ok", "issues"])
def patch_path_text(sx, n):
    path = sx.string("path", 0, n, chars="sc.[]:\" $")
    op = sx.choice("op", ["add", "remove", "replace"])
    body = {"schemas": ["urn:ietf:params:scim:api:messages:2.0:PatchOp"],
            "Operations": [{"op": op, "path": path, "value": "x"}]}
    data, issues = total(sx, PATCH, body=body)
    sx.reach("issues" if issues.has_issues() else "ok")


def bulk_item(sx, name):
    k = sx.pick(name + ".shape", 3)
    if k == 0:
        return scalar(sx, name)
    item = {}
    m = sx.pick(name + ".method", 7)
    if m >= 2:
        item["method"] = ["GET", "POST", "PUT", "PATCH", "DELETE"][m - 2]
    elif m == 1:
        item["method"] = sx.choice(name + ".badmethod", [None, 5, "post", "X", [], {}])
    p = sx.pick(name + ".path", 9)
    if p:
        item["path"] = ["/Ts", "/Ts/1", "Ts", "", None, 5, "/zz/1", "/Ts/"][p - 1]
    if sx.pick(name + ".bulkId", 2):
        item["bulkId"] = "q"
    d = sx.pick(name + ".data", 5)
    if d:
        item["data"] = [None, 5, [], {"req": "x", "schemas": ["urn:t:T"]}][d - 1]
    return item


@harness("C01", bounds="BULK bodies: one operation of any method/path/data shape, plus a second malformed one",
         reach=["ok", "issues"], budget=2)
def bulk_op(sx):
    ops = [bulk_item(sx, "op0")]
    if sx.pick("second", 2):
        ops.append(sx.choice("second.v", [5, {"method": "POST", "path": "/Ts"}]))
    body = {"schemas": ["urn:ietf:params:scim:api:messages:2.0:BulkRequest"], "Operations": ops}
    data, issues = total(sx, BULK, body=body)
    sx.reach("issues" if issues.has_issues() else "ok")


@harness("C01", quick={"slen": 1, "nlist": 1}, thorough={"slen": 2, "nlist": 2}, bounds="query strings: any small JSON value of every query parameter", reach=["ok", "issues"])
def query_string(sx, slen, nlist):
    v = sx.choice("validator", [GET, PUT, PATCH, LIST, RTYPES])
    kind = sx.pick("kind", 3)
    if kind == 0:
        qs = scalar(sx, "qs")
    else:
        key = sx.choice("key", ["attributes", "excludeAttributes", "filter", "sortBy", "sortOrder", "count",
                                "startIndex", "zz"])
        qs = {key: sx.json("val", depth=1, kinds="nbixsld", slen=(0, slen), chars="a.1 (", nlist=nlist)}
        if kind == 2:
            qs[sx.choice("key2", ["attributes", "sortBy"])] = "s"
    data, issues = total(sx, v, query_string=qs, headers=sx.choice("headers", [None, 5]))
    sx.reach("issues" if issues.has_issues() else "ok")


@harness("C01", quick={"slen": 1}, thorough={"slen": 2}, bounds="search requests: any small JSON value of every attribute", reach=["ok", "issues"])
def search_body(sx, slen):
    key = sx.choice("key", ["attributes", "excludeAttributes", "filter", "sortBy", "sortOrder", "count",
                            "startIndex", "schemas"])
    body = {key: sx.json("val", depth=1, kinds="nbixsld", slen=(0, slen), chars="a.1 (", nlist=2)}
    if sx.pick("two", 2):
        body[sx.choice("key2", ["attributes", "sortBy", "sortOrder"])] = sx.choice("val2", ["s", ["s"], 1])
    data, issues = total(sx, SEARCH, body=body)
    sx.reach("issues" if issues.has_issues() else "ok")


K_PUT, K_POST, K_PATCH, K_BULK = (ResourceObjectPUT(CONFIG, resource_schema=K.SCHEMA), ResourcesPOST(CONFIG, resource_schema=K.SCHEMA),
                                  ResourceObjectPATCH(CONFIG, resource_schema=K.SCHEMA), BulkOperations(CONFIG, resource_schemas=[K.SCHEMA]))


@harness("C01", quick={"depth": 0}, thorough={"depth": 1}, bounds="an attribute of every type, single- or multi-valued, plain or in a complex attribute, with any "
         "small JSON value or one of 23 extreme ones (huge numbers, infinities, lone surrogates, odd URLs and dates), in PUT, POST, PATCH and bulk requests",
         reach=["ok", "issues"])
def every_type(sx, depth):
    body = {}
    k, v, form = K.put(sx, body, depth)
    kind = sx.pick("request", 4 if form == 0 else 2)
    if kind == 0:
        body.update({"schemas": ["urn:t:T"], "id": "1"})
        data, issues = total(sx, [K_PUT, K_POST][form % 2], body=body)
    elif kind < 3:
        op = {"op": ["add", "replace"][form % 2], "value": body}
        if kind == 1:
            key = next(iter(body))
            op.update({"path": key, "value": body[key]})
        data, issues = total(sx, K_PATCH, body={"schemas": ["urn:ietf:params:scim:api:messages:2.0:PatchOp"], "Operations": [op]})
    else:
        body["schemas"] = ["urn:t:T"]
        data, issues = total(sx, K_BULK, body={"schemas": ["urn:ietf:params:scim:api:messages:2.0:BulkRequest"],
                                               "Operations": [{"method": "POST", "bulkId": "q", "path": "/Ts", "data": body}]})
    sx.reach("issues" if issues.has_issues() else "ok")
