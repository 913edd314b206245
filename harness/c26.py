"""C26: status, Location and meta of responses with one resource"""
from symx.api import harness
from harness import validators as V
from harness.common import CONFIG, Res, codes_at, has_at, ext, AttrRep, T_URN
from src.attributes_presence import AttributePresenceChecker

EXPECTED = {"GET": (V.GET, 200), "PUT": (V.PUT, 200), "POST": (V.POST, 201), "PATCH": (V.PATCH, 200)}


@harness("C26", bounds="GET, PUT, POST, PATCH; any status 100..599; Location header present, absent or among others; meta, meta.location and meta.resourceType "
         "present or not with any short text", reach=["ok", "status", "header", "location", "type"], budget=2)
def consistency(sx):
    m = sx.choice("method", list(EXPECTED))
    v, want = EXPECTED[m]
    status = sx.int("status", 100, 599)
    if m == "PATCH":
        sx.assume(status != 204)
    body = V.resource()
    mk = sx.pick("meta", 4)
    mloc, typ = None, "T"
    if mk == 0:
        del body["meta"]
    else:
        mloc = sx.string("mloc", 0, 2, chars="/ab") if mk & 1 else None
        typ = sx.string("type", 0, 2, chars="TtU") if mk & 2 else "T"
        body["meta"] = {}
        if mk & 1:
            body["meta"]["location"] = mloc
        if mk & 2:
            body["meta"]["resourceType"] = typ
    hk = sx.pick("headers", 4)
    hloc = sx.string("hloc", 1, 2, chars="/ab") if hk == 3 else None
    headers = [None, {}, {"ETag": "x"}, {"ETag": "x", "Location": hloc}][hk]
    data, issues = v.dump_response(status_code=status, body=body, headers=headers)
    bad_status = status != want
    lack = m == "POST" and hk != 3
    differ = hk == 3 and (mloc is None or mloc != hloc)
    bad_type = typ != "T"
    sx.check(bool(codes_at(issues, "status")) == bad_status, "the status is the one of the method")
    sx.check((10 in codes_at(issues, "headers", "Location")) == lack, "a created resource needs a Location header")
    sx.check((11 in codes_at(issues, "headers", "Location")) == differ, "a Location header and meta.location are the same")
    sx.check((11 in codes_at(issues, "body", "meta", "location")) == differ, "or it is reported at both")
    sx.check((17 in codes_at(issues, "body", "meta", "resourceType")) == bad_type, "meta.resourceType is the name of the type")
    good = not (bad_status or lack or differ or bad_type)
    sx.check(issues.has_issues() == (not good) and (data.body is None) == (not good), "nothing else is reported")
    if hk > 1:
        sx.check(data.headers == headers, "headers are passed on")
    if good:
        sx.reach("ok")
        sx.check(data.body["id"] == "1" and data.body["req"] == "x", "the resource is passed on")
    else:
        for label, c in (("status", bad_status), ("header", lack), ("location", differ), ("type", bad_type)):
            if c:
                sx.reach(label)


@harness("C26", bounds="any status of a deletion, and of a modification without content with or without requested attributes", reach=["deleted", "not", "nocontent"])
def no_content(sx):
    if sx.pick("m", 2):
        status = sx.int("status", 100, 599)
        h = sx.choice("h", [None, {"a": "b"}])
        data, issues = V.DELETE.dump_response(status_code=status, headers=h)
        sx.check(bool(codes_at(issues, "status")) == (status != 204) and issues.has_issues() == (status != 204), "a deletion answers 204")
        sx.check(data.body is None and data.headers == h, "without a body")
        sx.reach("deleted" if status == 204 else "not")
    else:
        p = sx.choice("checker", [None, AttributePresenceChecker(), AttributePresenceChecker([AttrRep(attr="s")], True),
                                  AttributePresenceChecker([AttrRep(attr="s")], False)])
        asked = p is not None and bool(p.attr_reps)
        body = V.resource() if sx.pick("body", 2) else None
        data, issues = V.PATCH.dump_response(status_code=204, body=body, headers={"a": "b"}, presence_checker=p)
        sx.check(bool(codes_at(issues, "status")) == asked and issues.has_issues() == asked, "content has to be there when attributes were asked for")
        sx.check(data.body is None and data.headers == {"a": "b"}, "without a body")
        sx.reach("nocontent")


@harness("C26", bounds="the id of a resource, in requests and responses: any text of 0..7 characters over {b,u,l,k,I,d,-}, null or absent", reach=["ok", "bad", "reserved"])
def identifier(sx):
    body = V.resource()
    k = sx.pick("k", 4)
    good = False
    if k == 0:
        body["id"] = i = sx.string("id", 0, 3, chars="buI")
        good = i != ""
    elif k == 1:
        body["id"] = None
    elif k == 2:
        del body["id"]
    else:
        body["id"] = i = sx.string("pre", 0, 1) + sx.case("id", "bulk") + sx.choice("rest", ["Id", "id", "ID", "I"]) + sx.string("post", 0, 1)
        good = "bulkId" not in i
        if not good:
            sx.reach("reserved")
    if sx.pick("dir", 2):
        data, issues = V.PUT.parse_request(body=body)
    else:
        data, issues = V.GET.dump_response(status_code=200, body=body)
    sx.check(bool(codes_at(issues, "body", "id")) == (not good) and issues.has_issues() == (not good), "a resource has an id without the reserved word")
    sx.check((data.body is None) == (not good), "the body is passed on")
    sx.reach("ok" if good else "bad")
