"""C20: bulk responses"""
from symx.api import harness
from harness import validators as V
from harness.common import CONFIG, Res, at, Attribute, codes_at, has_at, SCIMDataContainer
from src.request_validators import BulkOperations

T = Res()
U = Res([Attribute(name="u", type_=at.Integer, required=True)], schema="urn:u:U", name="U", plural_name="Tss")
BULK = BulkOperations(CONFIG, resource_schemas=[T, U])
OP = ("body", "Operations")
METHODS = ["GET", "POST", "PUT", "PATCH", "DELETE"]
RES = ("Ts", "Tss")
OKAY = {"GET": "200", "POST": "201", "PUT": "200", "PATCH": "200", "DELETE": "204"}


def bulk(*ops, status=200, **kw):
    return BULK.dump_response(status_code=status, body={"schemas": [V.BULK_RESP_URN], "Operations": list(ops)}, **kw)


def resource(res="Ts", loc=None, version=None, **kw):
    d = {"schemas": ["urn:t:T"], "id": "1", "req": "x"} if res == "Ts" else {"schemas": ["urn:u:U"], "id": "1", "u": 1}
    meta = {"resourceType": "T" if res == "Ts" else "U", "location": loc or f"https://h/{res}/1"}
    if version is not None:
        meta["version"] = version
    d["meta"] = meta
    d.update(kw)
    return d


def error(status, **kw):
    return {"schemas": [V.ERROR_URN], "status": status, **kw}


@harness("C20", bounds="one operation of every method, or none; any three-digit status, present, null, absent, of a wrong type or not a "
         "number; bulkId, location and response present or not", reach=["ok", "bad", "failed"], budget=2)
def members(sx):
    m = sx.choice("method", METHODS + [None])
    op, bad = {}, set()
    if m:
        op["method"] = m
    else:
        bad.add("method")
    has = {k: bool(sx.pick(k, 2)) for k in ("bulkId", "location", "response")}
    sk = sx.pick("sk", 5)
    failed = False
    typed = False
    if sk == 0:
        d = sx.string("status", 3, chars="0123456789")
        sx.assume(d[0] != "0")
        op["status"] = d
        failed = d >= "300"
    elif sk == 1:
        op["status"] = None
        bad.add("status")
    elif sk == 2:
        op["status"] = sx.int("status")
        bad.add("status")
        typed = True
    elif sk == 3:
        op["status"] = sx.string("status", 1, 3, chars="ax.")
        bad.add("status")
        typed = True
    else:
        bad.add("status")
    if has["bulkId"]:
        op["bulkId"] = "b"
    elif m == "POST":
        bad.add("bulkId")
    if has["location"]:
        op["location"] = "https://h/Ts/1"
    elif m and sk == 0 and (m != "POST" or not failed):
        bad.add("location")
    if has["response"]:
        op["response"] = error(op["status"]) if failed else resource()
    elif sk == 0 and failed:
        bad.add("response")
    if sk == 0 and failed:
        if has["response"] and m and op["status"] >= "600":
            bad |= {"status"}
    elif sk == 0 and has["response"] and has["location"] and m in ("GET", "POST", "PUT", "PATCH"):
        sx.assume(op["status"] == OKAY[m])           # other statuses: see 'statuses'
    data, issues = bulk(op)
    for key in ("method", "status", "bulkId", "location", "response"):
        r = has_at(issues, *OP, 0, key)
        if typed:
            sx.check(r if key == "status" else not r or key in bad or (key == "location"), "a status that is no number is reported")
        else:
            sx.check(r == (key in bad), "what lacks or is wrong is reported at its place")
    sx.check(issues.has_issues() == bool(bad) and (data.body is None) == bool(bad), "nothing else is reported")
    sx.reach("bad" if bad else "ok")
    if failed:
        sx.reach("failed")


@harness("C20", bounds="a successful operation with a resource and any three-digit status", reach=["ok", "bad"])
def statuses(sx):
    m = sx.choice("method", ["GET", "POST", "PUT"])
    st = sx.string("status", 3, chars="0123456789")
    sx.assume(sx.And(st[0] != "0", st < "300"))
    data, issues = bulk({"method": m, "status": st, "bulkId": "b", "location": "https://h/Ts/1", "response": resource()})
    good = st == OKAY[m]
    sx.check(has_at(issues, *OP, 0, "status") == (not good), "a status that does not belong to the method is reported")
    if good:
        sx.reach("ok")
        sx.check(not issues.has_issues() and data.body["Operations"][0]["response"]["req"] == "x", "the resource is passed on")
    else:
        sx.reach("bad")
        sx.check(data.body is None, "the body is withheld")


@harness("C20", bounds="a successful operation; location of any resource name of 1..4 characters over {T,s}; "
         "below two bases; meta.location and the version of operation and resource equal, different or absent", reach=["ok", "unknown", "loc", "ver"], budget=2)
def consistency(sx):
    m = sx.choice("method", METHODS)
    name = sx.string("name", 1, 4, chars="Ts")
    loc = sx.choice("base", ["https://h/", "http://h:80/v2/a-b/"]) + name + "/" + sx.string("id", 1, chars="12")
    op = {"method": m, "status": OKAY[m], "bulkId": "b", "location": loc}
    known = name in RES
    if m == "DELETE":
        data, issues = bulk(op)
        sx.check(codes_at(issues, *OP, 0, "location") == ([] if known else [36]), "unknown resources are reported")
        sx.check(issues.has_issues() == (not known), "nothing else is reported")
        return
    res = name if known else "Ts"
    rloc = sx.choice("rloc", [loc, "https://h/Ts/1", "https://h/Tss/1"])
    vers = sx.pick("vers", 4)
    ov, rv = sx.string("ov", 1, chars="aAb"), sx.string("rv", 1, chars="aAb")
    if vers & 1:
        op["version"] = ov
    op["response"] = resource("Tss" if known and name == "Tss" else "Ts", rloc, rv if vers & 2 else None)
    data, issues = bulk(op)
    if not known:
        sx.reach("unknown")
        sx.check(36 in codes_at(issues, *OP, 0, "location") and data.body is None, "unknown resources are reported")
        return
    mismatch = rloc != loc
    vbad = sx.And(vers == 3, ov != rv)
    sx.check((11 in codes_at(issues, *OP, 0, "location")) == mismatch, "locations that differ are reported at the operation")
    sx.check((11 in codes_at(issues, *OP, 0, "response", "meta", "location")) == mismatch, "and at the resource")
    if not mismatch:
        sx.check((11 in codes_at(issues, *OP, 0, "version")) == vbad, "versions that differ are reported at the operation")
        sx.check((11 in codes_at(issues, *OP, 0, "response", "meta", "version")) == vbad, "and at the resource")
    good = sx.And(not mismatch, sx.Not(vbad))
    sx.check(sx.And(issues.has_issues() == sx.Not(good), (data.body is None) == sx.Not(good)), "nothing else is reported")
    if good:
        sx.reach("ok")
        out = data.body["Operations"][0]
        sx.check(out["location"] == loc and out["method"] == m and out["status"] == OKAY[m], "the operation is passed on")
        sx.check(out["response"]["meta.location"] == loc and out["response"]["id"] == "1", "with its resource")
    elif mismatch:
        sx.reach("loc")
    else:
        sx.reach("ver")


@harness("C20", bounds="a failed operation of every method; any status 300..599, any three-digit status in its error; scimType right or "
         "wrong; a resource instead of an error", reach=["ok", "mismatch", "type", "resource"])
def failures(sx):
    m = sx.choice("method", METHODS)
    st = sx.string("status", 3, chars="0123456789")
    sx.assume(sx.And(st >= "300", st < "600"))
    op = {"method": m, "status": st, "bulkId": "b", "location": "https://h/Ts/1"}
    k = sx.pick("k", 3)
    if k == 0:
        es = sx.string("estatus", 3, chars="0123456789")
        op["response"] = error(es, detail="x")
        data, issues = bulk(op)
        good = es == st
        sx.check(has_at(issues, *OP, 0, "response", "status") == (not good), "statuses that differ are reported at the error")
        sx.check(has_at(issues, *OP, 0, "status") == (not good), "and at the operation")
        sx.check(issues.has_issues() == (not good), "nothing else is reported")
        if good:
            sx.reach("ok")
            sx.check(data.body["Operations"][0]["response"] == error(st, detail="x"), "the error is passed on")
        else:
            sx.reach("mismatch")
            sx.check(data.body is None, "the body is withheld")
    elif k == 1:
        sx.reach("type")
        op["response"] = error(st, scimType=sx.choice("type", ["bogus", 1]))
        data, issues = bulk(op)
        sx.check(bool(codes_at(issues, *OP, 0, "response", "scimType")) and data.body is None, "wrong error types are reported")
    else:
        sx.reach("resource")
        op["response"] = resource()
        data, issues = bulk(op)
        sx.check(has_at(issues, *OP, 0, "response") and data.body is None, "a resource is no error")


@harness("C20", bounds="a successful operation with a resource of either type, an attribute of it of any kind, absent or null", reach=["ok", "bad"])
def bodies(sx):
    m = sx.choice("method", ["GET", "POST", "PUT", "PATCH"])
    res = sx.choice("res", RES)
    r = resource(res)
    key = sx.choice("key", ["req", "n", "mv", "sec"]) if res == "Ts" else "u"
    typ = {"req": "s", "n": "i", "mv": "l", "sec": "", "u": "i"}[key]
    k = sx.choice("kind", ["s", "i", "l", "absent", "null"])
    if k == "absent":
        r.pop(key, None)
    elif k == "null":
        r[key] = None
    else:
        r[key] = {"s": lambda: sx.string("v", 1, 2), "i": lambda: sx.int("v"), "l": lambda: [sx.string("v", 1)]}[k]()
    good = k == typ or (k in ("absent", "null") and key not in ("req", "u"))
    data, issues = bulk({"method": m, "status": OKAY[m], "bulkId": "b", "location": f"https://h/{res}/1", "response": r})
    sx.check(has_at(issues, *OP, 0, "response", key) == (not good), "what is wrong with the resource is reported in the response")
    sx.check(issues.has_issues() == (not good) and (data.body is None) == (not good), "nothing else is reported")
    if good:
        sx.reach("ok")
        if k == typ:
            sx.check(data.body["Operations"][0]["response"][key] == r[key], "values are kept")
    else:
        sx.reach("bad")


@harness("C20", quick={"n": 3}, thorough={"n": 4}, bounds="0..n operations of five kinds in any order, any status of the response as a whole, "
         "any number of tolerated errors", reach=["ok", "bad", "many"], budget=2)
def sequences(sx, n):
    m = sx.pick("n", n + 1)
    ops, bad, ks = [], {}, []
    for i in range(m):
        k = sx.pick(f"k{i}", 5)
        ks.append(k)
        if k == 0:
            ops.append({"method": "POST", "bulkId": f"b{i}", "status": "201", "location": f"https://h/Ts/{i}",
                        "response": resource("Ts", f"https://h/Ts/{i}", req=f"x{i}")})
        elif k == 1:
            ops.append({"method": "DELETE", "status": "204", "location": f"https://h/Tss/{i}"})
        elif k == 2:
            st = sx.choice(f"st{i}", ["300", "399", "404", "599"]) if i == 0 else "404"
            ops.append({"method": "PUT", "status": st, "location": f"https://h/Ts/{i}", "response": error(st, detail=f"d{i}")})
        elif k == 3:
            ops.append({"method": "GET", "status": "200", "location": "https://h/Q/1", "response": resource()})
            bad[i] = ("location",)
        else:
            ops.append({"method": "POST", "status": "400", "response": error("400")})
            bad[i] = ("bulkId",)
    n_errors = sum(k in (2, 4) for k in ks)
    status = sx.int("status", 100, 599)
    kw = {}
    many = False
    if sx.pick("foe?", 2):
        kw["fail_on_errors"] = f = sx.int("foe", 0)
        many = n_errors > f
    data, issues = bulk(*ops, status=status, **kw)
    for i in range(m):
        sx.check(has_at(issues, *OP, i) == (i in bad), "issues are reported at the operation that has them")
        if i in bad:
            sx.check(bool(codes_at(issues, *OP, i, *bad[i])), "and at their place in it")
    if m:
        sx.check((38 in codes_at(issues, *OP)) == many, "too many errors are reported")
        sx.check(bool(codes_at(issues, "status")) == (status != 200), "the status of the whole is 200")
    good = not bad and m > 0 and not many and status == 200
    sx.check(issues.has_issues() == (not good), "nothing else is reported")
    if many:
        sx.reach("many")
    if good:
        sx.reach("ok")
        out = data.body["Operations"]
        sx.check(len(out) == m, "every operation is there")
        for i, k in enumerate(ks):
            sx.check(out[i]["method"] == ops[i]["method"] and out[i]["status"] == ops[i]["status"], "in its place")
            if k == 0:
                sx.check(out[i]["response"]["req"] == f"x{i}" and out[i]["bulkId"] == f"b{i}", "with its resource")
            elif k == 2:
                sx.check(out[i]["response"]["detail"] == f"d{i}", "with its error")
    else:
        sx.check(data.body is None, "the body is withheld")
        sx.reach("bad")


@harness("C20", quick={"n": 12}, thorough={"n": 40}, bounds="n operations, half of which failed, all proper but one, anywhere; any number of tolerated errors", reach=["ok", "bad", "many"])
def many(sx, n):
    i = sx.pick("at", n)
    k = sx.pick("k", 5)
    ops, errors = [], 0
    for j in range(n):
        if j % 2:
            ops.append({"method": "PUT", "status": "404", "location": f"https://h/Ts/{j}", "response": error("404", detail=f"d{j}")})
        else:
            ops.append({"method": "POST", "bulkId": f"b{j}", "status": "201", "location": f"https://h/Ts/{j}",
                        "response": resource("Ts", f"https://h/Ts/{j}", req=f"x{j}")})
    where = None
    if k == 1:
        ops[i] = {"method": "GET", "status": "200", "location": "https://h/Q/1", "response": resource()}
        where = ("location",)
    elif k == 2:
        ops[i] = {"method": "POST", "status": "400", "response": error("400")}
        where = ("bulkId",)
    elif k == 3:
        ops[i] = {"method": "PUT", "status": "404", "location": f"https://h/Tss/{i}", "response": error("405")}
        where = ("status",)
    elif k == 4:
        ops[i] = {"method": "GET", "status": "200", "location": f"https://h/Ts/{i}", "response": resource("Ts", f"https://h/Ts/{i + 1}")}
        where = ("location",)
    errors = sum(o["status"] >= "300" for o in ops)
    f = sx.int("foe", 0)
    data, issues = bulk(*ops, fail_on_errors=f)
    for j in range(n):
        sx.check(has_at(issues, *OP, j) == (j == i and where is not None), "issues are reported at the operation that has them")
    if where:
        sx.check(bool(codes_at(issues, *OP, i, *where)), "and at their place in it")
    many_ = errors > f
    sx.check((38 in codes_at(issues, *OP)) == many_, "too many errors are reported")
    good = where is None and not many_
    sx.check(issues.has_issues() == (not good) and (data.body is None) == (not good), "nothing else is reported")
    if many_:
        sx.reach("many")
    sx.reach("ok" if good else "bad")
    if good:
        out = data.body["Operations"]
        sx.check(len(out) == n, "every operation is there")
        for j in range(n):
            sx.check(out[j]["method"] == ops[j]["method"] and out[j]["location"] == ops[j]["location"], "in its place")
            if j % 2:
                sx.check(out[j]["response"]["detail"] == f"d{j}", "with its error")
            else:
                sx.check(out[j]["response"]["req"] == f"x{j}" and out[j]["bulkId"] == f"b{j}", "with its resource")


@harness("C20", quick={"n": 3}, thorough={"n": 6}, bounds="versions of at most n characters over letters of both cases, quotes, blanks and the characters of weak ETags", reach=["same", "differ"])
def versions(sx, n):
    m = sx.choice("method", ["POST", "PUT", "PATCH", "GET"])
    ov, rv = sx.string("ov", 1, n, chars='aAW/" -'), sx.string("rv", 1, n, chars='aAW/" -')
    op = {"method": m, "status": OKAY[m], "bulkId": "b", "location": "https://h/Ts/1", "version": ov, "response": resource("Ts", "https://h/Ts/1", rv)}
    data, issues = bulk(op)
    same = ov == rv
    sx.reach("same" if same else "differ")
    sx.check(codes_at(issues, *OP, 0, "version") == ([] if same else [11]), "versions that differ are reported at the operation")
    sx.check(codes_at(issues, *OP, 0, "response", "meta", "version") == ([] if same else [11]), "and at the resource")
    sx.check(issues.has_issues() != same and (data.body is None) != same, "nothing else is reported")


@harness("C20", quick={"n": 2}, thorough={"n": 4}, bounds="locations of an operation and of its resource which end in any n characters over letters of both cases and delimiters", reach=["same", "differ"])
def locations(sx, n):
    m = sx.choice("method", ["POST", "PUT", "PATCH", "GET"])
    a, b = ["https://h/Ts/" + sx.string(x, 1, n, chars="aA1/-") for x in ("op", "res")]
    data, issues = bulk({"method": m, "status": OKAY[m], "bulkId": "b", "location": a, "response": resource("Ts", b)})
    same = a == b
    sx.reach("same" if same else "differ")
    sx.check(codes_at(issues, *OP, 0, "location") == ([] if same else [11]), "locations that differ are reported at the operation")
    sx.check(codes_at(issues, *OP, 0, "response", "meta", "location") == ([] if same else [11]), "and at the resource")
    sx.check(issues.has_issues() != same and (data.body is None) != same, "nothing else is reported")
