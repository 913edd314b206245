"""C19: bulk requests"""
from symx.api import harness
from harness import validators as V
from harness.common import CONFIG, Res, at, Attribute, codes_at, has_at, Missing, SCIMDataContainer
from src.assets.config import create_service_provider_config
from src.request_validators import BulkOperations

T = Res()
U = Res([Attribute(name="u", type_=at.Integer, required=True)], schema="urn:u:U", name="U", plural_name="Tss")
BULK = BulkOperations(CONFIG, resource_schemas=[T, U])
OP = ("body", "Operations")
METHODS = ["GET", "POST", "PUT", "PATCH", "DELETE"]
RES = ("Ts", "Tss")


def bulk(*ops, **kw):
    return BULK.parse_request(body={"schemas": [V.BULK_URN], "Operations": list(ops), **kw})


def good_data(method, res="Ts"):
    if method == "PATCH":
        return {"schemas": [V.PATCH_URN], "Operations": [{"op": "add", "path": "s" if res == "Ts" else "u",
                                                          "value": "x" if res == "Ts" else 1}]}
    if method in ("POST", "PUT"):
        d = {"schemas": ["urn:t:T"], "req": "x"} if res == "Ts" else {"schemas": ["urn:u:U"], "u": 1}
        if method == "PUT":
            d["id"] = "1"
        return d
    return None


def word(c):
    return c != "/" and c != "-"


@harness("C19", quick={"n": 5}, thorough={"n": 6}, bounds="one operation of every method; any path over {/,T,s,-} of 0..n characters",
         reach=["ok", "form", "unknown"], budget=2)
def paths(sx, n):
    m = sx.choice("method", METHODS)
    k = sx.pick("n", n + 1)
    path = sx.string("path", k, chars="/Ts-")
    cs = [path[i] for i in range(k)]
    op = {"method": m, "path": path}
    if m == "POST":
        op["bulkId"] = "b"
    # the name of the resource type, if the path has the form required for the method
    if k < 2 or not cs[0] == "/":
        name = None
    else:
        j = 1
        while j < k and word(cs[j]):
            j += 1
        if j == 1:
            name = None
        elif m == "POST":
            name = path[1:j] if j == k else None
        else:
            name = path[1:j] if j < k and cs[j] == "/" else None
    known = name if name is not None and name in RES else None
    d = good_data(m, known or "Ts")
    if d is not None:
        op["data"] = d
    data, issues = bulk(op)
    if name is None:
        sx.reach("form")
        sx.check((34 if m == "POST" else 35) in codes_at(issues, *OP, 0, "path"), "paths of the wrong form are reported")
        sx.check(data.body is None, "the body is withheld")
    elif known is None:
        sx.reach("unknown")
        sx.check(codes_at(issues, *OP, 0, "path") == [36], "unknown resources are reported")
        sx.check(data.body is None, "the body is withheld")
    else:
        sx.reach("ok")
        sx.check(not issues.has_issues(), "nothing to report")
        out = data.body["Operations"][0]
        sx.check(out["path"] == path and out["method"] == m, "path and method are kept")
        if m in ("POST", "PUT"):
            sx.check(out["data"] == SCIMDataContainer({k: v for k, v in d.items() if m == "POST" or k not in ("id", "schemas")}),
                     "the data are those of the operation, processed by the schema of its path")


@harness("C19", bounds="one operation: any method (also in another letter case, unknown, of a wrong type or absent) x presence of path, "
         "bulkId, data and version, each right, null, absent or of a wrong type", reach=["ok", "bad"], budget=2)
def members(sx):
    mk = sx.pick("mk", 10)
    m = METHODS[mk] if mk < 5 else None
    op, bad, typed = {}, set(), set()
    if mk < 5:
        op["method"] = m
    elif mk == 5:
        op["method"] = sx.case("method", "post")
        if op["method"] == "POST":
            m = "POST"
        else:
            bad.add("method")
            typed.add("method")
    elif mk == 9:
        bad.add("method")
    else:
        op["method"] = sx.string("method", 0, 3) if mk == 6 else sx.int("method") if mk == 7 else None
        sx.assume(mk != 6 or sx.And(op["method"] != "GET", op["method"] != "PUT"))
        bad.add("method")
        if mk < 8:
            typed.add("method")
    states = {}
    for key, right, wrong in (("path", "/Ts" if m == "POST" else "/Ts/1", 1), ("bulkId", "b", True), ("data", good_data(m), None),
                              ("version", "v", 5)):
        n_states = 3 if key == "data" else 4
        st = states[key] = sx.pick(key, n_states if mk < 5 or key != "version" else 1)
        if st == 0:
            op[key] = right
        elif st == 1:
            op[key] = None
        elif st == 3:
            op[key] = wrong
            bad.add(key)
            typed.add(key)
    if states["path"] in (1, 2):
        bad.add("path")
    if m == "POST" and states["bulkId"] in (1, 2):
        bad.add("bulkId")
    if m in ("POST", "PUT", "PATCH") and states["data"] != 0:
        bad.add("data")
    data, issues = bulk(op)
    if typed:           # how the members belong together is only looked at when each is all right
        for key in ("method", "path", "bulkId", "data", "version"):
            r = bool(codes_at(issues, *OP, 0, key))
            sx.check(r if key in typed else not r or key in bad, "members that are wrong are reported, at their place")
    else:
        for key in ("method", "path", "bulkId", "data", "version"):
            sx.check(bool(codes_at(issues, *OP, 0, key)) == (key in bad), "members that lack are reported, at their place")
    sx.check(issues.has_issues() == bool(bad), "nothing else is reported")
    if bad:
        sx.reach("bad")
        sx.check(data.body is None, "the body is withheld")
    else:
        sx.reach("ok")
        out = data.body["Operations"][0]
        sx.check(out["method"] == m and out["path"] == op["path"], "method and path are kept")
        for key in ("bulkId", "version"):
            sx.check(out[key] is op[key] if key in op else out[key] is Missing, "bulkId and version are kept")
        if m in ("GET", "DELETE"):
            sx.check("data" not in out.to_dict(), "data of a reading or deleting operation are dropped")


@harness("C19", bounds="GET and DELETE with any data", reach=["kept"])
def no_data(sx):
    m = sx.choice("method", ["GET", "DELETE"])
    op = {"method": m, "path": "/Ts/1", "data": sx.json("data", 1, kinds="nbisld", slen=(0, 1), chars="ab", nlist=1, keys=("s",))}
    data, issues = bulk(op)
    sx.check(not issues.has_issues() and "data" not in data.body["Operations"][0].to_dict(), "data of such operations are dropped")
    sx.reach("kept")


@harness("C19", bounds="one operation with data for the resource of its path, right or wrong in an attribute of any kind, presence or "
         "type, for either resource", reach=["ok", "bad"], budget=2)
def bodies(sx):
    m = sx.choice("method", ["POST", "PUT", "PATCH"])
    res = sx.choice("res", RES)
    path = f"/{res}" + ("" if m == "POST" else "/1")
    right = sx.pick("vk", 2)
    if m == "PATCH":
        val = sx.string("v", 0, 1) if (right if res == "Ts" else 1 - right) else sx.int("v")
        body = {"schemas": [V.PATCH_URN], "Operations": [{"op": sx.choice("op", ["add", "replace"]), "path": "s" if res == "Ts" else "u",
                                                          "value": val}]}
        where = ("Operations", 0, "value")
        good = bool(right)
    else:
        body = good_data(m, res)
        key = "req" if res == "Ts" else "u"
        k = sx.pick("state", 3)
        where = (key,)
        good = k == 0 and bool(right)
        if k == 0:
            body[key] = sx.string("v", 1, 2) if (right if res == "Ts" else 1 - right) else sx.int("v")
        elif k == 1:
            del body[key]
        else:
            body[key] = None
    op = {"method": m, "path": path, "data": body, "bulkId": "b"}
    data, issues = bulk(op)
    sx.check(has_at(issues, *OP, 0, "data", *where) == (not good), "wrong data are reported at their place in the operation")
    sx.check(issues.has_issues() == (not good) and (data.body is None) == (not good), "nothing else is reported")
    if good:
        sx.reach("ok")
        if m != "PATCH":
            sx.check(data.body["Operations"][0]["data"][key] == body[key], "values are kept")
        else:
            sx.check(data.body["Operations"][0]["data"]["Operations"][0]["value"] == val, "values are kept")
    else:
        sx.reach("bad")


KINDS = 8


def op_kind(sx, i, k):
    """(operation, (path below the operation, code) or None)"""
    if k == 0:
        return {"method": "POST", "path": "/Ts", "bulkId": f"b{i}", "data": {**good_data("POST"), "req": f"x{i}"}}, None
    if k == 1:
        return {"method": "DELETE", "path": f"/Ts/{i}"}, None
    if k == 2:
        return {"method": "PUT", "path": f"/Tss/{i}", "data": {**good_data("PUT", "Tss"), "u": i + 5}}, None
    if k == 3:
        return {"method": "POST", "path": "/Ts", "data": good_data("POST")}, ("bulkId",)
    if k == 4:
        return {"method": "PUT", "path": "/Ts/1", "data": {**good_data("PUT"), "n": "x"}}, ("data", "n")
    if k == 5:
        return {"method": "PATCH", "path": "/Q/1", "data": good_data("PATCH")}, ("path",)
    if k == 6:
        return {"method": "GET", "path": "/Ts"}, ("path",)
    return {"path": "/Ts/1"}, ("method",)


@harness("C19", quick={"n": 3}, thorough={"n": 4}, bounds="0..n operations of eight kinds in any order; at most 2 are allowed; any "
         "failOnErrors", reach=["ok", "bad", "many"], budget=2)
def sequences(sx, n):
    m = sx.pick("n", n + 1)
    ops, bad = [], {}
    ks = []
    for i in range(m):
        k = sx.pick(f"k{i}", KINDS)
        ks.append(k)
        op, where = op_kind(sx, i, k)
        ops.append(op)
        if where:
            bad[i] = where
    kw = {}
    if sx.pick("foe?", 2) and m < 3:
        kw["failOnErrors"] = sx.int("foe")
    data, issues = bulk(*ops, **kw)
    for i in range(m):
        sx.check(has_at(issues, *OP, i) == (i in bad), "issues are reported at the operation that has them")
        if i in bad:
            sx.check(bool(codes_at(issues, *OP, i, *bad[i])), "and at their place in it")
    codes = codes_at(issues, *OP)
    sx.check((37 in codes) == (m > 2), "too many operations are reported")
    good = not bad and 0 < m <= 2
    sx.check(issues.has_issues() == (not good), "nothing else is reported")
    if m > 2:
        sx.reach("many")
    if good:
        sx.reach("ok")
        out = data.body["Operations"]
        sx.check(len(out) == m, "every operation is there")
        for i, k in enumerate(ks):
            sx.check(out[i]["method"] == ops[i]["method"] and out[i]["path"] == ops[i]["path"], "in its place")
            if k == 0:
                sx.check(out[i]["data"]["req"] == f"x{i}", "with its data")
            elif k == 2:
                sx.check(out[i]["data"]["u"] == i + 5, "with its data")
        if "failOnErrors" in kw:
            sx.check(data.body["failOnErrors"] == kw["failOnErrors"], "failOnErrors is kept")
    elif bad:
        sx.reach("bad")


@harness("C19", quick={"n": 4}, thorough={"n": 8}, bounds="1..n operations, any number of allowed operations (from 1), or no limit", reach=["ok", "many", "unlimited"])
def limit(sx, n):
    m = 1 + sx.pick("n", n)
    if sx.pick("limited", 2):
        most = sx.int("max", 1)
        config = create_service_provider_config(bulk={"supported": True, "max_operations": most, "max_payload_size": 1})
    else:
        most = None
        config = create_service_provider_config()
    ops = [{"method": "DELETE", "path": f"/Ts/{i}"} if i % 2 else {"method": "POST", "path": "/Ts", "bulkId": str(i), "data": good_data("POST")}
           for i in range(m)]
    data, issues = BulkOperations(config, resource_schemas=[T, U]).parse_request(body={"schemas": [V.BULK_URN], "Operations": ops})
    many = most is not None and m > most
    sx.check((codes_at(issues, *OP) == [37]) == many and issues.has_issues() == many, "too many operations are reported, and only then")
    sx.check((data.body is None) == many, "the body is withheld")
    if not many:
        sx.check(len(data.body["Operations"]) == m, "every operation is there")
    sx.reach("many" if many else "ok" if most is not None else "unlimited")


@harness("C19", quick={"n": 12}, thorough={"n": 40}, bounds="n operations, all proper but one, anywhere, of any of the eight kinds", reach=["ok", "bad"])
def many(sx, n):
    i = sx.pick("at", n)
    k = sx.pick("k", KINDS)
    ops = [op_kind(sx, j, j % 3)[0] for j in range(n)]
    ops[i], where = op_kind(sx, i, k)
    config = create_service_provider_config(bulk={"supported": True, "max_operations": n, "max_payload_size": 1})
    data, issues = BulkOperations(config, resource_schemas=[T, U]).parse_request(body={"schemas": [V.BULK_URN], "Operations": ops})
    for j in range(n):
        sx.check(has_at(issues, *OP, j) == (j == i and where is not None), "issues are reported at the operation that has them")
    sx.check(issues.has_issues() == (where is not None) and (data.body is None) == (where is not None), "nothing else is reported")
    sx.reach("bad" if where else "ok")
    if where:
        sx.check(bool(codes_at(issues, *OP, i, *where)), "and at their place in it")
        return
    out = data.body["Operations"]
    sx.check(len(out) == n, "every operation is there")
    for j in range(n):
        sx.check(out[j]["method"] == ops[j]["method"] and out[j]["path"] == ops[j]["path"], "in its place")
        if ops[j]["method"] == "POST":
            sx.check(out[j]["data"]["req"] == f"x{j}" and out[j]["bulkId"] == f"b{j}", "with its data")
        elif ops[j]["method"] == "PUT":
            sx.check(out[j]["data"]["u"] == j + 5, "with its data")
