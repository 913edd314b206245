"""C17: counters and paging of list responses"""
from symx.api import harness
from harness import validators as V
from harness.common import CONFIG, Res, has_at, codes_at, Missing

VALS = [V.LIST, V.ROOT, V.SEARCH]


def counter(sx, name):
    k = sx.pick(name + "?", 3)
    if k == 0:
        return Missing
    if k == 1:
        return None
    return sx.int(name)


@harness("C17", quick={"n": 2}, thorough={"n": 4}, bounds="list responses of 0..n resources, or without the list; any totalResults, "
         "startIndex and itemsPerPage, present, null or absent; any requested start index (from 1) and count, any status",
         reach=["ok", "total", "count", "perpage", "paging", "start", "few"])
def counters(sx, n):
    m = sx.pick("n", n + 2) - 1
    v = sx.choice("validator", VALS if m == 1 else VALS[:1])
    items = [V.resource(id=str(i)) for i in range(max(m, 0))]
    total, start, per = counter(sx, "total"), counter(sx, "start"), counter(sx, "per")
    body = {"schemas": [V.LIST_URN]}
    for k, x in (("totalResults", total), ("startIndex", start), ("itemsPerPage", per)):
        if x is not Missing:
            body[k] = x
    if m >= 0:
        body["Resources"] = items
    kw = {}
    want_start = 1
    if sx.pick("start_index?", 2):
        want_start = kw["start_index"] = sx.int("start_index", 1)
    count = None
    if sx.pick("count?", 2):
        count = kw["count"] = sx.int("count", 0)
    status = sx.int("status", 100, 599)
    if m < 0 and per is not Missing:
        return          # nothing to compare with
    data, issues = v.dump_response(status_code=status, body=body, **kw)
    n_ = len(items)
    nototal = total is Missing or total is None
    bad_per = per is not Missing and per is not None and per != n_
    little = (not nototal) and count is None and total > n_
    much = count is not None and n_ > count and not nototal
    inconsistent = (not nototal) and total < n_
    paging = (not nototal) and count is not None and count > 0 and total > n_
    lack_start = paging and (start is Missing or start is None)
    lack_per = paging and (per is Missing or per is None)
    far = start is not Missing and start is not None and start > want_start
    sx.check(has_at(issues, "body", "totalResults") == nototal, "totalResults is required")
    sx.check(has_at(issues, "body", "itemsPerPage") == (bad_per or lack_per), "itemsPerPage is the number of resources")
    sx.check(has_at(issues, "body", "startIndex") == (lack_start or far), "startIndex is there when paging and not beyond the one requested")
    sx.check(has_at(issues, "body", "Resources") == (bad_per or little or much or inconsistent),
             "number of resources")
    sx.check(has_at(issues, "status") == (status != 200), "status of a list response")
    any_ = nototal or bad_per or little or much or inconsistent or lack_start or lack_per or far or status != 200
    sx.check(issues.has_issues() == any_, "nothing else is reported")
    sx.check((data.body is not None) == (not any_), "the body is passed on when all is right")
    for name, c in (("total", inconsistent), ("count", much), ("perpage", bad_per), ("paging", lack_start), ("start", far),
                    ("few", little), ("ok", not any_)):
        if c:
            sx.reach(name)
    if not any_:
        b = data.body
        sx.check(b["totalResults"] == total and len(b.get("Resources", [])) == n_, "the body is passed on whole")


@harness("C17", bounds="paging parameters of list requests: any integer, its text, or another text of at most 2 characters",
         reach=["ok", "bad"])
def request(sx):
    key = sx.choice("key", ["count", "startIndex"])
    kind = sx.pick("kind", 3)
    if kind == 0:
        v = sx.int("v")
        want = v
    elif kind == 1:
        v = sx.string("t", 1, 3, chars="0123456789")
        want = int(v)
    else:
        v = sx.string("x", 0, 2, chars="ab.")
        want = None
    q = {key: v, "zz": "kept"}
    data, issues = sx.choice("validator", [V.LIST, V.ROOT]).parse_request(query_string=q)
    sx.check(issues.has_issues() == (want is None), "paging parameters are integers")
    if want is None:
        sx.check(has_at(issues, "query_string", key), "the wrong parameter is reported")
        sx.reach("bad")
    else:
        sx.check(data.query_string[key] == want and data.query_string["zz"] == "kept", "parameters are passed on")
        sx.reach("ok")


@harness("C17", quick={"n": 12}, thorough={"n": 60}, bounds="list responses of n resources; any totalResults, itemsPerPage and count", reach=["ok", "bad"])
def many(sx, n):
    total, per, count = sx.int("total"), sx.int("per"), sx.int("count", 1)
    v = sx.choice("validator", VALS)
    body = {"schemas": [V.LIST_URN], "totalResults": total, "itemsPerPage": per, "startIndex": 1, "Resources": [V.resource(id=str(i)) for i in range(n)]}
    data, issues = v.dump_response(status_code=200, body=body, count=count)
    sx.check(has_at(issues, "body", "itemsPerPage") == (per != n), "itemsPerPage is the number of resources")
    sx.check(has_at(issues, "body", "Resources") == sx.Or(per != n, total < n, n > count), "number of resources")
    good = sx.And(per == n, total >= n, n <= count)
    sx.check(issues.has_issues() == sx.Not(good) and (data.body is None) == sx.Not(good), "nothing else is reported")
    if good:
        sx.reach("ok")
        sx.check([r["id"] for r in data.body["Resources"]] == [str(i) for i in range(n)], "resources are passed on in order")
    else:
        sx.reach("bad")
