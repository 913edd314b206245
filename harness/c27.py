"""C27: queries: filter, sorting, requested attributes and paging reach the handler as the client wrote them"""
from symx.api import harness
from harness import validators as V
from harness.common import Res, at, Attribute, codes_at, has_at, SCIMDataContainer, T_URN, Missing, AttrRep
from src.sorter import Sorter

GETS = [V.LIST, V.ROOT]


def run(sx, q, via):
    """(query as understood, issues at member)"""
    if via == 2:
        data, issues = V.SEARCH.parse_request(body={"schemas": [V.SEARCH_URN], **q})
        body = data.body
        return (body.to_dict() if body is not None else None), issues, "body"
    data, issues = GETS[via].parse_request(query_string=q)
    return data.query_string, issues, "query_string"


RES = Res([Attribute(name="s", type_=at.String), Attribute(name="n", type_=at.Integer)])


@harness("C27", bounds="a comparison with any text of 1..2 characters, or no filter, or a malformed one; GET of one or several types and search", reach=["ok", "bad", "none"])
def filtering(sx):
    via = sx.pick("via", 3)
    k = sx.pick("k", 3)
    q = {}
    if k == 0:
        lit = sx.string("lit", 1, 2, chars="aAb")
        q["filter"] = "s eq \"" + lit + "\""
    elif k == 1:
        q["filter"] = sx.choice("bad", ["s eq", "s zz 1", "s", "(s pr", 5, True, ["s pr"], ""])
    out, issues, where = run(sx, q, via)
    if k == 0:
        sx.reach("ok")
        sx.check(not issues.has_issues(), "a filter is accepted")
        v = sx.string("v", 1, 2, chars="aAb")
        sx.check(bool(out["filter"](SCIMDataContainer({"s": v}), RES)) == (v.lower() == lit.lower()), "and means what it says")
    elif k == 1:
        sx.reach("bad")
        sx.check(has_at(issues, where, "filter"), "a malformed filter is reported")
    else:
        sx.reach("none")
        sx.check(not issues.has_issues() and not out.get("filter"), "no filter is none")


@harness("C27", bounds="sort attribute in any form, or none; sort order ascending, descending or absent; GET of one or several types and search", reach=["asc", "desc", "none", "bad"])
def sorting(sx):
    via = sx.pick("via", 3)
    q = {}
    by = sx.choice("by", [None, "s", "N", "urn:t:T:s", "c.a", "s t", "", 5, "urn:t:T:c.a.b"])
    if by is not None:
        q["sortBy"] = by
    order = sx.choice("order", [None, "ascending", "descending"])
    if order:
        q["sortOrder"] = sx.case("ordercase", order)
    out, issues, where = run(sx, q, via)
    if by is None:
        sx.reach("none")
        sx.check(not issues.has_issues() and not out.get("sorter"), "no sorting is none")
        return
    if by in ("s t", 5, "urn:t:T:c.a.b", ""):
        sx.reach("bad")
        sx.check(issues.has_issues() and has_at(issues, where, "sortBy" if via == 2 else "sortby"), "a malformed sort attribute is reported")
        return
    sx.check(not issues.has_issues(), "a sort attribute is accepted")
    desc = order == "descending"
    sx.reach("desc" if desc else "asc")
    x, y = sx.int("x"), sx.int("y")
    a, b = sx.string("a", 1, chars="aAb"), sx.string("b", 1, chars="aAb")
    p = SCIMDataContainer({"id": "p", "n": x, "s": a, "c": {"a": a}})
    r = SCIMDataContainer({"id": "r", "n": y, "s": b, "c": {"a": b}})
    k1, k2 = (x, y) if by == "N" else (a.lower(), b.lower())
    first = out["sorter"]([p, r], V.R)[0]["id"]
    swap = k1 < k2 if desc else k2 < k1
    sx.check(first == ("r" if swap else "p"), "and resources are sorted by it")


NAMES = ["s", "n", "c.a", "urn:t:T:s", "urn:t:T:c.a"]


@harness("C27", bounds="up to two requested and excluded attributes, as texts or lists, good or malformed; all requests with a query", reach=["in", "out", "none", "both", "bad"], budget=2)
def attributes(sx):
    via = sx.pick("via", 7)
    form = sx.pick("form", 2) if via != 2 else 0
    q, want = {}, {}
    for key in ("attributes", "excludeAttributes"):
        n = sx.pick(key, 3)
        want[key] = names = [sx.choice(f"{key}{i}", NAMES[:2] + NAMES[3:] if i else NAMES[2:]) for i in range(n)]
        if n:
            q[key] = names if form == 0 else ",".join(names)
    bad = False
    key = "attributes" if want["attributes"] else "excludeAttributes"
    if sx.pick("bad", 2) and len([k for k in want if want[k]]) == 1:
        bad = sx.choice("badname", ["a b", "", "a^", "a.b.c", " s", "s "])
        q[key] = want[key] + [bad] if form == 0 else ",".join(want[key] + [bad])
        bad = True
    if via < 3:
        out, issues, where = run(sx, q, via)
    else:
        v = [V.GET, V.PUT, V.POST, V.PATCH][via - 3]
        kw = {}
        if via > 3:
            kw["body"] = V.resource() if via < 6 else {"schemas": [V.PATCH_URN], "Operations": [{"op": "add", "path": "s", "value": "x"}]}
        data, issues = v.parse_request(query_string=q, **kw)
        out, where = data.query_string, "query_string"
    if bad:
        sx.reach("bad")
        i = len(want[key])
        sx.check(has_at(issues, where, key, i) or (via != 2 and has_at(issues, where, key)), "a malformed name is reported at its place")
        sx.check(not any(has_at(issues, where, key, j) for j in range(i)), "the others are not")
        sx.check(has_at(issues, where) and not (out or {}).get("presence_checker"), "malformed names are reported")
    elif want["attributes"] and want["excludeAttributes"]:
        sx.reach("both")
        sx.check(30 in codes_at(issues, where, "attributes") and 30 in codes_at(issues, where, "excludeAttributes"), "not both at once")
        sx.check(not (out or {}).get("presence_checker"), "and nothing is passed on")
    else:
        names = want["attributes"] or want["excludeAttributes"]
        sx.check(not issues.has_issues(), "names are accepted")
        ch = out.get("presence_checker")
        if not names:
            sx.reach("none")
            sx.check(not ch or not ch.attr_reps, "none is none")
        else:
            sx.reach("in" if want["attributes"] else "out")
            sx.check(ch.include == bool(want["attributes"]), "requested or excluded")
            sx.check([str(r.attr) + "." + str(r.sub_attr or "") for r in ch.attr_reps] ==
                     [{"s": "s.", "n": "n.", "c.a": "c.a", "urn:t:T:s": "s.", "urn:t:T:c.a": "c.a"}[x] for x in names], "the very names")
            sx.check([bool(r.schema) for r in ch.attr_reps] == [x.startswith("urn") for x in names], "with their schemas")


@harness("C27", bounds="count and startIndex: any integer, numeral of 1..3 digits, null, absent, or something else", reach=["ok", "bad"])
def paging(sx):
    via = sx.pick("via", 3)
    q, want, bad = {}, {}, set()
    for key in ("count", "startIndex"):
        k = sx.pick(key, 5)
        if k == 0:
            q[key] = want[key] = sx.int(key + ".v")
        elif k == 1:
            q[key] = t = sx.string(key + ".v", 1, 3, chars="0123456789")
            want[key] = int(t)
            if via == 2:
                bad.add(key)
        elif k == 2:
            q[key] = None
        elif k == 3:
            q[key] = sx.choice(key + ".v", ["x", "1x", "", [1], "1.5"])
            bad.add(key)
    out, issues, where = run(sx, q, via)
    for key in ("count", "startIndex"):
        sx.check(bool(codes_at(issues, where, key)) == (key in bad), "what is no number is reported")
        if not bad and key in want:
            sx.check(out[key] == want[key] and isinstance(out[key], int), "numbers are passed on")
    sx.check(issues.has_issues() == bool(bad), "nothing else is reported")
    sx.reach("bad" if bad else "ok")


@harness("C27", bounds="discovery of schemas and resource types with a filter of any JSON value, or without one", reach=["refused", "ok"])
def discovery(sx):
    v = sx.choice("validator", [V.SCHEMAS, V.RTYPES])
    q = sx.choice("q", [None, {}, {"attributes": "a"}, 5])
    has = sx.pick("has", 2)
    if has:
        q = dict(q) if isinstance(q, dict) else {}
        q["filter"] = sx.json("filter", depth=1, kinds="nbisld", slen=(0, 2), nlist=1, keys=["a"])
    data, issues = v.parse_request(query_string=q)
    sx.check(has_at(issues, "query_string", "filter") == bool(has) and issues.has_issues() == bool(has), "discovery is not filtered")
    sx.reach("refused" if has else "ok")


@harness("C27", bounds="filter, sort attribute, sort order, requested attributes, count, start index and an unknown parameter, each absent, right or "
         "wrong, in every combination; GET of one or several types and search", reach=["ok", "bad"])
def everything(sx):
    via = sx.pick("via", 3)
    good = {"filter": "n gt 5", "sortBy": "c.a", "attributes": ["s", "c.a"], "count": 7, "startIndex": 3}
    wrong = {"filter": "n gt", "sortBy": "c a", "attributes": ["c a"], "count": "x", "startIndex": "y"}
    q, bad = {}, set()
    for key in good:
        k = sx.pick(key, 3)
        if k == 1:
            q[key] = good[key]
        elif k == 2:
            q[key] = wrong[key]
            bad.add(key)
    if "sortBy" in q:
        q["sortOrder"] = "descending"
    if via != 2:
        q["other"] = "kept"
    before = dict(q)
    out, issues, where = run(sx, q, via)
    sx.check(q == before, "the query is left as it was")
    for key in good:
        loc = (key,) if via == 2 or key != "sortBy" else ("sortby",)
        if key == "attributes" and via != 2:
            r = any(has_at(issues, where, *x) for x in (("c a",), ("attributes",)))
        else:
            r = has_at(issues, where, *loc)
        sx.check(r == (key in bad), "what is wrong is reported at its parameter: " + key)
    sx.check(issues.has_issues() == bool(bad), "nothing else is reported")
    if bad:
        sx.reach("bad")
        return
    sx.reach("ok")
    for key, name in (("filter", "filter"), ("sortBy", "sorter"), ("attributes", "presence_checker"), ("count", "count"), ("startIndex", "startIndex")):
        got = out.get(name)
        if key not in q:
            sx.check(not got or name == "presence_checker" and not got.attr_reps, "what is not asked for is not there")
        elif key == "filter":
            sx.check(bool(got(SCIMDataContainer({"n": 6}), V.R)) and not bool(got(SCIMDataContainer({"n": 5}), V.R)), "the filter")
        elif key == "sortBy":
            sx.check(got.attr_rep == AttrRep(attr="c", sub_attr="a") and got.asc is False, "the sorter")
        elif key == "attributes":
            sx.check(got.attr_reps == [AttrRep(attr="s"), AttrRep(attr="c", sub_attr="a")] and got.include is True, "the requested attributes")
        else:
            sx.check(got == good[key], "the numbers")
    if via != 2:
        sx.check(out["other"] == "kept", "unknown parameters are passed on")
