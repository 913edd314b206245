"""C18: resources of a list response conform to the query"""
from datetime import datetime

from symx.api import harness
from harness.c07 import TIMES
from harness import validators as V
from harness.common import (CONFIG, Res, at, Attribute, ComplexAttribute, AttrRep, has_at, codes_at, X_URN, T_URN, ext,
                            AttributeReturn)
from src.attributes_presence import AttributePresenceChecker
from src.data.schemas import SchemaExtension
from src.filter import Filter
from src.request_validators import ResourcesGET, SearchRequestPOST, ServerRootResourceGET
from src.sorter import Sorter

U_URN = "urn:u:U"
TX = Res()
TX.with_extension(ext())
U = Res([Attribute(name="s", type_=at.String, case_exact=True), Attribute(name="u", type_=at.String)], schema=U_URN, name="U",
        plural_name="Us")
LIST = ResourcesGET(CONFIG, resource_schema=TX)
ROOT = ServerRootResourceGET(CONFIG, resource_schemas=[TX, U])
SEARCH = SearchRequestPOST(CONFIG, resource_schemas=[TX, U])


def res(i, typ="T", **kw):
    d = {"schemas": [T_URN], "id": str(i), "req": "x"} if typ == "T" else {"schemas": [U_URN], "id": str(i)}
    d.update(kw)
    return d


def listing(items, **kw):
    return {"schemas": [V.LIST_URN], "totalResults": len(items), "Resources": items, **kw}


@harness("C18", quick={"n": 3}, thorough={"n": 3}, bounds="n resources of two types with any text, integer or list; six filters",
         reach=["ok", "bad"], budget=2)
def filtered(sx, n):
    v = sx.choice("validator", [ROOT, SEARCH])
    f = sx.pick("filter", 7)
    lit = sx.string("lit", 1, chars="aAb") if f < 3 else None
    items, ok = [], []
    for i in range(n):
        t = sx.choice(f"t{i}", ["T", "U"])
        kw = {}
        has = sx.pick(f"has{i}", 2)
        if f < 3:                                   # s: in both types, exact letter case in U only
            if has:
                kw["s"] = x = sx.string(f"v{i}", 1, chars="aAb")
                a, b = (x, lit) if t == "U" else (x.lower(), lit.lower())
                good = [a == b, a != b, a >= b][f]
            else:
                good = True                         # left out of the response: can not be judged
        elif f == 3 or f == 4:                      # n gt 5 / not (n gt 5)
            if t == "T" and has:
                kw["n"] = x = sx.int(f"v{i}")
                good = (x > 5) if f == 3 else x <= 5
            else:
                good = t == "T"                     # U has no such attribute
        elif f == 5:                                # cm[type eq "w" and value pr]
            if t == "T" and has:
                kw["cm"] = [{"value": "1", "type": "w"}] if sx.pick(f"w{i}", 2) else [{"value": "1", "type": "h"}]
                good = kw["cm"][0]["type"] == "w"
            else:
                good = t == "T"
        else:                                       # s eq "a" or n gt 5
            kw["s"] = x = sx.string(f"v{i}", 1, chars="aAb")
            good = x == "a" if t == "U" else x.lower() == "a"
            if t == "T":
                kw["n"] = y = sx.int(f"y{i}")
                good = good or y > 5
        items.append(res(i, t, **kw))
        ok.append(good)
    text = ["s eq \"{}\"", "s ne \"{}\"", "s ge \"{}\""][f] .split("{}") if f < 3 else None
    text = text[0] + lit + text[1] if f < 3 else ["n gt 5", "not (n gt 5)", 'cm[type eq "w" and value pr]',
                                                  's eq "a" or n gt 5'][f - 3]
    filt, issues = Filter.parse(text)
    data, issues = v.dump_response(status_code=200, body=listing(items), filter_=filt)
    allok = True
    for i, good in enumerate(ok):
        sx.check(has_at(issues, "body", "Resources", i) == (not good), "resources that do not match the filter are reported")
        allok = allok and good
    sx.check(issues.has_issues() == (not allok) and (data.body is not None) == allok, "nothing else is reported")
    sx.reach("ok" if allok else "bad")


@harness("C18", quick={"n": 3}, thorough={"n": 4}, bounds="n resources with any text, integer, reference or one of six dates, or none, in ascending or descending order",
         reach=["ok", "bad"])
def ordered(sx, n):
    v = sx.choice("validator", [LIST, ROOT, SEARCH])
    kind = sx.choice("kind", ["s", "n", "c.a", "cm", "meta.lastModified", "meta.location"])
    asc = sx.choice("asc", [True, False])
    items, keys = [], []
    for i in range(n):
        k = None
        kw = {}
        if sx.pick(f"has{i}", 2):
            if kind == "meta.lastModified":
                x, k = sx.choice(f"v{i}", TIMES)
                x = datetime.fromisoformat(x)
            else:
                x = sx.int(f"v{i}") if kind == "n" else sx.string(f"v{i}", 1, chars="aAb")
                k = x if kind == "n" else x.lower()
            if kind.startswith("meta."):
                kw["meta"] = {kind[5:]: x}
            elif kind == "cm":
                kw["cm"] = [{"value": "0"}, {"value": x, "primary": True}]
            elif kind == "c.a":
                kw["c"] = {"a": x}
            else:
                kw[kind] = x
        items.append(res(i, **kw))
        keys.append(k)
    good = True
    for a, b in zip(keys, keys[1:]):
        if a is None or b is None:
            good = good and ((a is None and b is None) or ((b is None) == asc))
        else:
            good = good and (a <= b if asc else a >= b)
    data, issues = v.dump_response(status_code=200, body=listing(items), sorter=Sorter(AttrRep.parse(kind), asc))
    sx.check(bool(codes_at(issues, "body", "Resources")) == (not good), "resources out of order are reported")
    sx.check(issues.has_issues() == (not good), "nothing else is reported")
    if good:
        sx.reach("ok")
        sx.check([r["id"] for r in data.body["Resources"]] == [str(i) for i in range(n)], "resources are passed on in order")
    else:
        sx.reach("bad")


@harness("C18", bounds="two resources with any subset of four attributes; any requested or excluded attribute", reach=["ok", "bad"])
def requested(sx):
    include = sx.choice("include", [True, False])
    v = sx.choice("validator", [LIST, ROOT, SEARCH])
    names = ["s", "mv", "c"] if v is LIST else ["n", "c"]
    want = sx.choice("want", names)
    vals = {"s": "x", "n": 1, "mv": ["x"], "c": {"a": "x"}}
    items, bad = [], []
    for i in range(2):
        kw = {}
        for k in names:
            if sx.pick(f"{k}{i}", 2):
                kw[k] = vals[k]
                if (k == want) != include:
                    bad.append((i, k))
        if include:
            items.append({"schemas": [T_URN], "id": str(i), **kw})
        else:
            items.append(res(i, **kw))
    checker = AttributePresenceChecker([AttrRep(attr=sx.case("case", want))], include)
    data, issues = v.dump_response(status_code=200, body=listing(items), presence_checker=checker)
    for i in range(2):
        for k in names:
            sx.check(bool(codes_at(issues, "body", "Resources", i, k)) == ((i, k) in bad), "attributes not asked for are reported")
    sx.check(issues.has_issues() == bool(bad), "nothing else is reported")
    sx.reach("bad" if bad else "ok")


@harness("C18", bounds="two or three resources of a list of several types: schemas of one or both types, of the extension, unknown, empty or absent, "
         "in any letter case", reach=["ok", "bad"])
def typed(sx):
    v = sx.choice("validator", [ROOT, SEARCH])
    items, good, where = [], [], []
    ident = sx.choice("ids", [["0", "1", "2"], ["0", "0", "0"]])
    for i in range(2 + sx.pick("third", 2)):
        k = sx.pick(f"k{i}", 8) if i < 2 else sx.choice("k2", [0, 1, 4])
        s = [[T_URN], [U_URN], [T_URN, X_URN], [U_URN, X_URN], ["urn:q"], [], None, [T_URN, U_URN]][k]
        if s and i < 2 and sx.pick(f"up{i}", 2):
            s = [x.upper() for x in s]
        d = {"id": ident[i], "u": "x", "req": "x", X_URN: {"e": "x"}} if k in (2, 3) else {"id": ident[i], "u": "x", "req": "x"}
        if s is not None:
            d["schemas"] = s
        if k in (0, 1) and i < 2 and sx.pick(f"wrong{i}", 2):
            d["s"] = 5
            k += 10
        items.append(d)
        good.append(k in (0, 1, 2))
        where.append("U" if k == 1 else "T")
    data, issues = v.dump_response(status_code=200, body=listing(items))
    for i in range(len(items)):
        sx.check(has_at(issues, "body", "Resources", i) == (not good[i]), "the type of a resource is known by its schemas")
    if all(good):
        sx.reach("ok")
        out = data.body["Resources"]
        for r, w in zip(out, where):
            sx.check(("u" in r) == (w == "U") and ("req" in r) == (w == "T"), "a resource is processed by its own schema")
    else:
        sx.reach("bad")
        sx.check(data.body is None, "the body is withheld")


@harness("C18", bounds="two resources, a filter, a sorter and requested attributes at once; every combination of what is wrong; equal or "
         "different resources; any text of one character", reach=["ok", "filter", "sorter", "presence", "all"], budget=2)
def together(sx):
    v = sx.choice("validator", [LIST, ROOT, SEARCH])
    asc = sx.choice("asc", [True, False])
    items, keys, low, extra = [], [], [], []
    same = sx.pick("sameid", 2)
    for i in range(2):
        x = sx.string(f"v{i}", 1, chars="abc")
        n = sx.int(f"n{i}")
        kw = {"s": x, "n": n}
        if sx.pick(f"mv{i}", 2):
            kw["mv"] = ["q"]
        items.append({"schemas": [T_URN], "id": "0" if same else str(i), **kw})
        keys.append(x)
        low.append(not n > 5)
        extra.append("mv" in kw)
    checker = AttributePresenceChecker([AttrRep(attr="s"), AttrRep(attr="n")], True)
    data, issues = v.dump_response(status_code=200, body=listing(items), filter_=Filter.parse("n gt 5")[0],
                                   sorter=Sorter(AttrRep(attr="s"), asc), presence_checker=checker)
    disorder = keys[0] > keys[1] if asc else keys[0] < keys[1]
    for i in range(2):
        sx.check(bool(codes_at(issues, "body", "Resources", i)) == low[i], "resources that do not match the filter are reported")
        sx.check(has_at(issues, "body", "Resources", i, "mv") == extra[i], "attributes not asked for are reported")
    sx.check(bool(codes_at(issues, "body", "Resources")) == disorder, "resources out of order are reported")
    wrong = any(low) or any(extra) or disorder
    sx.check(issues.has_issues() == wrong and (data.body is None) == wrong, "nothing else is reported")
    for c, name in ((any(low), "filter"), (disorder, "sorter"), (any(extra), "presence"), (not wrong, "ok"),
                    (any(low) and any(extra) and disorder, "all")):
        if c:
            sx.reach(name)


@harness("C18", quick={"n": 6}, thorough={"n": 16}, bounds="n resources, one of which, anywhere, has any value, or none: filtered, ordered and with requested attributes at once",
         reach=["ok", "filter", "sorter", "presence"])
def many(sx, n):
    v = sx.choice("validator", [LIST, ROOT, SEARCH])
    i = sx.pick("at", n)
    asc = sx.choice("asc", [True, False])
    keys = [10 * k if asc else 10 * (n - k) for k in range(n)]
    has, extra = sx.pick("has", 2), sx.pick("extra", 2)
    keys[i] = sx.int("v") if has else None
    items = []
    for k, key in enumerate(keys):
        d = {"schemas": [T_URN], "id": str(k), "n": key}
        if key is None:
            del d["n"]
        if k == i and extra:
            d["mv"] = ["q"]
        items.append(d)
    checker = AttributePresenceChecker([AttrRep(attr="n")], True)
    data, issues = v.dump_response(status_code=200, body=listing(items), filter_=Filter.parse("n ge 0")[0], sorter=Sorter(AttrRep(attr="n"), asc),
                                   presence_checker=checker)
    low = bool(has and keys[i] < 0)
    if has:
        left = i == 0 or (keys[i - 1] <= keys[i] if asc else keys[i - 1] >= keys[i])
        right = i == n - 1 or (keys[i] <= keys[i + 1] if asc else keys[i] >= keys[i + 1])
        disorder = not (left and right)
    else:
        disorder = i != (n - 1 if asc else 0)
    for k in range(n):
        sx.check(bool(codes_at(issues, "body", "Resources", k)) == (k == i and low), "resources that do not match the filter are reported")
        sx.check(has_at(issues, "body", "Resources", k, "mv") == (k == i and bool(extra)), "attributes not asked for are reported")
    sx.check(bool(codes_at(issues, "body", "Resources")) == disorder, "resources out of order are reported")
    wrong = low or disorder or bool(extra)
    sx.check(issues.has_issues() == wrong and (data.body is None) == wrong, "nothing else is reported")
    for c, name in ((low, "filter"), (disorder, "sorter"), (extra, "presence"), (not wrong, "ok")):
        if c:
            sx.reach(name)


Y_URN = "urn:x:Y"
SHARED = {}
for _ext in range(16):
    _t = Res()
    _u = Res([Attribute(name="s", type_=at.String, case_exact=True), Attribute(name="u", type_=at.String)], schema=U_URN, name="U", plural_name="Us")
    for _b, _s, _urn in ((1, _t, X_URN), (2, _u, X_URN), (4, _t, Y_URN), (8, _u, Y_URN)):
        if _ext & _b:
            _s.with_extension(SchemaExtension(_urn, name=_urn[-1], attrs=[Attribute(name="e", type_=at.String)]))
    for _o in (0, 1):
        for _c in (ServerRootResourceGET, SearchRequestPOST):
            SHARED[_ext, _o, _c] = _c(CONFIG, resource_schemas=[_u, _t] if _o else [_t, _u])


@harness("C18", bounds="two resource types in either order, each with any of two extensions, which they may share; a resource of either type with any of the extensions, in any order",
         reach=["ok", "bad"])
def extended(sx):
    e = sx.pick("ext", 16)
    v = SHARED[e, sx.pick("order", 2), sx.choice("v", [ServerRootResourceGET, SearchRequestPOST])]
    u = sx.pick("type", 2)
    x, y = sx.pick("x", 2), sx.pick("y", 2)
    urns = [U_URN if u else T_URN] + [X_URN] * x + [Y_URN] * y
    if sx.pick("rev", 2):
        urns.reverse()
    d = {"schemas": urns, "id": "1", "req": "x", "u": "x", **({X_URN: {"e": "1"}} if x else {}), **({Y_URN: {"e": "2"}} if y else {})}
    good = (not x or bool(e & (2 if u else 1))) and (not y or bool(e & (8 if u else 4)))
    data, issues = v.dump_response(status_code=200, body=listing([res(0, "U" if u else "T"), d]))
    sx.check(not has_at(issues, "body", "Resources", 0), "the other resource is fine")
    sx.check(has_at(issues, "body", "Resources", 1) == (not good), "a resource has the extensions of its type")
    if not good:
        sx.reach("bad")
        sx.check(data.body is None, "the body is withheld")
        return
    sx.reach("ok")
    out = data.body["Resources"][1]
    sx.check(("u" in out) == bool(u) and ("req" in out) == (not u), "a resource is processed by its own schema")
    sx.check(out.get(X_URN) == ({"e": "1"} if x else None) and out.get(Y_URN) == ({"e": "2"} if y else None), "so are its extensions")
