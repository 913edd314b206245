"""C15: which attributes a response may and must contain"""
from symx.api import harness
from harness import validators as V
from harness.common import (CONFIG, Res, at, Attribute, ComplexAttribute, AttributeReturn, AttrRep, has_at, codes_at, X_URN, T_URN,
                            ext, SCIMDataContainer, Invalid)
from src.attributes_presence import AttributePresenceChecker
from src.request_validators import ResourceObjectGET
from src.assets.schemas.user import User

RET = [AttributeReturn.DEFAULT, AttributeReturn.ALWAYS, AttributeReturn.NEVER, AttributeReturn.REQUEST]
KINDS = ["top", "multi", "csub", "msub", "ext", "extsub", "cx", "cmx", "extcx"]
_CACHE = {}


def schema_for(kind, returned, required):
    key = (kind, returned, required)
    if key not in _CACHE:
        kw = dict(returned=RET[returned], required=bool(required))
        other = Attribute(name="other", type_=at.String)
        x = Attribute(name="x", type_=at.String, **kw)
        if kind == "top":
            s = Res([other, x])
        elif kind == "multi":
            s = Res([other, Attribute(name="x", type_=at.String, multi_valued=True, **kw)])
        elif kind in ("cx", "cmx", "extcx"):
            p = ComplexAttribute(name="x", multi_valued=kind == "cmx", sub_attributes=[Attribute(name="y", type_=at.String)], **kw)
            s = Res([other] + ([p] if kind != "extcx" else []))
            if kind == "extcx":
                s.with_extension(ext([p]))
        elif kind == "csub":
            s = Res([other, ComplexAttribute(name="p", sub_attributes=[x, Attribute(name="y", type_=at.String)])])
        elif kind == "msub":
            s = Res([other, ComplexAttribute(name="p", multi_valued=True, sub_attributes=[
                x, Attribute(name="y", type_=at.String)])])
        else:
            s = Res([other])
            if kind == "ext":
                s.with_extension(ext([x]))
            else:
                s.with_extension(ext([ComplexAttribute(name="p", sub_attributes=[
                    x, Attribute(name="y", type_=at.String)])]))
        _CACHE[key] = s
    return _CACHE[key]


for _k in KINDS:
    for _r in range(4):
        for _q in range(2):
            schema_for(_k, _r, _q)


def verdict(sx, present, direction, returned, required, include, self_listed, parent_listed, sub):
    """'bad' | 'missing' | None | 'open' (not specified)"""
    if present:
        if direction == "REQUEST" or returned == 1:
            return None
        if returned == 2:
            return "bad"
        if returned == 3 and include is not True:
            return "open"
        if include is False:
            return "bad" if self_listed else None
        if include is True and not self_listed and not parent_listed:
            return "bad"
        return None
    if not required:
        return None
    if direction == "RESPONSE" and returned == 1:
        return "missing"
    if include is None:
        return "missing"
    if include is False:
        return None if self_listed or parent_listed else "missing"
    return "missing" if self_listed else None


@harness("C15", bounds="one attribute of any returnability, required or not, at every place (top level, multi-valued, "
         "sub-attribute of a single- or multi-valued complex attribute, extension), absent, null, empty or with any text; "
         "requested, excluded or not, itself, by its parent, or another attribute; request and response",
         reach=["bad", "missing", "fine"], budget=3)
def table(sx):
    kind = sx.choice("kind", KINDS)
    returned = sx.pick("returned", 4)
    required = sx.pick("required", 2)
    schema = schema_for(kind, returned, required)
    direction = sx.choice("direction", ["REQUEST", "RESPONSE"])
    listed = sx.choice("listed", ["none", "self", "parent", "other", "self+other"])
    include = sx.choice("include", [True, False]) if listed != "none" else None
    sub = kind in ("csub", "msub", "extsub")
    if listed == "parent" and not sub:
        return
    pre = X_URN if kind in ("ext", "extsub", "extcx") else sx.choice("schema", ["", T_URN])
    reps = []
    name = sx.case("name", "x")
    if "self" in listed:
        reps.append(AttrRep(schema=pre, attr=sx.case("pname", "p"), sub_attr=name) if sub else AttrRep(schema=pre, attr=name))
    if listed == "parent":
        reps.append(AttrRep(schema=pre, attr=sx.case("pname", "p")))
    if "other" in listed:
        reps.append(AttrRep(attr="other"))
    state = sx.pick("state", 5)
    v = {0: None, 1: "", 2: [], 3: None}.get(state)
    if state == 4:
        v = [sx.string("v", 1, 1)] if kind == "multi" else sx.string("v", 1, 2)
    if kind in ("cx", "cmx", "extcx"):
        if state == 1 or state == 2 and kind != "cmx":
            return
        if state == 4:
            v = [{"y": v}] if kind == "cmx" else {"y": v}
    item = {} if state == 3 else {"x": v}
    # the parent has a value, and its other sub-attribute is there where it may be
    place = {"top": item, "multi": item, "csub": {"p": {**item, "y": "1"}}, "msub": {"p": [{"x": "1"}, {**item, "y": "1"}]},
             "cx": item, "cmx": item, "extcx": {X_URN: item}, "ext": {X_URN: item}, "extsub": {X_URN: {"p": {**item, "y": "1"}}}}[kind]
    if kind == "msub" and state != 4:
        place = {"p": [{**item, "y": "1"}]}
    data = SCIMDataContainer({"schemas": [T_URN], "id": "1", **place})
    issues = AttributePresenceChecker(reps, include)(data, schema.attrs, direction)
    n = {"msub": 1 if state == 4 else 0}.get(kind)
    loc = {"cx": ("x",), "cmx": ("x",), "extcx": (X_URN, "x"), "top": ("x",), "multi": ("x",), "csub": ("p", "x"), "msub": ("p", n, "x"), "ext": (X_URN, "x"),
           "extsub": (X_URN, "p", "x")}[kind]
    want = verdict(sx, state == 4, direction, returned, required, include, "self" in listed, listed == "parent", sub)
    if want == "open":
        return
    codes = codes_at(issues, *loc)
    if want is None:
        sx.check(not codes, "a proper attribute is reported")
        sx.reach("fine")
    else:
        sx.check(len(codes) == 1, "an attribute that must not be there, or must be and is not, is reported once")
        sx.reach(want)
    if direction == "RESPONSE" and sub:
        # the parent, which holds y
        pl = loc[:1] if kind != "extsub" else loc[:2]
        pc = codes_at(issues, *pl)
        if include is False:
            sx.check(bool(pc) == (listed == "parent"), "an excluded complex attribute is reported")
        elif include is True:
            sx.check(bool(pc) == (listed == "other"), "a complex attribute that was not requested is reported")
        else:
            sx.check(not pc, "a complex attribute is reported without reason")


GETU = ResourceObjectGET(CONFIG, resource_schema=User())
USER = ["userName", "displayName", "nickName", "title", "password", "externalId"]


@harness("C15", bounds="responses with a user: any two attributes, requested or excluded by any list of two names in any "
         "letter case", reach=["ok", "issues"], budget=3)
def user_response(sx):
    keys = [sx.choice("k0", USER), sx.choice("k1", USER)]
    v = sx.string("v", 1, 2, chars="aB ")
    body = {"schemas": ["urn:ietf:params:scim:schemas:core:2.0:User"], "id": "1", "meta": {"resourceType": "User"}}
    for k in keys:
        body[k] = v
    mode = sx.choice("mode", [None, "attributes", "excludeAttributes"])
    checker = None
    req = []
    if mode:
        req = [sx.choice("r0", USER), sx.choice("r1", USER[1:3])]
        query = {mode: [sx.case("c0", req[0]), req[1]]}
        if mode == "attributes":
            query[mode].append("meta")
        data, issues = GETU.parse_request(query_string=query)
        sx.check(not issues.has_issues(), "the query is proper")
        checker = data.query_string["presence_checker"]
    _, issues = GETU.dump_response(status_code=200, body=body, presence_checker=checker)
    bad = []
    for k in keys:
        if k == "password" or mode == "attributes" and k not in req or mode == "excludeAttributes" and k in req:
            bad.append(k)
    if "userName" not in keys and (mode is None or mode == "attributes" and "userName" in req
                                   or mode == "excludeAttributes" and "userName" not in req):
        bad.append("userName")
    for k in USER:
        sx.check(has_at(issues, "body", k) == (k in bad), "presence of " + k)
    sx.check(issues.has_issues() == bool(bad), "nothing else is reported")
    sx.reach("issues" if bad else "ok")


@harness("C15", quick={"n": 3}, thorough={"n": 5}, bounds="lists of requested names: well-formed and any text of at most n characters",
         reach=["ok", "bad"])
def parse_names(sx, n):
    texts = [sx.choice("good", ["a", "a.b", "urn:x:a.b"])]
    t = sx.string("t", 0, n, chars="aB.: ")
    texts.insert(sx.pick("pos", 2), t)
    include = sx.choice("include", [True, False])
    c, issues = AttributePresenceChecker.parse(texts, include)
    reps = [AttrRep.parse(x) for x in texts]
    ok = all(r is not Invalid for r in reps)
    sx.check((c is not Invalid) == ok and issues.has_issues() == (not ok), "names are all right or the list is refused")
    if ok:
        sx.check(c.attr_reps == reps and c.include is include, "requested attributes")
        sx.reach("ok")
    else:
        sx.reach("bad")


LS = Res([
    Attribute(name="a", type_=at.String), Attribute(name="b", type_=at.String, required=True),
    Attribute(name="al", type_=at.String, returned=AttributeReturn.ALWAYS),
    ComplexAttribute(name="c", sub_attributes=[Attribute(name="x", type_=at.String), Attribute(name="y", type_=at.String)]),
    ComplexAttribute(name="d", multi_valued=True, sub_attributes=[Attribute(name="x", type_=at.String), Attribute(name="y", type_=at.String)]),
])
LS.with_extension(ext([Attribute(name="e", type_=at.String),
                       ComplexAttribute(name="ec", sub_attributes=[Attribute(name="x", type_=at.String), Attribute(name="y", type_=at.String)])]))
NAMES = ["a", "b", "al", "c", "c.x", "c.y", "d", "d.x", X_URN + ":e", X_URN + ":ec.x"]
PLACES = {"a": ("a",), "b": ("b",), "al": ("al",), "c": ("c",), "c.x": ("c", "x"), "c.y": ("c", "y"), "d": ("d",), "d.x": ("d", 0, "x"),
          "d.y": ("d", 1, "y"), X_URN + ":e": (X_URN, "e"), X_URN + ":ec": (X_URN, "ec"), X_URN + ":ec.x": (X_URN, "ec", "x"),
          X_URN + ":ec.y": (X_URN, "ec", "y")}
GETL = ResourceObjectGET(CONFIG, resource_schema=LS)


@harness("C15", quick={"n": 3}, thorough={"n": 4}, bounds="a full resource, 1..n requested or excluded names of top-level attributes, sub-attributes "
         "and extension attributes, in any order, with repetitions, in either letter case", reach=["ok", "issues"], budget=2)
def lists(sx, n):
    mode = sx.choice("mode", ["attributes", "excludeAttributes"])
    names = [sx.choice(f"n{i}", NAMES) for i in range(1 + sx.pick("n", n))]
    up = sx.pick("up", 2)
    q = [x.upper() if up and not x.startswith("urn") else x for x in names] + (["meta"] if mode == "attributes" else [])
    data, issues = GETL.parse_request(query_string={mode: ",".join(q) if sx.pick("text", 2) else q})
    sx.check(not issues.has_issues(), "the query is proper")
    body = {"schemas": [T_URN, X_URN], "id": "1", "meta": {"resourceType": "T"}, "a": "1", "b": "1", "al": "1", "c": {"x": "1", "y": "1"},
            "d": [{"x": "1", "y": "1"}, {"x": "1", "y": "1"}], X_URN: {"e": "1", "ec": {"x": "1", "y": "1"}}}
    out, issues = GETL.dump_response(status_code=200, body=body, presence_checker=data.query_string["presence_checker"])
    any_ = False
    for name, place in PLACES.items():
        top = name.rpartition(".")[0] if "." in name[len(X_URN) if name.startswith(X_URN) else 0:] else name
        if mode == "attributes":
            # asked for: itself, its parent, or (a complex attribute) one of its sub-attributes
            bad = name != "al" and not any(r == name or r == top or r.startswith(name + ".") for r in names)
        else:
            bad = name != "al" and name in names
        sx.check(bool(codes_at(issues, "body", *place)) == bad, "presence of " + name)
        any_ = any_ or bad
    sx.check((out.body is None) == any_ and issues.has_issues() == any_, "nothing else is reported")
    sx.reach("issues" if any_ else "ok")


WN = [f"w{i}" for i in range(12)]
WR = Res([Attribute(name=x, type_=at.String) for x in WN])
GETW = ResourceObjectGET(CONFIG, resource_schema=WR)


@harness("C15", bounds="twelve attributes, all or none requested or excluded but any one, any of them there", reach=["ok", "issues"])
def many(sx):
    mode = sx.choice("mode", ["attributes", "excludeAttributes"])
    i, j = sx.pick("i", 12), sx.pick("j", 12)
    most = sx.pick("most", 2)
    names = [x for k, x in enumerate(WN) if (k != i) == bool(most)]
    data, issues = GETW.parse_request(query_string={mode: (names if sx.pick("list", 2) else ",".join(names))})
    sx.check(not issues.has_issues(), "the query is proper")
    v = sx.string("v", 1, 1)
    body = {"schemas": [T_URN], "id": "1", WN[j]: v}
    if mode == "excludeAttributes":
        body["meta"] = {"resourceType": "T"}
    out, issues = GETW.dump_response(status_code=200, body=body, presence_checker=data.query_string["presence_checker"])
    bad = (WN[j] in names) != (mode == "attributes")
    for k, x in enumerate(WN):
        sx.check(has_at(issues, "body", x) == (k == j and bad), "presence of every attribute")
    sx.check((out.body is None) == bad, "the body is withheld")
    sx.reach("issues" if bad else "ok")


Y_URN = "urn:y:Y"
NS = Res([Attribute(name="s", type_=at.String), ComplexAttribute(name="c", sub_attributes=[Attribute(name="a", type_=at.String)])])
NS.with_extension(ext([Attribute(name="s", type_=at.String), ComplexAttribute(name="c", sub_attributes=[Attribute(name="a", type_=at.String)])]))
NS.with_extension(ext([Attribute(name="s", type_=at.String, required=True)], schema=Y_URN, name="Y"))
GETN = ResourceObjectGET(CONFIG, resource_schema=NS)
NS_ATTRS = [(u, a, b) for u in (T_URN, X_URN) for a, b in (("s", ""), ("c", ""), ("c", "a"))] + [(Y_URN, "s", "")]


@harness("C15", quick={"n": 2}, thorough={"n": 3}, bounds="1..n requested or excluded names, with or without schema in either letter case, of attributes that are "
         "called the same in the core schema and in two extensions; the required one of them there or not", reach=["ok", "issues"])
def namesakes(sx, n):
    include = sx.choice("include", [True, False])
    names = []
    for i in range(1 + sx.pick("n", n)):
        u = sx.choice(f"u{i}", ["", T_URN, X_URN, Y_URN, X_URN.upper()])
        names.append((u, *sx.choice(f"a{i}", [("s", ""), ("c", ""), ("C", "a")])))
    texts = [(u + ":" if u else "") + a + ("." + b if b else "") for u, a, b in names]
    there = sx.pick("there", 2)
    body = {"schemas": [T_URN, X_URN, Y_URN], "id": "1", "s": "1", "c": {"a": "1"}, X_URN: {"s": "1", "c": {"a": "1"}}}
    if there:
        body[Y_URN] = {"s": "1"}
    data, issues = GETN.parse_request(query_string={"attributes" if include else "excludeAttributes": texts})
    sx.check(not issues.has_issues(), "the query is proper")
    out, issues = GETN.dump_response(status_code=200, body=body, presence_checker=data.query_string["presence_checker"])
    any_ = False
    for u, a, b in NS_ATTRS:
        here = [(x, y) for v, x, y in names if (not v or v.lower() == u.lower()) and x.lower() == a]
        itself, parent = any(y == b for _, y in here), any(not y for _, y in here)
        if u == Y_URN and not there:
            bad = itself if include else not itself     # absent, and required unless it was not asked for
        elif include:
            bad = not (itself or parent or (not b and here))
        else:
            bad = itself
        place = ((u,) if u != T_URN else ()) + (a,) + ((b,) if b else ())
        sx.check(bool(codes_at(issues, "body", *place)) == bool(bad), "each attribute is judged by the names that mean it")
        any_ = any_ or bool(bad)
    sx.check((out.body is None) == any_ and issues.has_issues() == any_, "nothing else is reported")
    sx.reach("issues" if any_ else "ok")
