"""C30: users and groups behave as RFC 7643 describes them"""
from symx.api import harness
from harness import validators as V
from harness.common import CONFIG, codes_at, has_at, SCIMDataContainer
from src.assets.schemas.group import Group
from src.assets.schemas.user import User
from src.filter import Filter
from src.request_validators import ResourceObjectGET, ResourceObjectPATCH, ResourceObjectPUT, ResourcesPOST

U_URN = "urn:ietf:params:scim:schemas:core:2.0:User"
E_URN = "urn:ietf:params:scim:schemas:extension:enterprise:2.0:User"
G_URN = "urn:ietf:params:scim:schemas:core:2.0:Group"
USER, GROUP = User(), Group()
VAL = {}
for key, schema in (("U", USER), ("G", GROUP)):
    VAL[key] = {"POST": ResourcesPOST(CONFIG, resource_schema=schema), "PUT": ResourceObjectPUT(CONFIG, resource_schema=schema),
                "GET": ResourceObjectGET(CONFIG, resource_schema=schema), "PATCH": ResourceObjectPATCH(CONFIG, resource_schema=schema)}

# name (sub-attributes after a dot, of items of a list after "[]."): type; "!": read-only, "-": never returned, "=": exact letter case
TEXT = "string"
U = {"externalId": "string=", "userName": TEXT, "displayName": TEXT, "nickName": TEXT, "profileUrl": "url", "title": TEXT, "userType": TEXT,
     "preferredLanguage": TEXT, "locale": TEXT, "timezone": TEXT, "active": "bool", "password": "string-"}
for s in ("formatted", "familyName", "givenName", "middleName", "honorificPrefix", "honorificSuffix"):
    U["name." + s] = TEXT
for a in ("emails", "phoneNumbers", "ims", "photos", "entitlements", "roles", "x509Certificates"):
    for s in ("value", "type", "display", "primary"):
        U[f"{a}[].{s}"] = "bool" if s == "primary" else TEXT
U["photos[].value"] = "url"
U["x509Certificates[].value"] = "binary"
for s in ("formatted", "locality", "streetAddress", "region", "postalCode", "country", "type"):
    U["addresses[]." + s] = TEXT
for s in ("value", "$ref", "display", "type"):
    U["groups[]." + s] = "string!"
for s in ("employeeNumber", "costCenter", "division", "department", "organization", "manager.value", "manager.$ref"):
    U[E_URN + ":" + s] = TEXT
U[E_URN + ":manager.displayName"] = "string!"
U["meta.version"] = "string!="
G = {"externalId": "string=", "displayName": TEXT, "members[].value": TEXT, "members[].$ref": TEXT, "members[].display": TEXT,
     "meta.resourceType": "string!="}
ALL = [("U", n, t) for n, t in U.items()] + [("G", n, t) for n, t in G.items()]


def base(key):
    return ({"schemas": [U_URN, E_URN], "id": "1", "userName": "u"} if key == "U" else {"schemas": [G_URN], "id": "1", "displayName": "d"})


def parts(name):
    e = name.startswith(E_URN)
    rest = name[len(E_URN) + 1:] if e else name
    attr, _, sub = rest.partition(".")
    multi = attr.endswith("[]")
    return e, (attr[:-2] if multi else attr), sub, multi


def put(body, name, v):
    e, attr, sub, multi = parts(name)
    d = body.setdefault(E_URN, {}) if e else body
    if not sub:
        d[attr] = v
    elif multi:
        d[attr] = [{sub: v}]
    else:
        d[attr] = {sub: v}
    return (E_URN,) * e + (attr,) + (0,) * multi + ((sub,) if sub else ())


def get(body, where):
    for p in where:
        if isinstance(p, int):
            if len(body) <= p:
                return None
            body = body[p]
        else:
            if p not in body:
                return None
            body = body[p]
    return body


def value(sx, typ):
    """(a value of any kind, whether it is one of the type)"""
    k = sx.choice("kind", ["string", "bool", "int", "url", "list", "object", "null"])
    t = typ.strip("!-=")
    v = {"string": lambda: sx.string("v", 1, 2, chars="aB"), "bool": lambda: sx.bool("v"), "int": lambda: sx.int("v"), "url": lambda: "a://" + sx.string("v", 1, chars="ab"),
         "list": lambda: [sx.string("v", 0, 1)], "object": lambda: {"x": 1}, "null": lambda: None}[k]()
    good = k == "null" or {"string": k in ("string", "url"), "bool": k == "bool", "url": k == "url", "binary": False}[t]
    return v, good, k


@harness("C30", bounds=f"{len(ALL)} attributes of users, their enterprise extension and groups, each with a value of any kind, created, replaced and returned",
         reach=["ok", "bad"], budget=3)
def attributes(sx):
    key, name, typ = sx.choice("attr", ALL)
    v, good, kind = value(sx, typ)
    m = sx.choice("method", ["POST", "PUT", "GET"])
    body = base(key)
    where = put(body, name, v)
    ro = "!" in typ
    required = name in ("userName",) or (key == "G" and name == "displayName")
    if kind == "null" and required:
        good = False
    if name == "meta.resourceType":
        if kind in ("string", "url", "null"):
            return          # see C26
    if m == "GET":
        data, issues = VAL[key]["GET"].dump_response(status_code=200, body=body)
        if "-" in typ and kind != "null":
            good = False
    else:
        data, issues = VAL[key][m].parse_request(body=body)
    sx.check(has_at(issues, "body", *where) == (not good), "values of another type are reported at their place")
    sx.check(issues.has_issues() == (not good) and (data.body is None) == (not good), "nothing else is reported")
    if good:
        sx.reach("ok")
        out = data.body.to_dict() if isinstance(data.body, SCIMDataContainer) else data.body
        got = get(out, where)
        if m == "PUT" and ro:
            sx.check(got is None, "what the client may not write is dropped")
        else:
            sx.check(got == v, "values are kept")
    else:
        sx.reach("bad")


@harness("C30", bounds="every attribute modified by PATCH with a value of its type", reach=["ok", "refused"])
def modified(sx):
    key, name, typ = sx.choice("attr", ALL)
    e, attr, sub, multi = parts(name)
    t = typ.strip("!-=")
    v = {"string": lambda: sx.string("v", 1, 2, chars="aB"), "bool": lambda: sx.bool("v"), "url": lambda: "a://" + sx.string("v", 1, chars="ab"),
         "binary": lambda: "QUI="}[t]()
    path = (E_URN + ":" if e else "") + attr + (f'[{"value" if sub != "value" and attr != "addresses" else "type" if attr == "addresses" else "display"} eq "x"]' if multi else "")
    path = path + ("." + sub if sub else "")
    op = sx.choice("op", ["replace", "remove"])
    o = {"op": op, "path": path}
    if op == "replace":
        o["value"] = v
    data, issues = VAL[key]["PATCH"].parse_request(body={"schemas": [V.PATCH_URN], "Operations": [o]})
    required = name in ("userName",) or (key == "G" and name == "displayName")
    good = "!" not in typ and not (op == "remove" and required)
    sx.check(issues.has_issues() == (not good) and has_at(issues, "body", "Operations", 0) == (not good), "read-only attributes can not be modified, others can")
    sx.reach("ok" if good else "refused")


TEXTS = [(k, n, t) for k, n, t in ALL if t.startswith("string") and "-" not in t]


@harness("C30", bounds="every text attribute in a filter, with any two texts of two characters", reach=["done"], budget=2)
def compared(sx):
    key, name, typ = sx.choice("attr", TEXTS)
    e, attr, sub, multi = parts(name)
    a, b = sx.string("a", 1, 2, chars="aAb"), sx.string("b", 1, 2, chars="aAb")
    body = {}
    put(body, name, a)
    path = (E_URN + ":" if e else "") + attr + ("." + sub if sub else "")
    f, issues = Filter.parse(path + " eq \"" + b + "\"")
    sx.check(not issues.has_issues(), "a filter on the attribute is accepted")
    want = a == b if "=" in typ else a.lower() == b.lower()
    sx.check(bool(f(SCIMDataContainer(body), USER if key == "U" else GROUP)) == want, "letter case counts exactly where it does in SCIM")
    sx.reach("done")


@harness("C30", bounds="users and groups without their required attributes; several primary items", reach=["done"])
def rules(sx):
    key = sx.choice("key", ["U", "G"])
    name = "userName" if key == "U" else "displayName"
    m = sx.choice("method", ["POST", "PUT", "GET"])
    body = base(key)
    k = sx.pick("k", 4)
    bad = None
    if k == 0:
        del body[name]
        bad = (name,)
    elif k == 1:
        body[name] = sx.string("v", 0, 1)
        bad = (name,) if body[name] == "" else None
    elif k == 2:
        del body["id"]
        bad = ("id",) if m != "POST" else None
    elif key == "U":
        a = sx.choice("a", ["emails", "phoneNumbers", "ims", "photos", "entitlements", "roles", "x509Certificates"])
        p = [sx.bool("p0"), sx.bool("p1"), sx.bool("p2")]
        v = "https://x" if a == "photos" else "QUI="
        body[a] = [{"value": v, "primary": x} for x in p]
        bad = (a,) if sum(1 for x in p if x) > 1 else None
    if m == "GET":
        data, issues = VAL[key]["GET"].dump_response(status_code=200, body=body)
    else:
        data, issues = VAL[key][m].parse_request(body=body)
    sx.check(issues.has_issues() == (bad is not None), "nothing else is reported")
    if bad:
        sx.check(has_at(issues, "body", *bad), "what is wrong is reported at its place")
    sx.reach("done")
