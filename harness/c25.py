"""C25: discovery: schemas, resource types and the configuration tell what is implemented"""
from symx.api import harness
from harness import validators as V
from harness.common import (CONFIG, Res, at, Attribute, ComplexAttribute, codes_at, has_at, ext, T_URN, X_URN, AttributeMutability,
                            AttributeReturn)
from src.assets.config import create_service_provider_config
from src.assets.schemas.group import Group
from src.assets.schemas.schema import Schema
from src.assets.schemas.service_provider_config import ServiceProviderConfig
from src.assets.schemas.user import User
from src.data.attributes import AttributeUniqueness
from src.data.schemas import SchemaExtension, get_schema_rep
from src.request_validators import ResourceObjectGET

S_URN = "urn:ietf:params:scim:schemas:core:2.0:Schema"
TYPES = {"string": at.String, "integer": at.Integer, "decimal": at.Decimal, "boolean": at.Boolean, "dateTime": at.DateTime,
         "binary": at.Binary, "reference": at.SCIMReference, "uri": at.URIReference, "external": at.ExternalReference}
MUT = {"readOnly": AttributeMutability.READ_ONLY, "readWrite": AttributeMutability.READ_WRITE,
       "immutable": AttributeMutability.IMMUTABLE, "writeOnly": AttributeMutability.WRITE_ONLY}
RET = {"always": AttributeReturn.ALWAYS, "never": AttributeReturn.NEVER, "default": AttributeReturn.DEFAULT,
       "request": AttributeReturn.REQUEST}
UNI = {"none": AttributeUniqueness.NONE, "server": AttributeUniqueness.SERVER, "global": AttributeUniqueness.GLOBAL}
SCHEMA = Schema()


def declared(sx, p, sub):
    t = sx.choice(p + "t", list(TYPES)) if not sub else "string"
    want = {"name": "at", "type": "reference" if t in ("uri", "external") else t, "description": sx.string(p + "d", 0, 2),
            "multiValued": sx.bool(p + "multi"), "required": sx.bool(p + "req"),
            "mutability": sx.choice(p + "m", list(MUT)), "returned": "default", "uniqueness": "none"}
    if not sub or want["mutability"] == "readOnly":
        want["returned"] = sx.choice(p + "r", list(RET)) if want["mutability"] == "readWrite" else "always"
        want["uniqueness"] = sx.choice(p + "u", list(UNI)) if want["mutability"] == "immutable" else "server"
    exact = sx.bool(p + "exact")
    kw = {}
    if want["type"] == "string":
        want["caseExact"] = exact
        if sx.pick(p + "canon", 2):
            kw["canonical_values"] = want["canonicalValues"] = ["a", "b"]
    if t == "reference":
        kw["reference_types"] = want["referenceTypes"] = ["User", "Group", "T"]
    elif want["type"] == "reference":
        want["referenceTypes"] = [t]
    a = Attribute(name="at", type_=TYPES[t], description=want["description"], multi_valued=want["multiValued"], required=want["required"],
                  case_exact=exact, mutability=MUT[want["mutability"]], returned=RET[want["returned"]],
                  uniqueness=UNI[want["uniqueness"]], **kw)
    return a, want


def equal(sx, got, want):
    sx.check(set(got) == set(want), "the representation has the members of the declaration")
    for k, v in want.items():
        sx.check(got[k] == v, "and their values")


@harness("C25", bounds="a schema with one attribute of every type, or one sub-attribute, with any characteristics and description", reach=["simple", "sub"], budget=2)
def declaration(sx):
    sub = sx.choice("sub", [False, True])
    a, want = declared(sx, "", sub)
    if sub:
        m, req = sx.bool("cmulti"), sx.bool("creq")
        i = sx.pick("cm", 4)
        mut, ret, uni = list(MUT)[i], list(RET)[(i + 1) % 4], list(UNI)[i % 3]
        desc = sx.string("cdesc", 0, 1)
        a = ComplexAttribute(name="co", sub_attributes=[a], multi_valued=m, description=desc, required=req, mutability=MUT[mut],
                             returned=RET[ret], uniqueness=UNI[uni])
        want = {"name": "co", "type": "complex", "description": desc, "multiValued": m, "required": req, "mutability": mut,
                "returned": ret, "uniqueness": uni, "subAttributes": [want]}
    r = Res([a], description="about")
    rep = get_schema_rep(r)
    sx.check(rep["id"] == T_URN and rep["name"] == "T" and rep["description"] == "about" and rep["schemas"] == [S_URN], "what schema it is")
    out, issues = SCHEMA.dump(rep)
    sx.check(not issues.has_issues(), "the representation of a schema is a valid one")
    got = [x for x in out.to_dict()["attributes"] if x["name"] == want["name"]]
    sx.check(len(got) == 1, "the attribute is there once")
    got = got[0]
    if sub:
        sx.reach("sub")
        subs = got.pop("subAttributes")
        equal(sx, got, {k: v for k, v in want.items() if k != "subAttributes"})
        sx.check(len(subs) == 1, "the sub-attribute is there once")
        equal(sx, subs[0], want["subAttributes"][0])
    else:
        sx.reach("simple")
        equal(sx, got, want)


MEMBERS = {"name": "s", "type": "t", "multiValued": "b", "description": "s", "required": "b", "caseExact": "b", "mutability": "m",
           "returned": "r", "uniqueness": "u", "referenceTypes": "l"}
CANON = {"m": list(MUT), "r": list(RET), "u": list(UNI)}


@harness("C25", bounds="a schema response with an attribute, or sub-attribute, one member of which is absent, null, or any text or boolean",
         reach=["ok", "bad"])
def described(sx):
    item = {"name": "x", "type": "string", "multiValued": False, "description": "", "required": True, "caseExact": True,
            "mutability": "readWrite", "returned": "default", "uniqueness": "none"}
    key = sx.choice("key", list(MEMBERS))
    typ = MEMBERS[key]
    if key == "caseExact" or typ == "t":
        item["type"] = sx.choice("type", ["string", "integer", "complex"])
    k = sx.pick("k", 5)
    good = True
    if k == 0:
        item.pop(key, None)
        good = key in ("description", "referenceTypes") or (key == "caseExact" and item["type"] != "string")
    elif k == 1:
        item[key] = None
        good = key in ("description", "referenceTypes") or (key == "caseExact" and item["type"] != "string")
    elif k == 2:
        item[key] = sx.string("v", 0, 2)
        good = typ == "s" and (item[key] != "" or key == "description")
    elif k == 3:
        item[key] = sx.bool("v")
        good = typ == "b"
    elif typ in CANON:
        item[key] = sx.case("v", sx.choice("which", CANON[typ]))
    elif typ == "l":
        item[key] = ["User", "x"]
    nested = sx.choice("nested", [False, True])
    where = ("attributes", 1)
    if nested:
        attr = {"name": "y", "type": "complex", "multiValued": False, "required": True, "mutability": "readWrite",
                "returned": "default", "uniqueness": "none", "subAttributes": [item]}
        where = ("attributes", 1, "subAttributes", 0)
        if k in (0, 1) and key not in ("caseExact",):
            return          # presence inside sub-attributes is not looked at
        if k == 2 and typ == "s":
            return
    else:
        attr = item
    other = {"name": "o", "type": "boolean", "multiValued": False, "required": False, "mutability": "readWrite", "returned": "default",
             "uniqueness": "none", "caseExact": True, "subAttributes": [5]}
    body = {"schemas": [V.LIST_URN], "totalResults": 1,
            "Resources": [{"schemas": [S_URN], "id": T_URN, "name": "T", "attributes": [other, attr], "meta": {"resourceType": "Schema"}}]}
    data, issues = V.SCHEMAS.dump_response(status_code=200, body=body)
    sx.check(has_at(issues, "body", "Resources", 0, *where, key) == (not good), "what is wrong is reported at its place")
    sx.check(issues.has_issues() == (not good) and (data.body is None) == (not good), "nothing else is reported")
    if good:
        sx.reach("ok")
        out = data.body["Resources"][0]["attributes"]
        sx.check("subAttributes" not in out[0] and "caseExact" not in out[0], "what does not belong to the type is left out")
        o = out[1]["subAttributes"][0] if nested else out[1]
        if key in item and not (key == "caseExact" and item["type"] != "string"):
            sx.check(o[key] == item[key], "values are kept")
    else:
        sx.reach("bad")


ENTERPRISE = ("employeeNumber", "costCenter", "organization", "division", "department", "manager")


@harness("C25", bounds="the schemas of users and groups, with or without extension; any query", reach=["ok", "filter"])
def builtin(sx):
    r = sx.choice("r", [User, Group])()
    names = [a.rep.attr for a in r.attrs.top_level if a.rep.attr not in ENTERPRISE]
    if sx.pick("ext", 2):
        r.with_extension(ext())
    rep = get_schema_rep(r)
    data, issues = V.SCHEMAS.dump_response(status_code=200, body={"schemas": [V.LIST_URN], "totalResults": 1, "Resources": [rep]})
    sx.check(not issues.has_issues() and data.body["Resources"][0]["id"] == r.schema, "the schemas of users and groups can be served")
    sx.check([a["name"] for a in data.body["Resources"][0]["attributes"]] == names, "with all their attributes, and without those of extensions")
    v = sx.choice("v", [V.SCHEMAS, V.RTYPES])
    q = sx.choice("q", [None, {}, {"filter": "x"}, {"count": 1}, {"filter": None}])
    data, issues = v.parse_request(query_string=q)
    refused = bool(q) and "filter" in q
    sx.check(bool(codes_at(issues, "query_string", "filter")) == refused and issues.has_issues() == refused, "they can not be filtered")
    sx.reach("filter" if refused else "ok")


@harness("C25", bounds="any options of the service provider: supported or not, any limits or none", reach=["ok", "refused"])
def options(sx):
    b = {"supported": sx.bool("bs")}
    f = {"supported": sx.bool("fs")}
    for d, k in ((b, "max_operations"), (b, "max_payload_size"), (f, "max_results")):
        if sx.pick(k + "?", 2):
            d[k] = sx.int(k, 1)
    s = sx.bool("sort")
    kind, c = sx.outcome(create_service_provider_config, bulk=b, filter_=f, sort={"supported": s})
    good = (not b["supported"] or len(b) == 3) and (not f["supported"] or len(f) == 2)
    sx.check((kind == "ok") == good, "limits are needed exactly for what is supported")
    if not good:
        sx.check(c == "ValueError", "refused as a wrong value")
        sx.reach("refused")
        return
    sx.reach("ok")
    sx.check(c.bulk.supported == b["supported"] and c.filter.supported == f["supported"] and c.sort.supported == s, "options are kept")
    sx.check(not c.patch.supported and not c.etag.supported and not c.change_password.supported, "nothing is supported by default")
    sx.check(c.bulk.max_operations == b.get("max_operations") and c.bulk.max_payload_size == b.get("max_payload_size")
             and c.filter.max_results == f.get("max_results"), "limits are kept")


SPC = ResourceObjectGET(CONFIG, resource_schema=ServiceProviderConfig())


def auth_scheme(sx, body):
    """one member of an authentication scheme, or the link to documentation, absent, null or any short text or number"""
    item = body["authenticationSchemes"][0]
    key = sx.choice("member", ["type", "name", "description", "specUri", "documentationUri", "doc", "all"])
    k = sx.pick("ak", 5)
    required = key in ("type", "name", "description", "all")
    url = key in ("specUri", "documentationUri", "doc")
    d, name = (body, "documentationUri") if key == "doc" else (body, "authenticationSchemes") if key == "all" else (item, key)
    if k == 0:
        d.pop(name, None)
        good = not required
    elif k == 1:
        d[name] = None
        good = not required
    elif k == 2:
        d[name] = sx.string("t", 1, 2, chars="ab/")
        good = not url and key != "all"
    elif k == 3:
        d[name] = sx.int("t")
        good = False
    else:
        d[name] = "https://h"
        good = key != "all"
    data, issues = SPC.dump_response(status_code=200, body=body)
    where = ("body", name) if d is body else ("body", "authenticationSchemes", 0, name)
    sx.check(has_at(issues, *where) == (not good), "what is wrong is reported at its place")
    sx.check((data.body is None) == (not good) and issues.has_issues() == (not good), "nothing else is reported")
    sx.reach("ok" if good else "bad")


@harness("C25", bounds="a configuration response one option of which is absent, null, without one member or with any integer or boolean in it",
         reach=["ok", "bad"])
def configuration(sx):
    body = {"schemas": ["urn:ietf:params:scim:schemas:core:2.0:ServiceProviderConfig"],
            "patch": {"supported": True}, "bulk": {"supported": True, "maxOperations": 1, "maxPayloadSize": 2},
            "filter": {"supported": True, "maxResults": 3}, "changePassword": {"supported": False}, "sort": {"supported": True},
            "etag": {"supported": True}, "authenticationSchemes": [{"type": "oauth", "name": "n", "description": "d"}]}
    places = [("patch", "supported"), ("bulk", "supported"), ("bulk", "maxOperations"), ("bulk", "maxPayloadSize"), ("filter", "supported"),
              ("filter", "maxResults"), ("changePassword", "supported"), ("sort", "supported"), ("etag", "supported")]
    if sx.pick("auth", 2):
        auth_scheme(sx, body)
        return
    o, m = sx.choice("place", places)
    k = sx.pick("k", 7)
    where = ("body", o, m)
    if k == 5:
        body[o][m] = sx.real("v", -2, 2, 2)
        good = m != "supported" and body[o][m] == int(body[o][m])
    elif k == 6:
        body[o][m] = sx.string("v", 0, 1)
        good = False
    elif k == 0:
        del body[o]
        good, where = False, ("body", o)
    elif k == 1:
        del body[o][m]
        good = False
    elif k == 2:
        body[o][m] = None
        good = False
    elif k == 3:
        body[o][m] = sx.bool("v")
        good = m == "supported"
    else:
        body[o][m] = sx.int("v")
        good = m != "supported"
    data, issues = SPC.dump_response(status_code=200, body=body)
    sx.check(has_at(issues, *where) == (not good), "what is wrong is reported at its place")
    sx.check((data.body is None) == (not good) and issues.has_issues() == (not good), "nothing else is reported")
    if good:
        sx.reach("ok")
        sx.check(data.body[o][m] == body[o][m], "values are kept")
    else:
        sx.reach("bad")


@harness("C25", bounds="a resource type response one member of which is absent, null or any text or boolean", reach=["ok", "bad"])
def resource_type(sx):
    item = {"schemas": ["urn:ietf:params:scim:schemas:core:2.0:ResourceType"], "name": "T", "description": "d", "endpoint": "/Ts",
            "schema": T_URN, "schemaExtensions": [{"schema": X_URN, "required": True}], "meta": {"resourceType": "ResourceType"}}
    d, key = sx.choice("place", [(item, "name"), (item, "endpoint"), (item, "schema"), (item, "description"), (item["schemaExtensions"][0], "schema"),
                                 (item["schemaExtensions"][0], "required")])
    k = sx.pick("k", 4)
    if k == 0:
        del d[key]
        good = key == "description"
    elif k == 1:
        d[key] = None
        good = key == "description"
    elif k == 2:
        d[key] = sx.string("v", 1, 2)
        good = key != "required"
    else:
        d[key] = sx.bool("v")
        good = key == "required"
    body = {"schemas": [V.LIST_URN], "totalResults": 1, "Resources": [item]}
    data, issues = V.RTYPES.dump_response(status_code=200, body=body)
    where = (key,) if d is item else ("schemaExtensions", 0, key)
    sx.check(has_at(issues, "body", "Resources", 0, *where) == (not good), "what is wrong is reported at its place")
    sx.check((data.body is None) == (not good) and issues.has_issues() == (not good), "nothing else is reported")
    sx.reach("ok" if good else "bad")


@harness("C25", bounds="an extension with one or two attributes with any characteristics: what it tells about itself, and what the resource extended by it tells", reach=["simple", "sub"])
def extension(sx):
    sub = sx.choice("sub", [False, True])
    a, want = declared(sx, "", False)
    name, desc = sx.string("name", 0, 1), sx.string("desc", 0, 1)
    attrs = [a]
    if sub:
        attrs.append(ComplexAttribute(name="co", sub_attributes=[Attribute(name="x", type_=at.String), Attribute(name="y", type_=at.Integer)], required=True))
    e = SchemaExtension(schema=X_URN, name=name, description=desc, attrs=attrs)
    d = e.to_dict()
    sx.check(d["id"] == X_URN and d["name"] == name and d["description"] == desc, "what extension it is")
    sx.check([x["name"] for x in d["attributes"]] == (["at", "co"] if sub else ["at"]), "each attribute is there once")
    equal(sx, {k: v for k, v in d["attributes"][0].items() if k in want or k != "caseExact"}, want)
    if sub:
        sx.reach("sub")
        c = d["attributes"][1]
        sx.check(c["type"] == "complex" and c["required"] is True and [x["name"] for x in c["subAttributes"]] == ["x", "y"], "with its sub-attributes")
    else:
        sx.reach("simple")
    r = Res([Attribute(name="s", type_=at.String)])
    before = [x["name"] for x in get_schema_rep(r)["attributes"]]
    r.with_extension(e, required=bool(sx.pick("required", 2)))
    sx.check([x["name"] for x in get_schema_rep(r)["attributes"]] == before, "the schema of a resource is without its extensions")
    sx.check(e.to_dict() == d, "an extension stays as it is")
