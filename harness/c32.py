"""C32: what is declared is what a schema offers, and impossible declarations are refused"""
from symx.api import harness
from harness.common import Res, at, Attribute, AttributeIssuer, AttributeMutability, AttributeReturn, ComplexAttribute, AttrRep, SchemaExtension, X_URN, T_URN
from src.assets.config import create_service_provider_config
from src.data.attributes import AttributeUniqueness
from src.data.path import PatchPath
from src.data import operator as op
from src.filter import Filter

NAMES = ["ab", "Ac", "b1"]


def declared():
    return [Attribute(name="ab", type_=at.Integer, description="t"), ComplexAttribute(name="Ac", description="t", sub_attributes=[
        Attribute(name="ab", type_=at.String, description="ts"), Attribute(name="Va", type_=at.Boolean, description="ts")])]


def extension():
    return [Attribute(name="b1", type_=at.String, description="x"), ComplexAttribute(name="aC", multi_valued=True, description="x", sub_attributes=[
        Attribute(name="va", type_=at.Decimal, description="xs")])]


LOOK = Res(declared())
LOOK.with_extension(SchemaExtension(schema=X_URN, name="X", attrs=extension()))
# (schema, attribute, sub-attribute) in lower case -> type, description; in the order of declaration
TABLE = {("t", "ab", ""): (at.Integer, "t"), ("t", "ac", ""): (at.Complex, "t"), ("t", "ac", "ab"): (at.String, "ts"), ("t", "ac", "va"): (at.Boolean, "ts"),
         ("x", "b1", ""): (at.String, "x"), ("x", "ac", ""): (at.Complex, "x"), ("x", "ac", "va"): (at.Decimal, "xs")}


@harness("C32", bounds="every name and sub-name of at most two characters, with the schema, that of the extension, another or none, in any letter case", reach=["found", "none"])
def lookup(sx):
    schema = sx.choice("schema", ["", T_URN, X_URN, "urn:z:Z", T_URN + "x"])
    urn = schema and sx.case("urn", schema)
    name = sx.string("name", 1, 2, chars="aAbBcC1")
    sub = sx.string("sub", 0, 2, chars="aAbBvV") if sx.pick("sub?", 2) else ""
    rep = AttrRep(urn, name, sub, extension=schema == X_URN)
    got = LOOK.attrs.get(rep)
    want = None
    for (s, a, b), decl in TABLE.items():
        if schema in ("", {"t": T_URN, "x": X_URN}[s]) and name.lower() == a and sub.lower() == b:
            want = (s, a, b), decl
            break
    if want is None:
        sx.reach("none")
        sx.check(got is None, "an attribute which is not declared")
        return
    sx.reach("found")
    (s, a, b), (type_, description) = want
    sx.check(got is not None and got.type is type_ and got.description == description, "the attribute declared by that name")
    sx.check(got.rep.schema == {"t": T_URN, "x": X_URN}[s] and got.rep.attr.lower() == a and got.rep.sub_attr.lower() == b and got.rep.extension == (s == "x"), "and its place")


@harness("C32", bounds="attributes by the members of 'attrs', every name and sub-name of at most two characters in any letter case", reach=["found", "none"])
def members(sx):
    name = sx.string("name", 1, 2, chars="aAbc1")
    sub = sx.string("sub", 1, 2, chars="abV") if sx.pick("sub?", 2) else ""
    want = [(k, v) for k, v in TABLE.items() if sx.And(name.lower() == k[1], sub.lower() == k[2])]
    kind, got = sx.outcome(getattr, LOOK.attrs, name + ("__" + sub if sub else ""))
    if not want:
        sx.reach("none")
        sx.check(kind == "raise" and got == "AttributeError", "an attribute which is not declared")
        return
    sx.reach("found")
    sx.check(kind == "ok" and got.type is want[0][1][0] and got.description == want[0][1][1], "the attribute declared by that name")


UNDER = Res([Attribute(name="a_b", type_=at.Integer), Attribute(name="a_", type_=at.Decimal),
             ComplexAttribute(name="a", sub_attributes=[Attribute(name=n, type_=t) for n, t in (("b", at.String), ("_b", at.Boolean), ("b_", at.Binary), ("b__c", at.DateTime), ("c", at.URIReference))])])
UNDERS = {"a": at.Complex, "a_b": at.Integer, "a_": at.Decimal, "a__b": at.String, "a___b": at.Boolean, "a__b_": at.Binary, "a__b__c": at.DateTime, "a__c": at.URIReference}


@harness("C32", quick={"n": 5}, thorough={"n": 7}, bounds="every member of 1..n characters over two letters and the underscore, but two at the end", reach=["found", "none"])
def underscores(sx, n):
    name = sx.string("name", 1, n, chars="ab_") + (sx.choice("tail", ["", "_c"]))
    sx.assume(not name.endswith("__"))
    kind, got = sx.outcome(getattr, UNDER.attrs, name)
    want = [t for k, t in UNDERS.items() if name == k]
    if not want:
        sx.reach("none")
        sx.check(kind == "raise" and got == "AttributeError", "an attribute which is not declared")
        return
    sx.reach("found")
    sx.check(kind == "ok" and got.type is want[0], "the attribute declared by that name")


MUT, RET, UNI, ISS = list(AttributeMutability), list(AttributeReturn), list(AttributeUniqueness), list(AttributeIssuer)


def flags(sx, name, pre, cx=False):
    kw = dict(description=sx.string(pre + "d", 0, 1, chars="ab"), required=sx.bool(pre + "req"), multi_valued=sx.bool(pre + "mv"),
              mutability=MUT[sx.pick(pre + "mut", len(MUT))], returned=RET[sx.pick(pre + "ret", len(RET))], issuer=ISS[sx.pick(pre + "iss", len(ISS))])
    kw["uniqueness"] = UNI[sx.pick(pre + "uni", len(UNI))]
    if not cx:
        kw.update(case_exact=sx.bool(pre + "exact"), validate_canonical_values=sx.bool(pre + "strict"))
    return kw


@harness("C32", bounds="an attribute, a complex attribute or a sub-attribute of a schema or an extension, declared with any flags", reach=["plain", "complex", "sub"])
def carried(sx):
    """schemas take over every detail of a declaration"""
    kind = sx.choice("kind", ["plain", "complex", "sub"])
    kw = flags(sx, "a", "a.", kind == "complex")
    inext = sx.pick("ext", 2)
    if kind == "complex":
        attr = ComplexAttribute(name="aT", sub_attributes=[Attribute(name="s", type_=at.String)], **kw)
    else:
        type_, refs = sx.choice("type", [(at.String, None), (at.SCIMReference, ["User", "Group"])])
        kw["reference_types"] = refs
        attr = Attribute(name="aT", type_=type_, canonical_values=["x", "y"], **kw)
    top = ComplexAttribute(name="c", multi_valued=True, sub_attributes=[attr]) if kind == "sub" else attr
    r = Res([] if inext else [top])
    if inext:
        r.with_extension(SchemaExtension(schema=X_URN, name="X", attrs=[top]))
    sx.reach(kind)
    got = r.attrs.get(AttrRep(X_URN if inext else T_URN, "c" if kind == "sub" else "AT", "at" if kind == "sub" else "", extension=bool(inext)))
    sx.check(got is not None and isinstance(got, ComplexAttribute) == (kind == "complex"), "the attribute is there")
    for k, v in kw.items():
        if k == "reference_types":
            v = v or []
        sx.check(getattr(got, k) == v, "declared " + k)
    if kind == "complex":
        sx.check([a.rep.attr for a in got.attrs] == ["s"], "declared sub-attributes")
    else:
        sx.check(got.canonical_values == ["x", "y"] and got.type is type_, "declared values and type")
    if kind == "sub":
        inner = [a for a in r.attrs.get(AttrRep(X_URN if inext else T_URN, "c", extension=bool(inext))).attrs]
        sx.check(len(inner) == 1 and inner[0] == attr, "the sub-attribute of its complex attribute")


@harness("C32", bounds="two schemas declared with the same attributes, any of them extended; any replacement of id, externalId and meta", reach=["done"])
def separate(sx):
    attrs = declared()
    which = [sx.pick(f"ext{i}", 2) for i in range(2)]
    over = {}
    for k in ("id", "externalId", "meta"):
        if sx.pick("over." + k, 2):
            over[k] = ComplexAttribute(name=k, description="mine", sub_attributes=[Attribute(name="resourceType", type_=at.String), Attribute(name="location", type_=at.URIReference)]) \
                if k == "meta" else Attribute(name=k, type_=at.String, description="mine", required=True)
    rs = [Res(attrs, attr_overrides=over), Res(attrs, schema="urn:u:U", name="U", plural_name="Us")]
    for r, w in zip(rs, which):
        if w:
            r.with_extension(SchemaExtension(schema=X_URN, name="X", attrs=extension()))
    for r, w, urn in zip(rs, which, [T_URN, "urn:u:U"]):
        sx.check(r.schemas == [urn] + ([X_URN] if w else []), "the schemas are those declared")
        tops = [a.rep.attr for a in r.attrs.top_level]
        sx.check(tops == ["schemas", "id", "externalId", "meta", "ab", "Ac"] + (["b1", "aC"] if w else []), "the attributes are those declared")
        sx.check((r.attrs.get(AttrRep(X_URN, "b1", extension=True)) is not None) == bool(w), "extensions belong to the schema they were added to")
        for a in r.attrs:
            sx.check(a.rep.schema == (X_URN if a.rep.extension else urn), "attributes belong to their schema")
        for k in ("id", "externalId", "meta"):
            mine = r is rs[0] and k in over
            sx.check((r.attrs.get(AttrRep(attr=k)).description == "mine") == mine, "replaced attributes")
    sx.check([a.rep.attr for a in attrs] == ["ab", "Ac"] and all(not a.rep.schema for a in attrs), "the declaration itself stays as it was")
    sx.reach("done")


@harness("C32", bounds="options of the configuration with any limits, present or not; reference types; operand types; parts of a PATCH path", reach=["ok", "refused"])
def refused(sx):
    kind = sx.pick("kind", 5)
    if kind == 0:
        supported = sx.bool("supported")
        ops, size = [sx.int(k, 0) if sx.pick(k + "?", 2) else None for k in ("ops", "size")]
        bad = sx.And(supported, sx.Or(ops is None or ops == 0, size is None or size == 0))
        got, c = sx.outcome(create_service_provider_config, bulk={"supported": supported, "max_operations": ops, "max_payload_size": size})
        if got == "ok":
            sx.check(c.bulk.supported == supported and (ops is None or c.bulk.max_operations == ops) and (size is None or c.bulk.max_payload_size == size), "limits")
    elif kind == 1:
        supported = sx.bool("supported")
        most = sx.int("most", 0) if sx.pick("most?", 2) else None
        bad = sx.And(supported, most is None or most == 0)
        got, c = sx.outcome(create_service_provider_config, filter_={"supported": supported, "max_results": most})
        if got == "ok":
            sx.check(c.filter.supported == supported and (most is None or c.filter.max_results == most), "limits")
    elif kind == 2:
        type_, only = sx.choice("type", [(at.ExternalReference, "external"), (at.URIReference, "uri"), (at.SCIMReference, None)])
        refs = [sx.choice(f"r{i}", ["external", "uri", "User"]) for i in range(sx.pick("n", 3))]
        bad = only is not None and bool(refs) and refs != [only]
        got, a = sx.outcome(Attribute, name="r", type_=type_, reference_types=refs)
        if got == "ok":
            sx.check(a.reference_types == (refs or ([only] if only else [])), "reference types")
    elif kind == 3:
        o = sx.choice("op", [op.Equal, op.NotEqual, op.Contains, op.StartsWith, op.EndsWith, op.GreaterThan, op.GreaterThanOrEqual, op.LesserThan, op.LesserThanOrEqual])
        v, t = sx.choice("v", [("x", "text"), (1, "number"), (True, "word"), (None, "word"), ([], "no")])
        takes = {"text"} if o in (op.Contains, op.StartsWith, op.EndsWith) else {"text", "number", "word"} if o in (op.Equal, op.NotEqual) else {"text", "number"}
        bad = t not in takes
        got, _ = sx.outcome(o, AttrRep(attr="a"), v)
    else:
        rep = AttrRep(attr="a", sub_attr=sx.choice("sub", ["", "s"]))
        f = sx.choice("filter", [None, Filter(op.Equal(AttrRep(attr="x"), 1)), Filter(op.ComplexAttributeOperator(AttrRep(attr="A"), op.Present(AttrRep(attr="x")))),
                                 Filter(op.ComplexAttributeOperator(AttrRep(attr="b"), op.Present(AttrRep(attr="x"))))])
        fa = sx.choice("filter attr", [None, AttrRep(attr="a"), AttrRep(attr="a", sub_attr="x"), AttrRep(attr="b", sub_attr="x")])
        bad = bool(rep.sub_attr) and (f is not None or fa is not None)
        bad = bad or fa is not None and (not fa.sub_attr or fa.attr != "a")
        bad = bad or f is not None and (not isinstance(f.operator, op.ComplexAttributeOperator) or f.operator.attr_rep.attr != "A")
        got, p = sx.outcome(PatchPath, rep, f, fa)
        if got == "ok":
            sx.check(p.attr_rep == rep and p.complex_filter is f and p.complex_filter_attr_rep is fa, "parts of the path")
    sx.reach("refused" if bad else "ok")
    sx.check(got == ("raise" if bad else "ok"), "impossible declarations are refused, others are not")


@harness("C32", bounds="any two lookups one after another, of two names and sub-names, with the schema, that of the extension or none; a lookup before the schema is extended or not", reach=["found", "none"])
def lookups(sx):
    """a lookup does not depend on earlier ones"""
    r = Res(declared())
    if sx.pick("early", 2):
        sx.check(r.attrs.get(AttrRep("", "aC", "Va")).type is at.Boolean and r.attrs.get(AttrRep(X_URN, "ac", extension=True)) is None, "before the schema is extended")
    r.with_extension(SchemaExtension(schema=X_URN, name="X", attrs=extension()))
    for i in range(2):
        schema = sx.choice(f"schema{i}", ["", T_URN, X_URN])
        name, sub = sx.choice(f"name{i}", ["ac", "ab", "b1"]), sx.choice(f"sub{i}", ["", "va", "ab"])
        got = r.attrs.get(AttrRep(schema, name, sub, extension=schema == X_URN))
        want = [d for (s, a, b), d in TABLE.items() if schema in ("", {"t": T_URN, "x": X_URN}[s]) and name == a and sub == b]
        sx.reach("found" if want else "none")
        sx.check(got is None if not want else got is not None and (got.type, got.description) == want[0], "the attribute declared by that name")
