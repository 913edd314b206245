"""C24: the 'schemas' attribute and schema extensions"""
from symx.api import harness
from harness.common import Res, at, Attribute, ComplexAttribute, codes_at, has_at, ext, T_URN, SCIMDataContainer, AttrRep, Missing
from src.data.schemas import SchemaExtension, ResourceSchema

X1, X2 = "urn:x:X", "urn:x:XY"
EXT1 = [Attribute(name="e", type_=at.String), Attribute(name="s", type_=at.Integer),
        ComplexAttribute(name="ec", sub_attributes=[Attribute(name="a", type_=at.String)])]
EXT2 = [Attribute(name="e", type_=at.Integer), Attribute(name="mv", type_=at.String, multi_valued=True)]
R = Res([Attribute(name="s", type_=at.String), Attribute(name="n", type_=at.Integer)])
R.with_extension(SchemaExtension(schema=X1, name="X", attrs=EXT1))
R.with_extension(SchemaExtension(schema=X2, name="XY", attrs=EXT2), required=True)
KNOWN = [T_URN, X1, X2]


@harness("C24", quick={"n": 3}, thorough={"n": 3}, bounds="0..n schemas out of the main one, two extensions (one a prefix of the other) and unknown ones, "
         "in any letter case of their first letters; data of either extension there or not", reach=["ok", "unknown", "main", "ext", "empty"])
def named(sx, n):
    m = sx.pick("n", n + 1)
    idx, names = [], []
    for i in range(m):
        k = sx.pick(f"k{i}", 5)
        idx.append(k)
        if k < 3:
            u = KNOWN[k]
            names.append(sx.case(f"c{i}", u[:3]) + u[3:-1] + sx.case(f"d{i}", u[-1]))
        elif k == 3:
            names.append("urn:q:" + sx.string(f"q{i}", 0, 1))
        else:
            names.append(sx.string(f"q{i}", 0, 2))
    body = {"schemas": names, "s": "x"}
    has1, has2 = sx.pick("has1", 2), sx.pick("has2", 2)
    wrong = sx.pick("wrong", 2)
    if wrong:
        body["n"] = "x"
    if has1:
        body[X1] = {"e": "x"}
    if has2:
        body[X2] = {"e": 1}
    out, issues = (R.parse if sx.pick("dir", 2) else R.dump)(body)
    codes = codes_at(issues, "schemas")
    if m == 0:
        sx.reach("empty")       # reported by the check of presence
        sx.check(issues.has_issues() == bool(wrong), "nothing is reported")
        return
    unknown, main = any(k > 2 for k in idx), 0 not in idx
    lacking = (1 if has1 and 1 not in idx else 0) + (1 if has2 and 2 not in idx else 0)
    sx.check((27 in codes) == unknown, "unknown schemas are reported")
    sx.check((28 in codes) == main, "the main schema has to be named")
    sx.check(codes.count(29) == lacking, "schemas of extension data have to be named")
    bad = unknown or main or bool(lacking)
    sx.check(issues.has_issues() == (bad or bool(wrong)) and bool(codes_at(issues, "n")) == bool(wrong), "nothing else is reported")
    sx.reach("unknown" if unknown else "main" if main else "ext" if lacking else "ok")


@harness("C24", bounds="attributes of the core and of two extensions with the same names: each there or not with a value of any of three kinds; "
         "extension in any letter case", reach=["ok", "bad"])
def separate(sx):
    spec = {"s": (None, "s", "s"), "n": (None, "n", "i"), "x1e": (X1, "e", "s"), "x1s": (X1, "s", "i"), "x2e": (X2, "e", "i")}
    body = {"schemas": [T_URN, X1, X2]}
    u1, u2 = sx.choice("u1", [X1, X1.upper()]), sx.choice("u2", [X2, X2.lower()])
    bad, there = set(), {}
    pairs = [("x1e", "x1s"), ("s", "x1s"), ("x1e", "x2e"), ("n", "x2e")]
    for key in sx.choice("pair", pairs):
        schema, name, typ = spec[key]
        k = sx.pick(key, 4)
        if k == 3:
            continue
        v = [lambda: sx.string(key + ".v", 0, 1), lambda: sx.int(key + ".v"), lambda: None][k]()
        if k < 2 and "si"[k] != typ:
            bad.add(key)
        there[key] = v
        if schema is None:
            body[name] = v
        else:
            body.setdefault(u1 if schema == X1 else u2, {})[name] = v
    out, issues = (R.parse if sx.pick("dir", 2) else R.dump)(body)
    for key, (schema, name, typ) in spec.items():
        loc = (name,) if schema is None else (schema, name)
        sx.check(bool(codes_at(issues, *loc)) == (key in bad), "issues are located under the schema that has them")
        if key not in bad:
            rep = AttrRep(T_URN, name) if schema is None else AttrRep(schema, name, extension=True)
            got = out[rep]
            sx.check((got is Missing) if key not in there else got == there[key], "each attribute has its own value")
    sx.check(issues.has_issues() == bool(bad), "nothing else is reported")
    sx.reach("bad" if bad else "ok")


@harness("C24", quick={"n": 3}, thorough={"n": 4}, bounds="up to n extensions with schemas out of four, in any letter case, added one after another", reach=["ok", "refused"])
def added(sx, n):
    r = Res([Attribute(name="s", type_=at.String)])
    have = [T_URN]
    for i in range(n):
        u = sx.choice(f"u{i}", [T_URN, X1, X2])
        v = sx.case(f"c{i}", u[:4]) + u[4:]
        before = list(r.schemas)
        kind, _ = sx.outcome(r.with_extension, SchemaExtension(schema=v, name="X", attrs=[Attribute(name="e", type_=at.String)]))
        if u in have:
            sx.reach("refused")
            sx.check(kind == "raise" and list(r.schemas) == before, "a schema is not added twice, whatever its letter case")
        else:
            sx.reach("ok")
            have.append(u)
            sx.check(kind == "ok" and r.schemas[-1] == v and r.schema_extensions[-1] == v, "the schema is added")
            sx.check(r.attrs.get(AttrRep(v, "e", extension=True)) is not None, "with its attributes")
    sx.check(len(r.schemas) == len(have) and r.schemas[0] == T_URN, "main schema first, then the extensions")


MANY = [f"urn:e:E{i}" for i in range(12)]
RM = Res([Attribute(name="s", type_=at.String)])
for _i, _u in enumerate(MANY):
    RM.with_extension(SchemaExtension(schema=_u, name=f"E{_i}", attrs=[Attribute(name="e", type_=at.String), Attribute(name=f"o{_i}", type_=at.Integer)]))


@harness("C24", bounds="twelve extensions; any one not named, any one with any text or integer", reach=["ok", "bad", "lacking"])
def many(sx):
    i, j = sx.pick("i", 13), sx.pick("j", 12)
    body = {"schemas": [T_URN] + [u for k, u in enumerate(MANY) if k != i]}
    for k, u in enumerate(MANY):
        body[u] = {"e": f"v{k}", f"o{k}": k}
    right = sx.pick("right", 2)
    body[MANY[j]][f"o{j}"] = v = sx.int("v") if right else sx.string("v", 0, 1)
    out, issues = (RM.parse if sx.pick("dir", 2) else RM.dump)(body)
    sx.check(codes_at(issues, "schemas") == ([29] if i < 12 else []), "schemas of extension data have to be named")
    for k, u in enumerate(MANY):
        sx.check(has_at(issues, u) == (k == j and not right), "issues are located under the schema that has them")
    sx.check(issues.has_issues() == (i < 12 or not right), "nothing else is reported")
    if i < 12:
        sx.reach("lacking")
    elif not right:
        sx.reach("bad")
    else:
        sx.reach("ok")
        for k, u in enumerate(MANY):
            sx.check(out[AttrRep(u, "e", extension=True)] == f"v{k}", "each attribute has its own value")
            sx.check(out[AttrRep(u, f"o{k}", extension=True)] == (v if k == j else k), "each attribute has its own value")


@harness("C24", bounds="the main schema or an extension with any character added at either end, any one dropped or replaced, next to the main schema", reach=["known", "unknown"])
def near(sx):
    """schemas are compared as a whole"""
    u = KNOWN[sx.pick("of", len(KNOWN))]
    how = sx.pick("how", 4)
    c = sx.string("c", 1)
    i = sx.choice("at", [0, 3, len(u) // 2, len(u) - 1]) if how > 1 else 0
    name = u + c if how == 0 else c + u if how == 1 else u[:i] + u[i + 1:] if how == 2 else u[:i] + c + u[i + 1:]
    first = sx.pick("first", 2)
    out, issues = (R.parse if sx.pick("dir", 2) else R.dump)({"schemas": [name, T_URN] if first else [T_URN, name], "s": "x"})
    known = sx.Or(*[name.lower() == k.lower() for k in KNOWN])
    sx.check(codes_at(issues, "schemas") == ([] if known else [27]) and issues.has_issues() == sx.Not(known), "names close to a known one are unknown")
    sx.reach("known" if known else "unknown")
    out, issues = (R.parse if sx.pick("dir2", 2) else R.dump)({"schemas": [name], "s": "x"})
    main = name.lower() == T_URN.lower()
    sx.check((28 in codes_at(issues, "schemas")) == sx.Not(main), "and are not the main one")
