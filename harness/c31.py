"""C31: parsers and dumpers which the application declares with an attribute"""
from symx.api import harness
from harness.common import Res, at, Attribute, ComplexAttribute, SCIMDataContainer, codes_at, ext, has_at, Missing, CONFIG, X_URN, T_URN
from src.error import ValidationError, ValidationIssues
from src.request_validators import ResourcesPOST, ResourceObjectGET

CALLS = []
CODE = 39


def step(way, name, n, last=False):
    """a processor which appends its number to every text it gets, and reports a value with 'x' in it if it is the last"""
    def processor(value):
        CALLS.append((way, name, n))
        issues = ValidationIssues()

        def text(v):
            if last and "x" in v:
                issues.add(issue=ValidationError.not_supported(), proceed=False)
            return v + str(n)

        def item(v):
            if isinstance(v, SCIMDataContainer):
                v = SCIMDataContainer(v.to_dict())
                v["t"] = text(v["t"])
                return v
            return text(v)

        return ([item(v) for v in value] if isinstance(value, list) else item(value)), issues
    return processor


def steps(name, n):
    return {"parsers": [step("parse", name, i + 1, i == n - 1) for i in range(n)], "dumpers": [step("dump", name, i + 7, i == 0) for i in range(1)]}


def attrs(pre, n):
    cx = {"complex_" + k: v for k, v in steps(pre + "c", n).items()}
    cm = {"complex_" + k: v for k, v in steps(pre + "cm", n).items()}
    sub = [Attribute(name="t", type_=at.String), Attribute(name="n", type_=at.Integer)]
    return [
        Attribute(name="s", type_=at.String, **steps(pre + "s", n)), Attribute(name="plain", type_=at.String),
        Attribute(name="ms", type_=at.String, multi_valued=True, **steps(pre + "ms", n)),
        ComplexAttribute(name="c", sub_attributes=sub, **cx), ComplexAttribute(name="cm", multi_valued=True, sub_attributes=sub, **cm),
        ComplexAttribute(name="d", sub_attributes=[Attribute(name="s", type_=at.String, **steps(pre + "d.s", n)), Attribute(name="o", type_=at.String)]),
        ComplexAttribute(name="dm", multi_valued=True, sub_attributes=[Attribute(name="s", type_=at.String, **steps(pre + "dm.s", n)), Attribute(name="o", type_=at.String)]),
    ]


def make(n):
    r = Res(attrs("", n))
    r.with_extension(ext(attrs("x:", n)))
    return r


SCHEMAS = {n: make(n) for n in (1, 2, 3)}
KINDS = ["s", "ms", "c", "cm", "d.s", "dm.s"]


@harness("C31", quick={"n": 2}, thorough={"n": 3}, bounds="one to n processors of attributes of six shapes, in the schema or its extension; the attribute absent, null, of a wrong type, "
         "or any text of two letters; lists of 0..2 items; parsing or dumping", reach=["ok", "refused", "skipped"])
def processors(sx, n):
    n = 1 + sx.pick("n", n)
    way = sx.choice("way", ["parse", "dump"])
    inext = sx.pick("ext", 2)
    kind = sx.choice("kind", KINDS)
    state = sx.choice("state", ["absent", "null", "bad", "good"])
    multi = kind in ("ms", "cm", "dm.s")
    vs = [sx.string(f"v{i}", 1, 2, chars="abx") for i in range(sx.pick("k", 3) if multi else 1)] if state == "good" else [None if state == "null" else 7]
    top, _, sub = kind.partition(".")
    cx = kind in ("c", "cm")
    wrap = (lambda v: {"t": v, "n": 1}) if cx else (lambda v: {"s": v, "o": "o"}) if sub else (lambda v: v)
    if state == "null" and not sub:
        value = None
    elif state == "bad" and cx:
        value = [{"t": "a", "n": "no"}] if multi else {"t": "a", "n": "no"}
    else:
        value = [wrap(v) for v in vs] if multi else wrap(vs[0])
    part = {"plain": "p"}
    if state == "absent":
        if sub:
            part[top] = [{"o": "o"}] if multi else {"o": "o"}
    else:
        part[top] = value
    body = {"schemas": [T_URN, X_URN], X_URN: part} if inext else {"schemas": [T_URN], **part}
    del CALLS[:]
    out, issues = getattr(SCHEMAS[n], way)(body)
    calls = list(CALLS)
    name = ("x:" if inext else "") + kind
    where = ((X_URN,) if inext else ()) + (top,)
    runs = (len(vs) if kind == "dm.s" else 1) if state == "good" else 0
    order = list(range(1, n + 1)) if way == "parse" else [7]
    sx.check(calls == [(way, name, i) for _ in range(runs) for i in order], "every processor runs once, in order, and only on values that passed the checks")
    if state == "bad":
        sx.check(issues.has_issues(), "the value is refused")
        sx.reach("refused")
        return
    if state != "good":
        sx.check(not issues.has_issues(), "nothing to report")
        sx.reach("skipped")
        return
    before = "".join(str(i) for i in order[:-1])        # what earlier processors appended has no x in it
    wrong = [sx.Or(False, *["x" == ch for ch in v]) for v in vs]
    for i, v in enumerate(vs):
        loc = where + ((i, "s") if kind == "dm.s" else ("s",) if sub else ())
        mine = wrong[i] if kind == "dm.s" or not multi else sx.Or(False, *wrong)
        sx.check((CODE in codes_at(issues, *loc)) == mine, "an issue of a processor is reported at the attribute")
    any_ = sx.Or(False, *wrong)
    sx.check(issues.has_issues() == any_, "nothing else is reported")
    if any_:
        sx.reach("refused")
        return
    d = out.to_dict()
    d = d[X_URN] if inext else d
    got = d[top]
    suffix = before + str(order[-1])
    for i, v in enumerate(vs):
        g = got[i] if multi else got
        g = g["t"] if cx else g["s"] if sub else g
        sx.check(g == v + suffix, "the result of the last processor is the value of the attribute")
    sx.check(not multi or len(got) == len(vs), "and there are as many")
    sx.check(d["plain"] == "p", "other attributes are left alone")
    sx.reach("ok")


REQ = {n: ResourcesPOST(CONFIG, resource_schema=SCHEMAS[n]) for n in SCHEMAS}
RESP = {n: ResourceObjectGET(CONFIG, resource_schema=SCHEMAS[n]) for n in SCHEMAS}


@harness("C31", bounds="a request or a response with any text of two letters in two attributes which have processors, one of them of the extension", reach=["ok", "refused"])
def validators(sx):
    v, w = sx.string("v", 1, 2, chars="abx"), sx.string("w", 1, 2, chars="abx")
    body = {"schemas": [T_URN, X_URN], "s": v, "d": {"s": "a"}, X_URN: {"cm": [{"t": w}, {"t": "b"}]}}
    wrong = sx.Or(*["x" == ch for ch in v], *["x" == ch for ch in w])
    if sx.pick("request", 2):
        data, issues = REQ[2].parse_request(body=body)
        suffix = "12"
    else:
        body.update(id="1", meta={"resourceType": "T", "location": "https://h/Ts/1"})
        data, issues = RESP[2].dump_response(status_code=200, body=body)
        suffix = "7"
    sx.check(issues.has_issues() == wrong and (data.body is None) == wrong, "refused by a processor")
    if wrong:
        sx.reach("refused")
        return
    out = SCIMDataContainer(data.body).to_dict() if isinstance(data.body, dict) else data.body.to_dict()
    sx.check(out["s"] == v + suffix and out["d"]["s"] == "a" + suffix, "processed")
    sx.check([i["t"] for i in out[X_URN]["cm"]] == [w + suffix, "b" + suffix], "processed items")
    sx.reach("ok")


@harness("C31", quick={"n": 2}, thorough={"n": 3}, bounds="two complex attributes, each multi-valued or not, declared with the same list or tuple of n processors, whose values are any text of two letters",
         reach=["ok", "refused"])
def shared(sx, n):
    """attributes declared with the same processors do not influence each other"""
    form = sx.choice("form", [list, tuple])
    given = {w: form([step(w, "q", i + 1, i == n - 1) for i in range(n)]) for w in ("parse", "dump")}
    multi = {"c": sx.pick("c", 2), "d": sx.pick("d", 2)}
    sub = [Attribute(name="t", type_=at.String), Attribute(name="primary", type_=at.Boolean)]
    schema = Res([ComplexAttribute(name=k, multi_valued=bool(m), sub_attributes=sub, complex_parsers=given["parse"], complex_dumpers=given["dump"]) for k, m in multi.items()])
    way = sx.choice("way", ["parse", "dump"])
    v = {k: sx.string(f"v{k}", 1, chars="ax") for k in multi}
    k2 = {k: sx.pick(f"two{k}", 2) if m else 0 for k, m in multi.items()}
    body = {"schemas": [T_URN], **{k: [{"t": v[k], "primary": True}] + [{"t": "b", "primary": True}] * k2[k] if m else {"t": v[k], "primary": True} for k, m in multi.items()}}
    del CALLS[:]
    out, issues = getattr(schema, way)(body)
    sx.check(len(CALLS) == 2 * n, "every processor runs once for each attribute")
    sx.check(len(given["parse"]) == n and len(given["dump"]) == n, "what the application declared is left alone")
    bad = False
    for k in multi:
        wrong = v[k] == "x"
        sx.check((CODE in codes_at(issues, k)) == wrong, "an issue of a processor is reported at the attribute")
        sx.check(has_at(issues, k) == sx.Or(wrong, bool(k2[k])), "and more than one primary item, but nothing else")
        bad = sx.Or(bad, wrong, bool(k2[k]))
    if bad:
        sx.reach("refused")
        return
    suffix = "".join(str(i + 1) for i in range(n))
    for k, m in multi.items():
        got = out.to_dict()[k]
        sx.check((got[0] if m else got)["t"] == v[k] + suffix, "processed")
    sx.reach("ok")


def mark(letter):
    def processor(value):
        if isinstance(value, list):
            return [processor(v)[0] for v in value], ValidationIssues()
        if isinstance(value, SCIMDataContainer):
            value = SCIMDataContainer(value.to_dict())
            value["t"] = value["t"] + letter
            return value, ValidationIssues()
        return value + letter, ValidationIssues()
    return processor


MARKS = [mark(c) for c in "xyz"]


@harness("C31", quick={"n": 3}, thorough={"n": 4}, bounds="any sequence of at most n of three processors, the same ones again or not, with an attribute of four shapes", reach=["done"])
def sequence(sx, n):
    """each runs on what the one before returned, however often it is declared"""
    kind = sx.choice("kind", ["s", "ms", "c", "cm"])
    way = sx.choice("way", ["parse", "dump"])
    seq = [sx.pick(f"p{i}", 3) for i in range(sx.pick("k", n + 1))]
    v = sx.string("v", 0, 1, chars="ab")
    kw = {("complex_" if kind[0] == "c" else "") + {"parse": "parsers", "dump": "dumpers"}[way]: [MARKS[i] for i in seq]}
    multi = kind in ("ms", "cm")
    if kind[0] == "c":
        a, value = ComplexAttribute(name="a", multi_valued=multi, sub_attributes=[Attribute(name="t", type_=at.String)], **kw), {"t": v}
    else:
        a, value = Attribute(name="a", type_=at.String, multi_valued=multi, **kw), v
    out, issues = getattr(Res([a]), way)({"schemas": [T_URN], "a": [value, value] if multi else value})
    sx.check(not issues.has_issues(), "nothing to report")
    got = out.to_dict()["a"]
    for g in got if multi else [got]:
        sx.check((g["t"] if kind[0] == "c" else g) == v + "".join("xyz"[i] for i in seq), "every one declared, in order")
    sx.reach("done")
