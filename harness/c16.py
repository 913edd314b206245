"""C16: sorting"""
from datetime import datetime, timezone

from symx.api import harness
from harness.c07 import TIMES
from harness.common import Res, at, Attribute, ComplexAttribute, SCIMDataContainer, AttrRep, X_URN, ext, Invalid
from src.sorter import Sorter


def cplx(name, exact, primary=True):
    return ComplexAttribute(name=name, multi_valued=True, sub_attributes=[
        Attribute(name="value", type_=at.String, case_exact=exact), Attribute(name="primary", type_=at.Boolean)])


R = Res([
    Attribute(name="s", type_=at.String), Attribute(name="se", type_=at.String, case_exact=True),
    Attribute(name="n", type_=at.Integer), Attribute(name="d", type_=at.Decimal), Attribute(name="b", type_=at.Boolean),
    Attribute(name="mv", type_=at.String, multi_valued=True), Attribute(name="mn", type_=at.Integer, multi_valued=True),
    cplx("cm", False), cplx("cme", True),
    ComplexAttribute(name="c", sub_attributes=[Attribute(name="a", type_=at.String), Attribute(name="n", type_=at.Integer)]),
])
R.with_extension(ext())


def fold(v):
    return v.lower()


def same(v):
    return v


def le(a, b):
    return a <= b


def check_sorted(sx, items, keys, out, asc):
    """items[i] has the key keys[i], or None; out is what the sorter returned"""
    n = len(items)
    sx.check(len(out) == n, "number of resources")
    order = [int(o["id"]) for o in out]
    sx.check(sorted(order) == list(range(n)), "every resource is there once")
    for x, y in zip(order, order[1:]):
        kx, ky = keys[x], keys[y]
        if kx is None and ky is None:
            sx.check(x < y, "resources without a value keep their order")
        elif kx is None:
            sx.check(not asc, "resources without a value are last in ascending order")
        elif ky is None:
            sx.check(asc, "resources without a value are first in descending order")
        elif asc:
            sx.check(sx.Or(kx < ky, sx.And(kx == ky, x < y)), "ascending order; equal ones keep theirs")
        else:
            sx.check(sx.Or(kx > ky, sx.And(kx == ky, x < y)), "descending order; equal ones keep theirs")
    sx.reach("asc" if asc else "desc")


@harness("C16", quick={"n": 3}, thorough={"n": 4}, bounds="lists of n resources, texts of 0..1 characters, numbers and booleans of "
         "any value, present, absent, null or empty; top-level, sub- and extension attributes", reach=["asc", "desc"], budget=2)
def simple(sx, n):
    kind = sx.choice("kind", ["s", "se", "n", "d", "b", "c.a", "c.n", X_URN + ":e", X_URN + ":en"])
    asc = sx.choice("asc", [True, False])
    text = kind in ("s", "se", "c.a", X_URN + ":e")
    items, keys = [], []
    for i in range(n):
        st = sx.pick(f"st{i}", 3)
        d = {"id": str(i)}
        if st == 0:
            k = None
            v = None
        elif st == 1:
            v = sx.choice(f"none{i}", [None, ""] if text else [None])
            k = None
        else:
            if text:
                v = sx.string(f"v{i}", 1, chars="aAbB1")
                k = v.lower() if kind != "se" else v
            elif kind == "d":
                v = k = sx.real(f"v{i}", -4, 4, 2)
            elif kind == "b":
                v = k = sx.bool(f"v{i}")
            else:
                v = k = sx.int(f"v{i}")
        if st:
            if kind.startswith(X_URN):
                d[X_URN] = {kind.rsplit(":", 1)[1]: v}
            elif "." in kind:
                d["c"] = {kind[2:]: v}
            else:
                d[kind] = v
        items.append(SCIMDataContainer(d))
        keys.append(k)
    rep = AttrRep.parse(kind)
    if kind.startswith(X_URN):
        rep = AttrRep(X_URN, rep.attr, extension=True)
    out = Sorter(rep, asc)(items, schema=R)
    check_sorted(sx, items, keys, out, asc)
    sx.check([i["id"] for i in items] == [str(i) for i in range(n)], "the caller's list is left alone")


@harness("C16", quick={"n": 3}, thorough={"n": 3}, bounds="n resources with multi-valued attributes of 0..2 items: by the first item, or "
         "by the primary one of complex attributes", reach=["asc", "desc"], budget=2)
def multi(sx, n):
    kind = sx.choice("kind", ["mv", "mn", "cm", "cme"])
    asc = sx.choice("asc", [True, False])
    items, keys = [], []
    for i in range(n):
        m = sx.pick(f"m{i}", 4)
        d = {"id": str(i)}
        k = None
        if m:
            vs = []
            for j in range(m - 1):
                vs.append(sx.string(f"v{i}{j}", 1, chars="aAb") if kind != "mn" else sx.int(f"v{i}{j}"))
            if kind in ("mv", "mn"):
                d[kind] = vs
                if vs:
                    k = vs[0].lower() if kind == "mv" else vs[0]
            else:
                prim = sx.pick(f"p{i}", m) - 1      # index of the primary item, or none
                d[kind] = [{"value": v, **({"primary": True} if j == prim else {"primary": False} if j else {})}
                           for j, v in enumerate(vs)]
                if prim >= 0:
                    k = vs[prim] if kind == "cme" else vs[prim].lower()
        items.append(SCIMDataContainer(d))
        keys.append(k)
    out = Sorter(AttrRep(attr=kind), asc)(items, schema=R)
    check_sorted(sx, items, keys, out, asc)


S2 = Res([Attribute(name="s", type_=at.String), Attribute(name="q", type_=at.String)], schema="urn:u:U", name="U", plural_name="Us")


@harness("C16", quick={"n": 3}, thorough={"n": 4}, bounds="n resources of two types, one of which may lack the attribute; any letter case of "
         "the attribute's name", reach=["asc", "desc"])
def two_types(sx, n):
    name = sx.choice("name", ["s", "n", "q"])
    asc = sx.choice("asc", [True, False])
    items, keys, schemas = [], [], []
    for i in range(n):
        t = sx.pick(f"t{i}", 2)
        has = sx.pick(f"has{i}", 2)
        d = {"id": str(i)}
        k = None
        defined = name == "s" or (name == "n") == (t == 0)
        if has:
            v = sx.int(f"v{i}") if name == "n" else sx.string(f"v{i}", 1, chars="aAb")
            d[name] = v
            if defined:
                k = v if name == "n" else v.lower()
        items.append(SCIMDataContainer(d))
        keys.append(k)
        schemas.append([R, S2][t])
    out = Sorter(AttrRep(attr=sx.case("case", name)), asc)(items, schema=schemas)
    check_sorted(sx, items, keys, out, asc)


@harness("C16", quick={"n": 4}, thorough={"n": 6}, bounds="every sort attribute text of at most n characters", reach=["ok", "bad"])
def parse(sx, n):
    t = sx.string("t", 0, n, chars="aB.: 1")
    asc = sx.choice("asc", [True, False])
    s, issues = Sorter.parse(by=t, asc=asc)
    rep = AttrRep.parse(t)
    sx.check((s is Invalid) == (rep is Invalid) and issues.has_issues() == (rep is Invalid), "sort attribute is a proper name")
    if s is not Invalid:
        sx.check(s.attr_rep == rep and s.asc is asc, "parsed sorter")
        sx.reach("ok")
    else:
        sx.reach("bad")


@harness("C16", quick={"n": 8}, thorough={"n": 16}, bounds="n resources in the orders i*a+b modulo 7 or 11, any two of them without a value", reach=["asc", "desc"])
def long(sx, n):
    m = sx.choice("m", [7, 11])
    a, b = sx.pick("a", m), sx.choice("b", [0, 3])
    asc = sx.choice("asc", [True, False])
    x, y = sx.pick("x", n), sx.choice("y", [0, n // 2, n - 1])
    items, keys = [], []
    for i in range(n):
        d = {"id": str(i)}
        k = (i * a + b) % m
        if i in (x, y):
            k = None
        else:
            d["n"] = k
        items.append(SCIMDataContainer(d))
        keys.append(k)
    check_sorted(sx, items, keys, Sorter(AttrRep(attr="n"), asc)(items, schema=R), asc)


def xattrs():
    return [ComplexAttribute(name="xm", multi_valued=True, sub_attributes=[
        Attribute(name="value", type_=at.String), Attribute(name="n", type_=at.Integer), Attribute(name="primary", type_=at.Boolean)])]


SUB = Res([ComplexAttribute(name="cm", multi_valued=True, sub_attributes=[
    Attribute(name="value", type_=at.String), Attribute(name="e", type_=at.String, case_exact=True), Attribute(name="n", type_=at.Integer),
    Attribute(name="mv", type_=at.String, multi_valued=True), Attribute(name="primary", type_=at.Boolean)]),
    ComplexAttribute(name="c", sub_attributes=[Attribute(name="mv", type_=at.String, multi_valued=True)])])
SUB.with_extension(ext(xattrs()))


@harness("C16", quick={"n": 2}, thorough={"n": 3}, bounds="n resources with multi-valued complex attributes of 0..2 items, sorted by any of their "
         "sub-attributes, present or not, of any text of two letters or any integer; also in extensions; multi-valued sub-attributes", reach=["asc", "desc"], budget=2)
def sub_multi(sx, n):
    """a sub-attribute of a multi-valued attribute stands for that of the primary or else the first item"""
    kind = sx.choice("kind", ["cm.value", "cm.e", "CM.N", "cm.mv", "c.mv", X_URN + ":xm.value", X_URN + ":xm.n"])
    asc = sx.choice("asc", [True, False])
    sub = kind.rsplit(".", 1)[1].lower()
    items, keys = [], []
    for i in range(n):
        d = {"id": str(i)}
        k = None
        m = 1 if kind == "c.mv" else sx.pick(f"m{i}", 4) - 1
        vs, prim = [], sx.pick(f"p{i}", m + 1) - 1 if m > 0 and kind != "c.mv" else -1
        for j in range(m):
            it, key = {}, None
            if sx.pick(f"has{i}{j}", 2):
                if sub == "n":
                    it[sub] = key = sx.int(f"v{i}{j}")
                else:
                    v = sx.string(f"v{i}{j}", 1, chars="aAb") if sub != "mv" else sx.string(f"v{i}{j}", 2, chars="aAb")
                    key = v if sub == "e" else v.lower()
                    it[sub] = [v, "a"] if sub == "mv" else v
            if j == prim:
                it["primary"] = True
            vs.append((it, key))
        if m >= 0:
            lst = [it for it, _ in vs]
            if kind == "c.mv":
                d["c"] = lst[0]
            elif kind.startswith(X_URN):
                d[X_URN] = {"xm": lst}
            else:
                d["cm"] = lst
            if vs:
                k = vs[max(prim, 0)][1]
        items.append(SCIMDataContainer(d))
        keys.append(k)
    rep = AttrRep.parse(kind)
    if kind.startswith(X_URN):
        rep = AttrRep(X_URN, rep.attr, rep.sub_attr, extension=True)
    out = Sorter(rep, asc)(items, schema=SUB)
    check_sorted(sx, items, keys, out, asc)


TYPED = Res([Attribute(name="t", type_=at.DateTime), Attribute(name="ts", type_=at.DateTime, multi_valued=True), Attribute(name="u", type_=at.URIReference),
             Attribute(name="x", type_=at.ExternalReference, case_exact=True), Attribute(name="r", type_=at.SCIMReference, reference_types=["T"], case_exact=True),
             ComplexAttribute(name="c", sub_attributes=[Attribute(name="t", type_=at.DateTime)])])


SPELLINGS = TIMES[1:5] + [("2020-01-01T00:00:00Z", 0), ("2020-01-01T00:00:00.5Z", 0.5 / 60), ("2020-01-01T00:15Z", 15)]


@harness("C16", quick={"n": 3}, thorough={"n": 4}, bounds="n resources with date-times of any of seven spellings, as text or as dates, or references of any text of two "
         "letters, or none; top-level, multi-valued and sub-attributes", reach=["asc", "desc"])
def typed(sx, n):
    """date-times are ordered as instants, references as texts"""
    kind = sx.choice("kind", ["t", "ts", "c.t", "u", "x", "r", "meta.lastModified", "meta.location"])
    asc = sx.choice("asc", [True, False])
    obj = kind not in ("u", "x", "r", "meta.location") and sx.pick("obj", 2)
    items, keys = [], []
    for i in range(n):
        d = {"id": str(i)}
        k = None
        if sx.pick(f"has{i}", 2):
            if kind in ("u", "x", "r", "meta.location"):
                v = "http://h/" + sx.string(f"v{i}", 1, chars="aAb")
                k = v if kind in ("x", "r") else v.lower()
            else:
                v, k = sx.choice(f"v{i}", SPELLINGS)
                v = datetime.fromisoformat(v) if obj else v
            if "." in kind:
                top, sub = kind.split(".")
                d[top] = {sub: v}
            else:
                d[kind] = [v, datetime(2000, 1, 1, tzinfo=timezone.utc) if obj else "2000-01-01T00:00:00Z"] if kind == "ts" else v
        items.append(SCIMDataContainer(d))
        keys.append(k)
    out = Sorter(AttrRep.parse(kind), asc)(items, schema=TYPED)
    check_sorted(sx, items, keys, out, asc)


@harness("C16", quick={"n": 4}, thorough={"n": 12}, bounds="a resource with 1..n items, any of them primary, any text of two letters in any of them, next to a resource with one item; "
         "sorted by the attribute or its sub-attribute, in either direction", reach=["primary", "none"])
def leading(sx, n):
    m = 1 + sx.pick("m", n)
    p = sx.pick("p", m + 1) - 1
    j = sx.pick("j", m)
    v = sx.string("v", 1, chars="aAbc")
    sub = sx.pick("sub", 2)
    lst = [{"value": v if i == j else "a" if i < j else "c", **({"primary": True} if i == p else {"primary": False} if i % 2 else {})} for i in range(m)]
    lead = p if p >= 0 else 0 if sub else None
    keys = [None if lead is None else lst[lead]["value"].lower(), "b"]
    asc = sx.choice("asc", [True, False])
    lists = [lst, [{"value": "b", "primary": True}]]
    if sx.pick("order", 2):
        lists, keys = lists[::-1], keys[::-1]
    items = [SCIMDataContainer({"id": str(i), "cm": x}) for i, x in enumerate(lists)]
    sx.reach("none" if p < 0 else "primary")
    out = Sorter(AttrRep(attr="cm", sub_attr="value" if sub else ""), asc)(items, schema=SUB)
    check_sorted(sx, items, keys, out, asc)
