"""C05: attribute notation"""
from symx.api import harness
from harness.common import FOREIGN, foreign_same
from src.data.container import AttrRep, Invalid


def low(s):
    return s.lower()


def ref_valid(text):
    """schema prefix segments [\\w.-]+: , attribute \\w+ or $ref, optional .sub"""
    # the part after the last colon is attr[.sub]
    parts = text.split(":")
    for p in parts[:-1]:
        if p == "":
            return False
        for ch in p:
            if not (ch.isalnum() or ch == "_" or ch == "." or ch == "-"):
                return False
    names = parts[-1].split(".")
    if len(names) > 2:
        return False
    for nme in names:
        if nme == "":
            return False
        if nme == "$ref":
            continue
        for ch in nme:
            if not (ch.isalnum() or ch == "_"):
                return False
    return True


@harness("C05", quick={"n": 3}, thorough={"n": 5}, bounds="every text of at most n characters",
         reach=["valid", "invalid"])
def parse_renders_back(sx, n):
    s = sx.string("s", 0, n)
    r = AttrRep.parse(s)
    sx.observe("r", r is Invalid)
    if r is Invalid:
        sx.reach("invalid")
        return
    sx.reach("valid")
    sx.check(repr(r) == s, "an accepted attribute name does not render back to itself")
    r2 = AttrRep.parse(s.swapcase() if s.isascii() else s)
    if s.isascii():
        sx.check(r2 is not Invalid and r == r2 and r2 == r, "names differing in case only are not equal")


@harness("C05", quick={"n": 4}, thorough={"n": 6}, bounds="every text of at most n characters over 'aB1_:.-$ref []'",
         reach=["valid", "invalid"])
def grammar(sx, n):
    s = sx.string("s", 0, n, chars="aB_:.-$ ")
    r = AttrRep.parse(s)
    ok = ref_valid(s)
    sx.reach("valid" if ok else "invalid")
    sx.check((r is not Invalid) == ok, "accepted attribute names differ from the notation")


@harness("C05", quick={"n": 3}, thorough={"n": 5}, bounds="schema, attribute and sub-attribute of 1..n characters",
         reach=["sub", "nosub", "schema", "noschema"])
def components(sx, n):
    word = "aB1_"
    schema = ""
    if sx.pick("has_schema", 2):
        schema = sx.string("schema", 1, n, chars=word + ".-")
        if sx.pick("has_schema2", 2):
            schema = schema + ":" + sx.string("schema2", 1, n, chars=word + ".-")
        sx.reach("schema")
    else:
        sx.reach("noschema")
    attr = sx.string("attr", 1, n, chars=word)
    sub = ""
    if sx.pick("has_sub", 2):
        sub = sx.choice("ref", ["", "$ref"]) or sx.string("sub", 1, n, chars=word)
        sx.reach("sub")
    else:
        sx.reach("nosub")
    text = (schema + ":" if schema else "") + attr + ("." + sub if sub else "")
    r = AttrRep.parse(text)
    sx.check(r is not Invalid, "well-formed attribute name refused")
    sx.check(r.schema == schema and r.attr == attr and r.sub_attr == sub, "attribute name split at the wrong place")
    sx.check(r.attr_with_schema == (schema + ":" + attr if schema else attr), "name with schema")
    built = AttrRep(schema=schema, attr=attr, sub_attr=sub)
    sx.check(built == r and r == built and repr(built) == text, "built and parsed names differ")


@harness("C05", bounds="pairs of names over two attributes, two sub-attributes, two schemas, any letter case",
         reach=["equal", "different"])
def equality(sx):
    def one(i):
        s = sx.pick(f"s{i}", 3)
        a = sx.pick(f"a{i}", 2)
        b = sx.pick(f"b{i}", 3)
        rep = AttrRep(schema=["", sx.case(f"sch{i}", "u:a") if s == 1 else "", "u:b"][s],
                      attr=sx.case(f"att{i}", "ab") if a else "b",
                      sub_attr=["", sx.case(f"sub{i}", "ab") if b == 1 else "", "c"][b])
        return s, a, b, rep
    s1, a1, b1, r1 = one(1)
    s2, a2, b2, r2 = one(2)
    eq = a1 == a2 and b1 == b2 and (s1 == s2 or not s1 or not s2)
    sx.reach("equal" if eq else "different")
    sx.check((r1 == r2) == eq, "attribute name equality")
    sx.check((r2 == r1) == eq, "attribute name equality is not symmetric")
    top = a1 == a2 and (s1 == s2 or not s1 or not s2)
    sx.check(r1.top_level_equals(r2) == top and r2.top_level_equals(r1) == top, "equality of the top-level attributes")


@harness("C05", quick={"n": 12}, thorough={"n": 40}, bounds="schemas of n segments, attributes and sub-attributes of n characters, with any character at one of five places of "
         "each", reach=["valid", "invalid"])
def long(sx, n):
    schema = ":".join(["urn"] + ["a-b.1"] * n)
    attr, sub = "Ab_1"[:4] * (n // 4), "Cd_2" * (n // 4)
    which = sx.pick("which", 3)
    part = [schema, attr, sub][which]
    i = sx.choice("at", [0, 1, len(part) // 2, len(part) - 2, len(part) - 1])
    c = sx.string("c", 1)
    part = part[:i] + c + part[i + 1:]
    schema, attr, sub = [part if k == which else x for k, x in enumerate([schema, attr, sub])]
    text = schema + ":" + attr + "." + sub
    r = AttrRep.parse(text)
    word = c.isalnum() or c == "_"
    if which == 0:                          # another segment is as good
        ok = word or c == "." or c == "-" or (c == ":" and 0 < i < len(part) - 1 and part[i - 1] != ":" and part[i + 1] != ":")
    elif which == 1:                        # a colon ends the schema earlier or later
        ok = word or (c == ":" and i not in (0, len(part) - 1))
    else:
        ok = word
        if c == ":" and i < len(part) - 1:
            ok = True                       # what is before it belongs to the schema
    if r is Invalid:
        sx.reach("invalid")
        sx.check(not ok, "well-formed attribute name refused")
        return
    sx.reach("valid")
    sx.check(ok, "malformed attribute name accepted")
    sx.check(repr(r) == text, "an accepted attribute name does not render back to itself")
    if c != ":":
        sx.check(r.schema == schema and r.attr == attr and r.sub_attr == sub, "attribute name split at the wrong place")


@harness("C05", bounds="pairs of names of nine letters beyond ASCII", reach=["equal", "different"])
def foreign(sx):
    a, b = sx.choice("a", FOREIGN), sx.choice("b", FOREIGN)
    same = foreign_same(a, b)
    where = sx.choice("where", ["attr", "sub", "schema"])
    r, q = [AttrRep.parse({"attr": "", "sub": "k.", "schema": "u:"}[where] + x + (":k" if where == "schema" else "")) for x in (a, b)]
    sx.check(r is not Invalid and q is not Invalid, "well-formed names")
    sx.reach("equal" if same else "different")
    sx.check((r == q) == same and (q == r) == same, "attribute name equality")
    sx.check(r.top_level_equals(q) == (same or where == "sub"), "equality of the top-level attributes")
