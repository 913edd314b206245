"""C12: PATCH paths"""
from symx.api import harness
from src.data.container import Invalid
from src.data.path import PatchPath
from src.filter import Filter
from harness.c05 import ref_valid

W = "xY_1"


def schema(sx):
    return sx.choice("schema", ["", "urn:x-y:z.1:", "a:"])


@harness("C12", quick={"n": 4}, thorough={"n": 8}, bounds="names of 1..n characters, with or without schema and "
         "sub-attribute", reach=["sub", "top"])
def plain(sx, n):
    s = schema(sx)
    attr = sx.string("attr", 1, n, chars=W)
    sub = sx.choice("sub?", ["", "."]) and sx.string("sub", 1, n, chars=W)
    text = s + attr + ("." + sub if sub else "")
    p, issues = PatchPath.parse(text)
    sx.check(p is not Invalid and not issues.has_issues(), "well-formed path refused")
    r = p.attr_rep
    sx.check(r.schema == s[:-1] and r.attr == attr and r.sub_attr == sub, "target of the path")
    sx.check(p.complex_filter is None and p.complex_filter_attr_rep is None, "a plain path has no filter")
    sx.reach("sub" if sub else "top")


TRICKY = ["", "]", "[", "].x", "' or '", "a.b", "|&PLACE_HOLDER_9&|", ") or (", "\\"]


@harness("C12", quick={"n": 2}, thorough={"n": 3}, bounds="value filters with awkward literals, with and without a "
         "sub-attribute after the filter", reach=["sub", "nosub"])
def value_filter(sx, n):
    s = schema(sx)
    attr = sx.string("attr", 1, 2, chars=W)
    lit = sx.choice("lit0", TRICKY) + sx.string("lit", n, chars="a]['. ")
    kind = sx.pick("kind", 4)
    inner = ['t eq "' + lit + '"', 't eq "' + lit + '" and u pr', 'not (t co "' + lit + '")',
             't eq "' + lit + '" or t eq "]"'][kind]
    leaf = {"op": "co" if kind == 2 else "eq", "attr_rep": "t", "value": lit}
    want = [leaf, {"op": "and", "sub_ops": [leaf, {"op": "pr", "attr_rep": "u"}]}, {"op": "not", "sub_op": leaf},
            {"op": "or", "sub_ops": [leaf, {"op": "eq", "attr_rep": "t", "value": "]"}]}][kind]
    sub = sx.choice("sub?", ["", "."]) and sx.string("sub", 1, 2, chars=W)
    text = s + attr + "[" + inner + "]" + ("." + sub if sub else "")
    p, issues = PatchPath.parse(text)
    sx.check(p is not Invalid and not issues.has_issues(), "well-formed path refused")
    r = p.attr_rep
    sx.check(r.schema == s[:-1] and r.attr == attr and r.sub_attr == "", "target of the path")
    d = p.complex_filter.to_dict()
    sx.check(d == {"op": "complex", "attr_rep": s + attr, "sub_op": want}, "filter of the path")
    q = p.complex_filter_attr_rep
    if sub:
        sx.reach("sub")
        sx.check(q is not None and q.schema == s[:-1] and q.attr == attr and q.sub_attr == sub, "sub-attribute selected by the path")
    else:
        sx.reach("nosub")
        sx.check(q is None, "the path selects no sub-attribute")
    p2, _ = PatchPath.parse(text)
    sx.check(p == p2, "the same text gives equal paths")


MALFORMED = ["", " ", "{0}[", "{0}]", "{0}[]", "{0}]t pr[", "{0}[t pr]]", "{0}[[t pr]]", "{0}[t pr][u pr]", "[t pr]",
             "{0}[t pr]{1}", "{0}[t pr]..{1}", "{0}[t pr].", "{0}.{1}[t pr]", "{0}.{1}.{0}", ".{0}", "{0}.",
             "{0} {1}", "{0}[t]", "{0}[t eq]", "{0}[t zz 1]", "{0}[t pr].{1}.{0}.{1}", "not {0}[t pr]",
             "{0}[t pr] or {1} pr", "{0} pr", '"{0}"', "{0}[t pr].{1} x", "({0}[t pr])x", "{0}-{1}", "{0}[t eq '1]"]


@harness("C12", bounds=f"{len(MALFORMED)} malformed path forms with any names", reach=["rej"])
def malformed(sx):
    form = sx.choice("form", MALFORMED)
    a, b = sx.string("a", 1, chars=W), sx.string("b", 1, chars=W)
    text = form
    parts = []
    for seg in text.split("{"):
        if parts:
            parts.append(a if seg[0] == "0" else b)
            seg = seg[2:]
        parts.append(seg)
    p, issues = PatchPath.parse("".join(parts))
    sx.check(p is Invalid and issues.has_issues(), "malformed path accepted: " + form)
    sx.reach("rej")


@harness("C12", quick={"n": 4}, thorough={"n": 6}, bounds="every text of at most n characters over names, dots, colons, "
         "brackets, quotes and blanks", reach=["acc", "rej"])
def any_text(sx, n):
    text = sx.string("text", 0, n, chars="xY.:[]\" -")
    p, issues = PatchPath.parse(text)
    sx.check(issues.has_issues() == (p is Invalid), "a path comes with no issues, and issues with no path")
    ok = ref_valid(text)
    sx.check((p is not Invalid) == ok, "accepted paths differ from the notation")
    sx.reach("rej" if p is Invalid else "acc")


@harness("C12", bounds="pairs of paths, plain names in any letter case", reach=["equal", "different"])
def equality(sx):
    def one(i):
        a = sx.pick(f"a{i}", 2)
        f = sx.pick(f"f{i}", 3)
        s = sx.pick(f"s{i}", 2)
        name = "x" if a else "yz"
        text = (name if f else sx.case(f"ac{i}", name)) + ["", '[t eq "1"]', '[t eq "2"]'][f] + \
            ("." + sx.case(f"sc{i}", "q") if s else "")
        return (a, f, s), PatchPath.parse(text)[0]
    k1, p1 = one(1)
    k2, p2 = one(2)
    sx.reach("equal" if k1 == k2 else "different")
    sx.check((p1 == p2) == (k1 == k2), "path equality")


@harness("C12", quick={"n": 2}, thorough={"n": 3}, bounds="sub-attributes qualified by an attribute of 1..n characters, with "
         "or without schemas", reach=["acc", "rej"])
def qualified_sub(sx, n):
    s1, s2 = sx.choice("s1", ["", "urn:a:", "urn:b:"]), sx.choice("s2", ["", "urn:a:", "URN:B:"])
    a, b = sx.string("a", 1, n, chars="xXy"), sx.string("b", 1, n, chars="xXy")
    p, issues = PatchPath.parse(s1 + a + "[t pr]." + s2 + b + ".q")
    same = a.lower() == b.lower() and (not s1 or not s2 or s1.lower() == s2.lower())
    sx.check((p is not Invalid) == same and issues.has_issues() == (not same), "the sub-attribute is of the filtered attribute")
    if p is not Invalid:
        sx.reach("acc")
        q = p.complex_filter_attr_rep
        sx.check(q.attr.lower() == a.lower() and q.sub_attr == "q", "sub-attribute selected by the path")
    else:
        sx.reach("rej")


@harness("C12", quick={"n": 12}, thorough={"n": 30}, bounds="value filters of n comparisons, two of which, anywhere, have any character", reach=["sub", "nosub"])
def long_filter(sx, n):
    op = sx.choice("op", ["and", "or"])
    i = sx.pick("i", n)
    parts, subs = [], []
    for k in range(n):
        lit = (sx.string(f"c{k}", 1, chars="a][.'") if k in (i, n - 1) else "") + str(k)
        parts.append(f't{k} eq "' + lit + '"')
        subs.append({"op": "eq", "attr_rep": f"t{k}", "value": lit})
    sub = sx.choice("sub", ["", ".q"])
    p, issues = PatchPath.parse("at[" + (" " + op + " ").join(parts) + "]" + sub)
    sx.check(p is not Invalid and not issues.has_issues(), "well-formed path refused")
    sx.check(p.complex_filter.to_dict() == {"op": "complex", "attr_rep": "at", "sub_op": {"op": op, "sub_ops": subs}}, "filter of the path")
    q = p.complex_filter_attr_rep
    sx.check((q is None) == (sub == "") and (q is None or q.sub_attr == "q"), "sub-attribute selected by the path")
    sx.reach("sub" if sub else "nosub")


@harness("C12", quick={"n": 3}, thorough={"n": 5}, bounds="every text of at most n characters after a value filter, or two before it", reach=["acc", "rej"])
def around(sx, n):
    tail = sx.choice("where", ["after", "before"]) == "after"
    pre = "" if tail else sx.string("pre", 0, 2, chars="xY.:-")
    post = sx.string("post", 0, n, chars="xY. -\"[]1") if tail else ""
    p, issues = PatchPath.parse(pre + 'x[t eq "v"]' + post)
    sx.check(issues.has_issues() == (p is Invalid), "a path comes with no issues, and issues with no path")
    if tail:
        names = post.split(".")
        # .sub, or .x.sub, which names the attribute again
        ok = post == "" or (names[0] == "" and (len(names) == 2 or len(names) == 3 and names[1].lower() == "x"))
        for nme in names[1:]:
            ok = sx.And(ok, nme != "")
        for ch in post:
            ok = sx.And(ok, sx.Or(ch == ".", ch == "x", ch == "Y", ch == "1"))
    else:
        ok = sx.And(ref_valid(pre + "x"), "." not in (pre + "x").split(":")[-1])
    sx.check((p is not Invalid) == ok, "accepted paths differ from the notation")
    if p is Invalid:
        sx.reach("rej")
        return
    sx.reach("acc")
    sx.check((p.complex_filter_attr_rep is None) == (post == ""), "sub-attribute selected by the path")
    if tail:
        sx.check(post == "" or p.complex_filter_attr_rep.sub_attr == names[-1], "sub-attribute selected by the path")


@harness("C12", bounds="two paths one after another: names and literals of one letter in either case, with or without a filter and a sub-attribute", reach=["done"])
def again(sx):
    """a path does not depend on earlier ones"""
    for i in range(2):
        name, lit, sub = sx.string(f"name{i}", 1, chars="aAb"), sx.string(f"lit{i}", 1, chars="aAb"), sx.string(f"sub{i}", 1, chars="aA")
        form = sx.pick(f"form{i}", 3)
        text = name + ['.' + sub, '[t eq "' + lit + '"]', '[t eq "' + lit + '"].' + sub][form]
        p, issues = PatchPath.parse(text)
        sx.check(p is not Invalid and not issues.has_issues(), "well-formed path refused")
        sx.check(p.attr_rep.attr == name and p.attr_rep.sub_attr == (sub if form == 0 else ""), "target of the path")
        if form:
            sx.check(p.complex_filter.to_dict() == {"op": "complex", "attr_rep": name, "sub_op": {"op": "eq", "attr_rep": "t", "value": lit}}, "filter of the path")
        q = p.complex_filter_attr_rep
        sx.check((q is None) == (form < 2) and (q is None or q.sub_attr == sub and q.attr == name), "sub-attribute selected by the path")
    sx.reach("done")
