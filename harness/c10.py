"""C10: structure of a parsed filter"""
import re
from symx.api import harness
from src.data.container import Invalid
from src.filter import Filter

STR_OPS = ["eq", "ne", "co", "sw", "ew", "gt", "ge", "lt", "le"]


def parse(sx, text):
    f, issues = Filter.parse(text)
    sx.check(not issues.has_issues() and f is not Invalid, "well-formed filter refused")
    return f.to_dict()


def same(d, e):
    if isinstance(e, dict):
        if not isinstance(d, dict) or set(d.keys()) != set(e.keys()):
            return False
        for k in e:
            if not same(d[k], e[k]):
                return False
        return True
    if isinstance(e, list):
        if not isinstance(d, list) or len(d) != len(e):
            return False
        for x, y in zip(d, e):
            if not same(x, y):
                return False
        return True
    if isinstance(e, bool) or e is None:
        return d is e
    return type(d) == type(e) and d == e


@harness("C10", quick={"n": 5}, thorough={"n": 10}, bounds="one comparison, any operator in any letter case, a quoted "
         "literal of at most n characters of any kind, either quote", reach=["done"])
def literal(sx, n):
    """the text between the quotes is the operand, character by character"""
    o = sx.choice("op", STR_OPS)
    q = sx.choice("quote", ['"', "'"])
    lit = sx.string("lit", 0, n)
    sx.assume(q not in lit)
    text = "aB " + sx.case("opcase", o) + " " + q + lit + q
    d = parse(sx, text)
    sx.check(same(d, {"op": o, "attr_rep": "aB", "value": lit}), "literal of a comparison")
    sx.reach("done")


TRICKY = [" or ", " and ", "not ", ") or (", "] or b[", "b[c pr]", "(", ")", "[", "]", "  ", "a eq 1", "|&", "1", "true",
          "|&PLACE_HOLDER_5&|", "\\", "'", "x'y", "\t\n"]


@harness("C10", quick={"n": 1}, thorough={"n": 2}, bounds="two literals, each an awkward text plus any n characters, in "
         "four contexts", reach=["done"])
def tricky_literals(sx, n):
    t1 = sx.choice("t1", TRICKY)
    l1 = t1 + sx.string("l1", n, chars="a])(' ")
    l2 = sx.choice("t2", ["", t1, "|&PLACE_HOLDER_0&|"]) + sx.string("l2", n, chars="a])(' ")
    a = {"op": "eq", "attr_rep": "p", "value": l1}
    b = {"op": "co", "attr_rep": "q", "value": l2}
    ta, tb = 'p eq "' + l1 + '"', 'q co "' + l2 + '"'
    ctx = sx.pick("ctx", 5)
    if ctx == 0:
        text, want = ta + " and " + tb, {"op": "and", "sub_ops": [a, b]}
    elif ctx == 1:
        text, want = "(" + ta + ") or not (" + tb + ")", {"op": "or", "sub_ops": [a, {"op": "not", "sub_op": b}]}
    elif ctx == 2:
        text = "c[" + ta + " or " + tb + "]"
        want = {"op": "complex", "attr_rep": "c", "sub_op": {"op": "or", "sub_ops": [a, b]}}
    elif ctx == 3:
        text = ta + " or c[" + tb + "]"
        want = {"op": "or", "sub_ops": [a, {"op": "complex", "attr_rep": "c", "sub_op": b}]}
    else:
        text = "c[" + ta + "] and c[" + tb + "]"
        want = {"op": "and", "sub_ops": [{"op": "complex", "attr_rep": "c", "sub_op": a},
                                         {"op": "complex", "attr_rep": "c", "sub_op": b}]}
    sx.check(same(parse(sx, text), want), "filter with literals that look like filter syntax")
    sx.reach("done")


@harness("C10", quick={"n": 2}, thorough={"n": 4}, bounds="integers of at most n digits, decimals of at most n digits and "
         "two binary-exact fraction digits, booleans and null", reach=["int", "dec", "word"])
def numbers(sx, n):
    o = sx.choice("op", ["eq", "gt", "le"])
    neg = sx.choice("neg", ["", "-"])
    kind = sx.pick("kind", 4)
    if kind == 3:
        zeros = sx.choice("zeros", ["0", "00000", "0000000000", "99999999"])
        ds = sx.choice("tail", list("123456789"))
        text = neg + "1." + zeros + ds
        d = parse(sx, "a " + o + " " + text)
        sx.check(d["op"] == o and not isinstance(d["value"], (str, bool, int)) and d["value"] == float(text),
                 "a fraction is not rounded away")
        sx.reach("dec")
        return
    if kind == 0:
        ds = sx.string("digits", 1, n, chars="0123456789")
        text = neg + ds
        v = 0
        for ch in ds:
            v = v * 10 + "0123456789".index(ch)
        want = -v if neg else v
        sx.reach("int")
    elif kind == 1:
        ds = sx.string("digits", 1, n - 1, chars="0123456789")
        frac, fv = sx.choice("frac", [("0", 0), ("5", 0.5), ("25", 0.25), ("750", 0.75), ("00", 0)])
        text = neg + ds + "." + frac
        v = 0
        for ch in ds:
            v = v * 10 + "0123456789".index(ch)
        v = v + fv
        want = -v if neg else v
        sx.reach("dec")
    else:
        text, want = sx.choice("word", [("true", True), ("false", False), ("null", None)])
        o = "eq"
        sx.reach("word")
    d = parse(sx, "a " + o + " " + text)
    sx.check(d["op"] == o and d["attr_rep"] == "a", "comparison")
    if kind == 2:
        sx.check(d["value"] is want, "literal word")
    else:
        sx.check(d["value"] == want and not isinstance(d["value"], (str, bool)), "numeric literal")


def atom(sx, i):
    k = sx.pick(f"atom{i}", 3)
    name = sx.string(f"name{i}", 1, chars="xY_")
    if i == 0:
        name = sx.choice("prefix0", ["", "not", "or", "and", "pr", "eq", "urn:my-not-or-and:a:", "urn:or:and:", "not:"]) + name
    if k == 0:
        return name + " " + sx.case(f"op{i}", "pr"), {"op": "pr", "attr_rep": name}
    if k == 1:
        v = sx.int(f"v{i}", 0, 3)
        return name + " eq " + str(int(v)), {"op": "eq", "attr_rep": name, "value": int(v)}
    lit = sx.string(f"lit{i}", 1, chars="o) ")
    return name + ' sw "' + lit + '"', {"op": "sw", "attr_rep": name, "value": lit}


def AND(*x):
    return {"op": "and", "sub_ops": list(x)}


def OR(*x):
    return {"op": "or", "sub_ops": list(x)}


def NOT(x):
    return {"op": "not", "sub_op": x}


def CX(x):
    return {"op": "complex", "attr_rep": "c", "sub_op": x}


FORMS = [
    ("{0} and {1}", lambda a, b, c: AND(a, b)),
    ("{0} or {1}", lambda a, b, c: OR(a, b)),
    ("{0} and {1} and {2}", lambda a, b, c: AND(a, b, c)),
    ("{0} or {1} or {2}", lambda a, b, c: OR(a, b, c)),
    ("{0} and {1} or {2}", lambda a, b, c: OR(AND(a, b), c)),
    ("{0} or {1} and {2}", lambda a, b, c: OR(a, AND(b, c))),
    ("({0} or {1}) and {2}", lambda a, b, c: AND(OR(a, b), c)),
    ("{0} and ({1} or {2})", lambda a, b, c: AND(a, OR(b, c))),
    ("({0} and {1}) or {2}", lambda a, b, c: OR(AND(a, b), c)),
    ("not ({0}) and {1}", lambda a, b, c: AND(NOT(a), b)),
    ("{0} or not ({1} and {2})", lambda a, b, c: OR(a, NOT(AND(b, c)))),
    ("not ({0} or {1}) or {2}", lambda a, b, c: OR(NOT(OR(a, b)), c)),
    ("c[{0} or {1}] and {2}", lambda a, b, c: AND(CX(OR(a, b)), c)),
    ("{0} or c[{1} and {2}]", lambda a, b, c: OR(a, CX(AND(b, c)))),
    ("not (c[{0}]) or {1} and {2}", lambda a, b, c: OR(NOT(CX(a)), AND(b, c))),
    ("c[{0}] or c[{1}] and c[{2}]", lambda a, b, c: OR(CX(a), AND(CX(b), CX(c)))),
    ("(({0})) and ((({1}) or {2}))", lambda a, b, c: AND(a, OR(b, c))),
    ("c[not ({0} and {1}) or {2}]", lambda a, b, c: CX(OR(NOT(AND(a, b)), c))),
    ("({0} and ({1} or ({2} and {0})))", lambda a, b, c: AND(a, OR(b, AND(c, a)))),
]


@harness("C10", quick={"spaces": [" "]}, thorough={"spaces": [" ", "  ", "\t"]},
         bounds=f"{len(FORMS)} compositions of three arbitrary comparisons; 'and', 'or' and 'not' in any letter case", reach=["done"], budget=2)
def precedence(sx, spaces):
    form, want = sx.choice("form", FORMS)
    parts = [atom(sx, i) for i in range(3 if "{2}" in form else 2)]
    sp = sx.choice("space", spaces) if len(spaces) > 1 else spaces[0]
    form = form.replace(" ", sp) if sp != " " else form
    segs = []
    rest = form

    def keywords(t):
        """the same text with the logical operators in any letter case"""
        out = []
        for w in re.split("(and|or|not)", t):
            out.append(sx.case(f"key{len(segs)}_{len(out)}", w) if w in ("and", "or", "not") else w)
        return "".join(out)
    while "{" in rest:
        i = rest.index("{")
        segs.append(keywords(rest[:i]))
        segs.append(parts[int(rest[i + 1])][0])
        rest = rest[i + 3:]
    text = "".join(segs) + rest
    d = parse(sx, text)
    ds = [p[1] for p in parts] + [None]
    sx.check(same(d, want(ds[0], ds[1], ds[2] if len(parts) > 2 else None)), "structure of the filter")
    sx.reach("done")


@harness("C10", bounds="attribute names with schema and sub-attribute", reach=["sub", "top"])
def names(sx):
    schema = sx.choice("schema", ["", "urn:x-y:z.1:", "a:"])
    attr = sx.string("attr", 1, 2, chars="xY_1")
    sub = sx.choice("sub?", ["", "."]) and sx.string("sub", 1, 2, chars="xY_1")
    text = schema + attr + ("." + sub if sub else "") + " eq 1"
    d = parse(sx, text)
    top = schema + attr
    if sub:
        sx.reach("sub")
        sx.check(same(d, {"op": "complex", "attr_rep": top, "sub_op": {"op": "eq", "attr_rep": sub, "value": 1}}),
                 "name with a sub-attribute")
        e = parse(sx, schema + attr + "[" + sub + " eq 1]")
        sx.check(same(e, d), "both notations of a sub-attribute mean the same")
    else:
        sx.reach("top")
        sx.check(same(d, {"op": "eq", "attr_rep": top, "value": 1}), "name")


@harness("C10", quick={"n": 13}, thorough={"n": 30}, bounds="n comparisons with a literal, two of them, anywhere, with any character, joined by 'and' or 'or', plain, in "
         "parentheses, negated or in value filters", reach=["done"])
def many(sx, n):
    j = sx.choice("join", ["and", "or"])
    form = sx.pick("form", 5)
    i = sx.pick("i", n)
    texts, subs = [], []
    for k in range(n):
        lit = str(k)
        if k in (i, n // 2):
            lit = sx.string(f"c{k}", 1, chars="a])(' |&") + lit
        t, d = f"p{k} eq \"" + lit + '"', {"op": "eq", "attr_rep": f"p{k}", "value": lit}
        if form == 1:
            t = "(" + t + ")"
        elif form == 2:
            t, d = "not (" + t + ")", NOT(d)
        elif form == 3:
            t, d = f"c{k}[" + t + "]", {"op": "complex", "attr_rep": f"c{k}", "sub_op": d}
        texts.append(t)
        subs.append(d)
    text = (" " + j + " ").join(texts)
    want = {"op": j, "sub_ops": subs}
    if form == 4:
        text, want = "c[" + text + "]", CX(want)
    sx.check(same(parse(sx, text), want), "long filters are read as a whole")
    sx.reach("done")


@harness("C10", quick={"n": 7}, thorough={"n": 14}, bounds="nestings of up to n levels of 'and', 'or', 'not' and parentheses", reach=["done"])
def deep(sx, n):
    n = 1 + sx.pick("n", n)
    kind = sx.pick("kind", 4)
    op = sx.choice("op", ["and", "or"])
    lit = sx.string("lit", 1, chars="a)(]")
    text, want = 'a eq "' + lit + '"', {"op": "eq", "attr_rep": "a", "value": lit}
    for k in range(n):
        if kind == 0:
            text = "(" + text + ")"
        elif kind == 1:
            text, want = "not (" + text + ")", NOT(want)
        elif kind == 2:                 # x and (y or (...)): the operators alternate
            o = op if k % 2 else {"and": "or", "or": "and"}[op]
            text, want = f"b{k} pr {o} (" + text + ")", {"op": o, "sub_ops": [{"op": "pr", "attr_rep": f"b{k}"}, want]}
        else:
            o = op if k % 2 else {"and": "or", "or": "and"}[op]
            text, want = "not (" + text + f") {o} b{k} pr", {"op": o, "sub_ops": [NOT(want), {"op": "pr", "attr_rep": f"b{k}"}]}
    if sx.pick("inner", 2):
        text, want = "c[" + text + "]", CX(want)
    sx.check(same(parse(sx, text), want), "deep filters are read as a whole")
    sx.reach("done")


def tree(sx, name, depth, atoms):
    """an arbitrary filter of that depth: its text, its structure, whether it is a conjunction without parentheses around"""
    kind = sx.pick(name + ".kind", 4) if depth else 0
    if kind == 0:
        text, want = atoms[sx.pick(name + ".atom", len(atoms))]
        paren = sx.pick(name + ".paren", 2)
        return ("(" + text + ")" if paren else text), want, False
    if kind == 1:
        text, want, _ = tree(sx, name + "n", depth - 1, atoms)
        return "not (" + text + ")", NOT(want), False
    op = ["and", "or"][kind - 2]
    parts = [tree(sx, name + s, depth - 1, atoms) for s in "lr"]
    texts = []
    for (t, w, conj), s in zip(parts, "lr"):
        composite = w["op"] in ("and", "or")
        bare = not composite or (conj and op == "or" and not sx.pick(name + s + ".wrap", 2))
        texts.append(t if bare else "(" + t + ")")
    return texts[0] + " " + op + " " + texts[1], {"op": op, "sub_ops": [parts[0][1], parts[1][1]]}, op == "and"


@harness("C10", quick={"atoms": 2}, thorough={"atoms": 3}, bounds="every filter of at most two levels over the same two or three comparisons, any of them repeated, with and "
         "without redundant parentheses", reach=["repeated", "other"], budget=2)
def trees(sx, atoms):
    atoms = [("a pr", {"op": "pr", "attr_rep": "a"}), ('a eq "x y"', {"op": "eq", "attr_rep": "a", "value": "x y"}), ("c[a pr]", CX({"op": "pr", "attr_rep": "a"}))][:atoms]
    text, want, _ = tree(sx, "t", 2, atoms)
    sx.reach("repeated" if text.count("(a pr)") > 1 else "other")
    sx.check(same(parse(sx, text), want), "structure of a filter with repeated parts")


@harness("C10", bounds="two or three literals in either quote, of any character, one of which may contain another with its quotes", reach=["inside", "apart"])
def quotes(sx):
    k = 2 + sx.pick("k", 2)
    texts, subs, quoted = [], [], []
    for i in range(k):
        q = sx.choice(f"q{i}", ['"', "'"])
        lit = sx.string(f"lit{i}", 0, 1, chars="a ")
        inside = sx.pick(f"in{i}", i + 1)
        if inside and q not in quoted[inside - 1]:
            lit = quoted[inside - 1] + lit
            sx.reach("inside")
        quoted.append(q + lit + q)
        texts.append("abc"[i] + " eq " + quoted[-1])
        subs.append({"op": "eq", "attr_rep": "abc"[i], "value": lit})
    sx.reach("apart")
    sx.check(same(parse(sx, " or ".join(texts)), OR(*subs)), "filter with quoted texts in literals")


@harness("C10", quick={"n": 17}, thorough={"n": 30}, bounds="integers of n or n+1 digits of which the last is any", reach=["int"])
def long_integers(sx, n):
    k = n + sx.pick("more", 2)
    ds = sx.string("digits", 1, chars="0123456789")
    head = sx.choice("head", ["9", "1", "7"]) * (k - 1)
    neg = sx.choice("neg", ["", "-"])
    v = int(head)
    for ch in ds:
        v = v * 10 + "0123456789".index(ch)
    d = parse(sx, "a eq " + neg + head + ds)
    sx.check(d["value"] == (-v if neg else v) and not isinstance(d["value"], (str, bool, float)), "every digit counts")
    sx.reach("int")
