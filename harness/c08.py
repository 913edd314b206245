"""C08: logical composition of filters"""
from symx.api import harness
from harness.common import Res, at, Attribute
from src.data.container import AttrRep, SCIMDataContainer
from src.data import operator as op
from src.filter import Filter

NAMES = ["p", "q", "r"]
R = Res([Attribute(name=n, type_=at.String) for n in NAMES])

# statuses of the reference: True, False, None (unknown because the data is missing)


def leaf(i):
    return op.Equal(AttrRep(attr=NAMES[i]), "x")


def shapes():
    a, b, c = ("leaf", 0), ("leaf", 1), ("leaf", 2)
    z = ("unknown",)
    base = [a, ("and", a, b), ("or", a, b), ("and", a, b, c), ("or", a, b, c), ("and", a, ("or", b, c)),
            ("or", a, ("and", b, c)), ("and", ("or", a, b), c), ("or", ("and", a, b), c),
            ("and", ("not", a), b), ("or", ("not", a), b), ("and", ("not", ("or", a, b)), c),
            ("or", ("not", ("and", a, b)), c), ("or", ("not", ("or", a, b)), ("not", c))]
    out = list(base) + [("not", s) for s in base]
    out += [z, ("and", a, z), ("and", z, a), ("or", a, z), ("or", z, a, b), ("not", z), ("or", ("and", z, a), b)]
    return out


SHAPES = shapes()


def build(t):
    if t[0] == "leaf":
        return leaf(t[1])
    if t[0] == "unknown":
        return op.Equal(AttrRep(attr="zz"), "x")
    subs = [build(x) for x in t[1:]]
    return {"and": op.And, "or": op.Or, "not": op.Not}[t[0]](*subs)


def text(t, top=True):
    if t[0] == "leaf":
        return f'{NAMES[t[1]]} eq "x"'
    if t[0] == "unknown":
        return 'zz eq "x"'
    if t[0] == "not":
        return "not (" + text(t[1]) + ")"
    s = (" " + t[0] + " ").join(text(x, False) for x in t[1:])
    return s if top else "(" + s + ")"


def ev(t, vals, strict):
    """vals: None (absent) or whether the value equals the operand"""
    if t[0] == "leaf":
        v = vals[t[1]]
        return v if v is not None else (None if strict else True)
    if t[0] == "unknown":
        return False
    if t[0] == "not":
        r = ev(t[1], vals, True)
        if t[1][0] == "unknown":
            return False
        if r is None:
            return not strict
        return not r
    rs = [ev(x, vals, strict) for x in t[1:]]
    if t[0] == "and":
        return False if False in rs else (None if None in rs else True)
    return True if True in rs else (None if None in rs else False)


@harness("C08", bounds=f"{len(SHAPES)} filter shapes over three comparisons, each true, false or on missing data; strict "
         "and lenient; built directly and from text", reach=["passed", "failed", "undetermined"])
def logic(sx):
    t = sx.choice("shape", SHAPES)
    strict = sx.choice("strict", [True, False])
    parsed = sx.pick("parsed", 2)
    if parsed:
        f, issues = Filter.parse(text(t))
        sx.check(not issues.has_issues(), "well-formed filter refused")
    else:
        f = Filter(build(t))
    data, vals = [], []
    for n in NAMES:
        if str(("leaf", NAMES.index(n))) not in str(t):
            vals.append(None)
            continue
        if sx.pick(n + "?", 2):
            v = sx.string(n, 1, chars="xXy")
            data.append((n, v))
            vals.append(v.lower() == "x")
        else:
            vals.append(None)
    vals = [None if v is None else bool(v) for v in vals]
    res = f(SCIMDataContainer(sx.mkdict(data)), R, strict)
    want = ev(t, vals, strict)
    if want is None:
        sx.reach("undetermined")
        sx.check(not (res == True) and not (res == False), "missing data decides a strict filter")  # noqa
        sx.check(sx.outcome(bool, res) == ("raise", "ValueError"), "an undetermined result has a truth value")
    else:
        sx.reach("passed" if want else "failed")
        sx.check(bool(res) == want, "logical composition")
        sx.check((res == True) == want, "comparison of the result with a boolean")  # noqa


@harness("C08", bounds="tables of all four statuses of two operands", reach=["done"])
def laws(sx):
    """De Morgan and commutativity on symbolic texts"""
    a = sx.string("a", 0, 1, chars="xy")
    b = sx.string("b", 0, 1, chars="xy")
    data = SCIMDataContainer({"p": a, "q": b})
    la, lb = leaf(0), leaf(1)

    def r(o):
        return bool(Filter(o)(data, R))
    sx.check(r(op.And(la, lb)) == r(op.And(lb, la)), "'and' is commutative")
    sx.check(r(op.Or(la, lb)) == r(op.Or(lb, la)), "'or' is commutative")
    sx.check(r(op.Not(op.And(la, lb))) == r(op.Or(op.Not(la), op.Not(lb))), "De Morgan, 'and'")
    sx.check(r(op.Not(op.Or(la, lb))) == r(op.And(op.Not(la), op.Not(lb))), "De Morgan, 'or'")
    sx.check(r(op.Not(op.Not(la))) == r(la), "double negation")
    sx.reach("done")


WIDE = [f"w{i}" for i in range(10)]
RW = Res([Attribute(name=n, type_=at.String) for n in WIDE])


@harness("C08", quick={"n": 8}, thorough={"n": 10}, bounds="'and' and 'or' of n comparisons, all true or all false but any one or two of them, which are true, "
         "false or on missing data; alternately nested and negated; parsed and built", reach=["passed", "failed", "undetermined"])
def wide(sx, n):
    common = sx.choice("common", [True, False])
    vals = [common] * n
    data = {w: "x" if common else "y" for w in WIDE[:n]}
    i, j = sx.pick("i", n), sx.pick("j", n)
    for name, k in ((("a", i),) if i == j else (("a", i), ("b", j))):
        if sx.pick(name + "?", 2):
            data[WIDE[k]] = v = sx.string(name, 1, chars="xy")
            vals[k] = bool(v == "x")
        else:
            del data[WIDE[k]]
            vals[k] = None
    strict = sx.choice("strict", [True, False])
    form = sx.choice("form", ["and", "or", "nest", "neg"])
    texts = [f'{w} eq "x"' for w in WIDE[:n]]
    seen = [v if v is not None else (None if strict else True) for v in vals]

    def both(a, b, f):
        if f == "and":
            return False if a is False or b is False else None if a is None or b is None else True
        return True if a is True or b is True else None if a is None or b is None else False
    if form in ("and", "or"):
        text, want = f" {form} ".join(texts), seen[0]
        for v in seen[1:]:
            want = both(want, v, form)
    elif form == "nest":                # a and (b or (c and (...)))
        text, want = texts[-1], seen[-1]
        for k in range(n - 2, -1, -1):
            f = "and" if k % 2 == 0 else "or"
            text, want = f"{texts[k]} {f} ({text})", both(seen[k], want, f)
    else:                               # not (not (... a and b ...))
        f = "and" if common else "or"
        text, want = f" {f} ".join(texts), vals[0]
        for v in vals[1:]:
            want = both(want, v, f)
        for k in range(n):
            text = f"not ({text})"
        want = (not strict) if want is None else want
        if strict is False and None in vals or want is None or None in vals:
            return                      # see 'logic' for negations of missing data
    fl, issues = Filter.parse(text)
    sx.check(not issues.has_issues(), "well-formed filter refused")
    res = fl(SCIMDataContainer(data), RW, strict)
    if want is None:
        sx.reach("undetermined")
        sx.check(not (res == True) and not (res == False), "missing data decides a strict filter")  # noqa
    else:
        sx.reach("passed" if want else "failed")
        sx.check((res == True) == want and bool(res) == want, "logical composition")  # noqa
