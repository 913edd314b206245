"""C22: collections of validation issues"""
from symx.api import harness
from src.error import ValidationError, ValidationIssues

LOCS = [(), ("a",), ("a", 0), ("b",), ("a", 0, "b")]
MAKE = {1: ValidationError.bad_value_syntax, 15: ValidationError.missing, 36: ValidationError.unknown_resource}


def add(sx, name, col, ref, locs=LOCS, codes=(1, 15)):
    loc = sx.choice(name + ".loc", locs)
    code = sx.choice(name + ".code", list(codes))
    proceed = sx.bool(name + ".proceed")
    arg = sx.pick(name + ".none", 2) if loc == () else 0
    col.add(issue=MAKE[code](), proceed=proceed, location=None if arg else loc)
    ref.append((loc, code, bool(proceed)))


def tree(ref):
    out = {}
    for loc, code, _ in ref:
        d = out
        for part in loc:
            d = d.setdefault(str(part), {})
        d.setdefault("_errors", []).append({"code": code})
    return out


def same(a, b):
    """trees of issues, the order of the issues of one location aside"""
    if set(a) != set(b):
        return False
    for k in a:
        if k == "_errors":
            if sorted(e["code"] for e in a[k]) != sorted(e["code"] for e in b[k]):
                return False
        elif not same(a[k], b[k]):
            return False
    return True


def verify(sx, col, ref):
    sx.check(same(col.to_dict(), tree(ref)), "every issue is there once, at its place")
    for loc in LOCS:
        below = [r for r in ref if r[0][:len(loc)] == loc]
        sx.check(col.has_issues(loc) == bool(below), "has_issues tells whether there are issues at or below a place")
        stop = [r for r in ref if not r[2] and loc[:len(r[0])] == r[0]]
        sx.check(col.can_proceed(loc) == (not stop), "can_proceed tells whether an issue at or above a place forbids it")
    sx.check(col.has_issues() == bool(ref), "has_issues tells whether there are any")
    sx.check(col.has_issues(("b",), ("a", 0)) == bool([r for r in ref if r[0][:1] == ("b",) or r[0][:2] == ("a", 0)]),
             "at any of several places")
    sx.check(col.can_proceed() == (not [r for r in ref if r[0] == () and not r[2]]), "can_proceed without a place is about the whole")
    sx.check(col.can_proceed(("b",), ("a", 0)) == (not [r for r in ref if not r[2] and r[0] in ((), ("b",), ("a",), ("a", 0))]),
             "at all of several places")


@harness("C22", quick={"n": 3}, thorough={"n": 3}, bounds="n issues of two codes at five places, each allowing to proceed or not; asked about "
         "all places", reach=["done"])
def collected(sx, n):
    col, ref = ValidationIssues(), []
    verify(sx, col, ref)
    for i in range(n):
        add(sx, f"i{i}", col, ref)
    verify(sx, col, ref)
    sx.reach("done")


@harness("C22", quick={"n": 1}, thorough={"n": 2}, bounds="n issues here, n there, merged under one of five places", reach=["done"])
def merged(sx, n):
    a, b = ValidationIssues(), ValidationIssues()
    ra, rb = [], []
    for i in range(n):
        add(sx, f"a{i}", a, ra)
        add(sx, f"b{i}", b, rb, locs=LOCS[:3])
    k = sx.pick("where", 1 + len(LOCS))
    where = () if k == 0 else LOCS[k - 1]
    if k == 0:
        a.merge(issues=b)
    else:
        a.merge(issues=b, location=where)
    all_ = ra + [(where + loc, code, p) for loc, code, p in rb]
    verify(sx, a, all_)
    verify(sx, b, rb)
    if sx.pick("pop", 2):
        a.pop(where, 1)
        all_ = [r for r in all_ if r[0] != where or r[1] != 1]
        verify(sx, a, all_)
        verify(sx, b, rb)
    a.add(issue=MAKE[36](), proceed=False, location=where)
    verify(sx, b, rb)
    b.add(issue=MAKE[36](), proceed=False, location=("a",))
    verify(sx, a, all_ + [(where, 36, False)])
    sx.reach("done")


@harness("C22", quick={"n": 2}, thorough={"n": 3}, bounds="n issues, the ones below one of five places taken out into a new collection", reach=["some", "none"])
def got(sx, n):
    a, ra = ValidationIssues(), []
    for i in range(n):
        add(sx, f"a{i}", a, ra, codes=(1,))
    where = sx.choice("where", LOCS)
    b = a.get(where if sx.pick("list", 2) else list(where))
    rb = [(loc[len(where):], code, p) for loc, code, p in ra if loc[:len(where)] == where]
    verify(sx, b, rb)
    verify(sx, a, ra)
    b.add(issue=MAKE[36](), proceed=False, location=("a",))
    verify(sx, a, ra)
    a.add(issue=MAKE[36](), proceed=False, location=where)
    verify(sx, b, rb + [(("a",), 36, False)])
    sx.reach("some" if rb else "none")


@harness("C22", quick={"n": 2}, thorough={"n": 3}, bounds="n issues; those of one code at one place removed", reach=["some", "none"])
def popped(sx, n):
    a, ra = ValidationIssues(), []
    locs = [(), ("a",), ("a", 0)]
    for i in range(n):
        add(sx, f"a{i}", a, ra, locs=locs)
    where = sx.choice("where", locs)
    code = sx.choice("code", [1, 36])
    b = a.pop(where, code)
    out = [r for r in ra if r[0] == where and r[1] == code]
    sx.check(b.has_issues() == bool(out) and same(b.to_dict(), tree([((), c, p) for _, c, p in out])), "the removed ones are returned")
    sx.check(b.can_proceed() == all(p for _, _, p in out), "and whether they stop")
    verify(sx, a, [r for r in ra if r not in out])
    b.add(issue=MAKE[36](), proceed=False, location=())
    verify(sx, a, [r for r in ra if r not in out])
    sx.reach("some" if out else "none")


@harness("C22", bounds="issues with and without context in the printed form", reach=["done"])
def printed(sx):
    msg, ctx = sx.choice("msg", [True, False]), sx.choice("ctx", [True, False])
    value = sx.string("value", 0, 2, chars="ab{")
    loc = sx.choice("loc", LOCS)
    col = ValidationIssues()
    col.add(issue=ValidationError.bad_url(value), proceed=True, location=loc)
    d = col.to_dict(msg=msg, ctx=ctx)
    for part in loc:
        d = d[str(part)]
    e = d["_errors"][0]
    sx.check(e["code"] == 8 and ("error" in e) == msg and ("context" in e) == ctx, "code, message and context as asked for")
    if msg:
        sx.check(e["error"] == "'" + value + "' is not a valid URL", "the message has the value")
    if ctx:
        sx.check(e["context"] == {"value": value}, "the context has the value")
    sx.reach("done")


PATH = ("a", 0, "b", 1, "c", 12)


@harness("C22", quick={"n": 2}, thorough={"n": 3}, bounds="n issues at any depth of a place of six steps; asked about, merged under, got and popped at any depth", reach=["done"])
def deep(sx, n):
    col, ref = ValidationIssues(), []
    for i in range(n):
        loc = PATH[:sx.pick(f"d{i}", len(PATH) + 1)]
        p = sx.bool(f"p{i}")
        col.add(issue=MAKE[1](), proceed=p, location=loc)
        ref.append((loc, 1, bool(p)))
    w = sx.pick("w", len(PATH) + 1)
    where = PATH[:w]
    sx.check(same(col.to_dict(), tree(ref)), "every issue is there once, at its place")
    sx.check(col.has_issues(where) == any(len(r[0]) >= w for r in ref), "has_issues tells whether there are issues at or below a place")
    sx.check(col.can_proceed(where) == (not any(not r[2] and len(r[0]) <= w for r in ref)), "can_proceed tells whether an issue at or above a place forbids it")
    got_ = col.get(where)
    sx.check(same(got_.to_dict(), tree([(r[0][w:], 1, r[2]) for r in ref if len(r[0]) >= w])), "the issues below a place, with the rest of theirs")
    other = ValidationIssues()
    other.add(issue=MAKE[15](), proceed=True, location=("z",))
    other.merge(issues=col, location=where)
    full_ = [(("z",), 15, True)] + [(where + r[0], 1, r[2]) for r in ref]
    sx.check(same(other.to_dict(), tree(full_)), "merged issues are below the place")
    sx.check(other.can_proceed(where + PATH) == all(r[2] for r in ref) and other.can_proceed(("z",)) == (not any(not r[2] and r[0] + where == () for r in ref)),
             "and forbid to proceed there")
    popped_ = col.pop(where, 1)
    sx.check(popped_.has_issues() == any(r[0] == where for r in ref) and same(col.to_dict(), tree([r for r in ref if r[0] != where])), "popped ones are gone")
    sx.reach("done")
