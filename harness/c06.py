"""C06: the data container is a case-insensitive map"""
from symx.api import harness
from harness.common import X_URN, FOREIGN, foreign_same
from src.data.container import AttrRep, Missing, SCIMDataContainer

OPS = ["set aa", "set b", "set c.x", "set c.y", "set l.x", "set l.y", "set ext aa", "set ext c.x",
       "del aa", "del c", "del c.x", "del l.x", "del ext aa"]


def put(m, key, orig, value):
    if key in m:
        m[key][1] = value
    else:
        m[key] = [orig, value]


def render(m):
    """model -> what to_dict returns"""
    out = []
    for k in m:
        orig, v = m[k]
        if isinstance(v, dict):
            v = ("map", render(v))
        elif isinstance(v, list):
            v = ("list", [render(i) for i in v])
        out.append((orig, v))
    return out


def same(d, r):
    if not isinstance(d, dict) or len(d) != len(r):
        return False
    for (k, v), (ro, rv) in zip(d.items(), r):
        if k != ro:
            return False
        if isinstance(rv, tuple):
            if rv[0] == "map":
                if not same(v, rv[1]):
                    return False
            else:
                if not isinstance(v, list) or len(v) != len(rv[1]):
                    return False
                for a, b in zip(v, rv[1]):
                    if not same(a, b):
                        return False
        elif v != rv:
            return False
    return True


@harness("C06", quick={"steps": 3}, thorough={"steps": 4},
         bounds="every history of operations on two simple, one complex, one multi-valued and one extension attribute, "
                "each with names in any letter case", reach=["set", "del"], budget=4)
def history(sx, steps):
    c = SCIMDataContainer()
    m = {}
    for i in range(steps):
        op = sx.choice(f"op{i}", OPS)
        kind, name = op.split(" ", 1)
        sx.reach(kind)
        isext = name.startswith("ext ")
        if isext:
            name = name[4:]
        attr, _, sub = name.partition(".")
        cattr = sx.case(f"attr{i}", attr)
        csub = sx.case(f"sub{i}", sub) if sub else ""
        if isext:
            rep = AttrRep(schema=X_URN if i else X_URN.upper(), attr=cattr, sub_attr=csub, extension=True)
        else:
            rep = AttrRep(attr=cattr, sub_attr=csub)
        key = X_URN.lower()
        if kind == "set":
            v = sx.int(f"v{i}", 0, 5)
            tgt = m
            if isext:
                if key not in m:
                    m[key] = [rep.schema, {}]
                tgt = m[key][1]
            if attr == "l":
                n = 1 + sx.pick(f"n{i}", 2)
                skip = sx.pick(f"skip{i}", 2) if n == 2 else 0
                if sx.pick(f"null{i}", 2):
                    v = None
                c[rep] = [Missing if (skip and j == 0) else v for j in range(n)]
                if "l" not in tgt:
                    tgt["l"] = [cattr, []]
                items = tgt["l"][1]
                while len(items) < n:
                    items.append({})
                for j in range(n):
                    if not (skip and j == 0):
                        put(items[j], sub, csub, v)
            elif sub:
                c[rep] = v
                if attr not in tgt:
                    tgt[attr] = [cattr, {}]
                put(tgt[attr][1], sub, csub, v)
            else:
                c[rep] = v
                put(tgt, attr, cattr, v)
        else:
            del c[rep]
            tgt = m
            if isext:
                tgt = m[key][1] if key in m else {}
            if sub:
                if attr in tgt:
                    x = tgt[attr][1]
                    for y in (x if isinstance(x, list) else [x]):
                        y.pop(sub, None)
            else:
                tgt.pop(attr, None)
    sx.check(same(c.to_dict(), render(m)), "content after the history")
    # reads, in any letter case
    for attr in ("aa", "b"):
        g = c[AttrRep(attr=attr.upper())]
        if attr in m:
            sx.check(g == m[attr][1], "value read back")
        else:
            sx.check(g is Missing, "absent attribute read back")
    for sub in ("x", "y"):
        g = c[AttrRep(attr="C", sub_attr=sub.upper())]
        if "c" in m and sub in m["c"][1]:
            sx.check(g == m["c"][1][sub][1], "sub-attribute read back")
        else:
            sx.check(g is Missing, "absent sub-attribute read back")
        g = c[AttrRep(attr="l", sub_attr=sub)]
        if "l" in m:
            items = m["l"][1]
            sx.check(isinstance(g, list) and len(g) == len(items), "one value per item")
            for a, b in zip(g, items):
                sx.check(a == b[sub][1] if sub in b else a is Missing, "sub-attribute of an item")
        else:
            sx.check(g is Missing, "absent multi-valued attribute read back")
    g = c[AttrRep(schema=X_URN, attr="Aa", extension=True)]
    e = m[X_URN.lower()][1] if X_URN.lower() in m else {}
    sx.check(g == e["aa"][1] if "aa" in e else g is Missing, "extension attribute read back")


@harness("C06", quick={"n": 3}, thorough={"n": 4}, bounds="dictionaries of at most n entries over colliding names of "
         "any letter case, values nested once", reach=["collision", "plain"])
def from_dict(sx, n):
    k = 1 + sx.pick("n", n)
    pairs = []
    for i in range(k):
        name = sx.case(f"k{i}", sx.choice(f"name{i}", ["ab", "c"]))
        kind = sx.pick(f"kind{i}", 3)
        v = sx.int(f"v{i}", 0, 3)
        if kind == 1:
            v = {"In": v}
        elif kind == 2:
            v = [{"In": v}, v]
        pairs.append((name, v))
    d = sx.mkdict(pairs)
    c = SCIMDataContainer(d)
    out = c.to_dict()
    # the last value of every name wins; one entry per name
    last = {}
    for name, v in d.items():
        last[name.lower()] = (name, v)
    sx.reach("collision" if len(last) < len(d) else "plain")
    sx.check(len(out) == len(last), "one entry per name")
    for kk, v in out.items():
        sx.check(kk.lower() in last, "unknown key")
        sx.check(last[kk.lower()][0] == kk and last[kk.lower()][1] == v, "the last entry of a name is kept")
    for kk in last:
        got = c[kk.upper()]
        want = last[kk][1]
        if isinstance(want, dict):
            sx.check(isinstance(got, SCIMDataContainer) and got["in"] == want["In"], "nested value read back")
        elif isinstance(want, list):
            sx.check(c[kk + ".iN"][0] == want[0]["In"] and c[kk + ".iN"][1] is Missing, "sub-attribute of items")
        else:
            sx.check(got == want, "value read back")
    # equality is by content, whatever the letter case of names
    other = SCIMDataContainer(sx.mkdict([(kk.upper(), v) for kk, v in out.items()]))
    sx.check(c == other and other == c, "containers with the same content in another letter case are equal")
    for kk in out:
        fewer = SCIMDataContainer({a: b for a, b in out.items() if a != kk})
        sx.check(not (c == fewer) and not (fewer == c), "containers with different keys are not equal")
        break
    x = sx.int("x", 0, 3)
    changed = SCIMDataContainer(out)
    first = next(iter(out))
    changed[first] = x
    sx.check((changed == c) == (out[first] == x), "equality compares values")


@harness("C06", quick={"n": 12}, thorough={"n": 30}, bounds="a container of n entries, any of which is set again, and any deleted, in any letter case", reach=["same", "other"])
def wide(sx, n):
    c = SCIMDataContainer({f"ke{i}": i for i in range(n)})
    want = [(f"ke{i}", i) for i in range(n)]
    s, d = sx.pick("set", n), sx.pick("del", n)
    v = sx.int("v")
    c[AttrRep(attr=sx.case("sc", "ke") + str(s))] = v
    want[s] = (want[s][0], v)
    del c[AttrRep(attr=sx.case("dc", "ke") + str(d))]
    del want[d]
    out = list(c.to_dict().items())
    sx.check(len(out) == len(want), "number of entries")
    for (k, x), (wk, wx) in zip(out, want):
        sx.check(k == wk and x == wx, "entries keep their places")
    sx.check(c["KE" + str(d)] is Missing, "what is deleted is absent")
    sx.reach("same" if s == d else "other")


@harness("C06", bounds="a container made of another one, then any two assignments or deletions in either of them, in any letter case", reach=["set", "del"])
def made_of(sx):
    """both stay maps whose reading, listing and equality agree"""
    a = SCIMDataContainer({"ke": 1, "x": {"y": 2}})
    b = SCIMDataContainer(a)
    sx.check(a == b and b.to_dict() == {"ke": 1, "x": {"y": 2}}, "a container made of another one has the same entries")
    names = ["ke", "n", "x"]
    last = {}
    for i in range(2):
        t = sx.pick(f"t{i}", 2)
        key = sx.choice(f"k{i}", names)
        c = b if t else a
        rep = AttrRep(attr=sx.case(f"c{i}", key))
        if sx.pick(f"set{i}", 2):
            v = sx.int(f"v{i}")
            c[rep] = v
            sx.check(c[rep] == v, "what is assigned is read")
            sx.reach("set")
        else:
            del c[rep]
            sx.check(c[rep] is Missing, "what is deleted is absent")
            sx.reach("del")
        for c in (a, b):
            out = c.to_dict()
            sx.check(len({k.lower() for k in out}) == len(out), "one entry per name")
            for k in names:
                got = c[k]
                mine = [w for x, w in out.items() if x.lower() == k]
                sx.check(got is Missing if not mine else len(mine) == 1 and got == mine[0], "reading and listing agree")
            sx.check(c == SCIMDataContainer(out) and SCIMDataContainer(out) == c, "and so does equality")


@harness("C06", bounds="a dictionary, a list of dictionaries or a list of texts assigned to an attribute, a sub-attribute or an extension attribute, over "
         "nothing, an object or a list; then a part of it assigned or deleted, names in any letter case", reach=["object", "list", "part"])
def assigned(sx):
    """complex values count as their parts, however they got in"""
    before = sx.pick("before", 3)
    c = SCIMDataContainer({"oth": 1, "at": [{}, {"xx": 1}, [{"xx": 1}]][before]} if before else {"oth": 1})
    v, w = sx.int("v", 0, 3), sx.int("w", 0, 3)
    kind = sx.pick("kind", 3)
    isext = sx.pick("ext", 2)
    kw = {"schema": X_URN, "extension": True} if isext else {}
    top = AttrRep(attr=sx.case("top", "at"), **kw)
    part = AttrRep(attr=sx.case("top2", "at"), sub_attr=sx.case("sub", "xx"), **kw)
    tags = AttrRep(attr="AT", sub_attr="tags", **kw)
    if kind == 0:
        c[top] = {"Xx": v, "in": {"yy": [{"zz": w}]}}
        sx.check(c[part] == v, "part of an assigned object")
        sx.check(c[top]["IN"]["yY"][0]["ZZ"] == w, "nested part of an assigned object")
        c[tags] = ["p", "q"]
        sx.check(c[tags] == ["p", "q"], "a list assigned to a sub-attribute of an object")
        plain = {"Xx": v, "in": {"yy": [{"zz": w}]}, "tags": ["p", "q"]}
        sx.reach("object")
    elif kind == 1:
        c[top] = [{"Xx": v}, {"xX": w}]
        sx.check(c[part] == [v, w], "parts of assigned objects")
        plain = [{"Xx": v}, {"xX": w}]
        sx.reach("list")
    else:
        c[top] = ["p", "q"]
        sx.check(c[top] == ["p", "q"], "an assigned list")
        sx.check(c[part] == [Missing, Missing], "texts have no parts")
        plain = ["p", "q"]
    out = c.to_dict()
    if isext:
        inner = next(x for k, x in out.items() if k.lower() == X_URN.lower())
    else:
        inner = out
    sx.check(inner[next(k for k in inner if k.lower() == "at")] == plain, "plain dictionary of what was assigned")
    sx.check(c == SCIMDataContainer(out) and SCIMDataContainer(out) == c, "equal to a container made of the plain dictionary")
    if kind < 2:
        if sx.pick("set", 2):
            x = sx.int("x", 0, 3)
            c[part] = [x, x] if kind else x
            sx.check(c[part] == ([x, x] if kind else x), "part assigned")
        else:
            del c[part]
            sx.check(c[part] == [Missing, Missing] if kind else c[part] is Missing, "part deleted")
        sx.reach("part")
    sx.check(c["oth"] == 1, "nothing else changed")
    sx.check(not isext or not before or c["at"] == [{}, {"xx": 1}, [{"xx": 1}]][before], "the namesake of another schema did not change")


@harness("C06", bounds="two containers, each with a list of at most two texts or objects, in any letter case, and an object in an object", reach=["equal", "different"])
def equal_lists(sx):
    lists = []
    for side in "ab":
        items = []
        for i in range(sx.pick(f"{side}.n", 3)):
            v = sx.int(f"{side}.v{i}", 0, 1)
            items.append({sx.case(f"{side}.k{i}", "in"): v} if sx.bool(f"{side}.o{i}") else v)
        lists.append(items)

    def flat(items):
        return [("o", *[v for v in x.values()]) if isinstance(x, dict) else ("v", x) for x in items]

    want = len(lists[0]) == len(lists[1]) and all(sx.And(p[0] == q[0], p[1] == q[1]) for p, q in zip(flat(lists[0]), flat(lists[1])))
    a, b = SCIMDataContainer({"Li": lists[0]}), SCIMDataContainer({"lI": lists[1]})
    sx.reach("equal" if want else "different")
    sx.check((a == b) == want and (b == a) == want, "equality of lists")
    sx.check((a != b) != want, "inequality of lists")
    sx.check((SCIMDataContainer({"o": {"L": lists[0]}}) == SCIMDataContainer({"O": {"l": lists[1]}})) == want, "equality of nested lists")


@harness("C06", bounds="a container with names of nine letters beyond ASCII: any of them set again, read and deleted; sub-attributes and extensions too", reach=["same", "other"])
def foreign(sx):
    a, b = sx.choice("a", FOREIGN), sx.choice("b", FOREIGN)
    same = foreign_same(a, b)
    where = sx.choice("where", ["top", "sub", "ext"])
    rep = {"top": lambda n: AttrRep(attr=n), "sub": lambda n: AttrRep(attr="c", sub_attr=n), "ext": lambda n: AttrRep("urn:" + n, "k", extension=True)}[where]
    inner = {"urn:" + a: {"k": 1}} if where == "ext" else {a: 1}
    c = SCIMDataContainer({"c": inner} if where == "sub" else inner)
    sx.check(c[rep(a)] == 1, "what was set is read")
    sx.check(c[rep(b)] == (1 if same else Missing), "by its name only")
    if sx.pick("set", 2):
        c[rep(b)] = 2
        sx.check(c[rep(b)] == 2 and c[rep(a)] == (2 if same else 1), "and again")
        d = c.to_dict()["c"] if where == "sub" else c.to_dict()
        sx.check(list(d) == [("urn:" if where == "ext" else "") + x for x in ([a] if same else [a, b])], "names are listed as first written")
    del c[rep(b)]
    sx.check(c[rep(b)] is Missing and c[rep(a)] == (Missing if same else 1), "what was deleted is gone")
    sx.reach("same" if same else "other")


EMPTY = ["[]", "None", "''", "0", "{}", "[0]", "[{}]", "[[]]"]


@harness("C06", bounds="two containers, each with one of eight values that are empty, zero or null, at the top, nested or in a list", reach=["equal", "different"])
def empties(sx):
    i, j = sx.pick("i", len(EMPTY)), sx.pick("j", len(EMPTY))
    x, y = eval(EMPTY[i]), eval(EMPTY[j])
    a = sx.choice("where", [lambda x: {"a": x}, lambda x: {"o": {"a": x}}, lambda x: {"l": [{"a": x}]}])
    sx.reach("equal" if i == j else "different")
    p, q = SCIMDataContainer(a(x)), SCIMDataContainer(a(y))
    sx.check((p == q) == (i == j) and (p != q) == (i != j), "values are equal to themselves only")
    sx.check(p.to_dict() == a(x), "and are kept")
    sx.check(p != SCIMDataContainer({}), "and differ from none")
