"""C11: which filters are accepted; parsing never raises"""
from symx.api import harness
from src.data.container import Invalid
from src.filter import Filter

TOKENS = ["a", "pr", "eq", "1", '"x"', "and", "or", "not", "(", ")", "b["]


class Rej(Exception):
    pass


def accepts(toks):
    """reference grammar over tokens; '[' belongs to the name before it"""
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def take(t=None):
        x = peek()
        if x is None or (t is not None and x != t):
            raise Rej()
        pos[0] += 1
        return x

    def expr(inner):
        term(inner)
        while peek() == "or":
            take()
            term(inner)

    def term(inner):
        factor(inner)
        while peek() == "and":
            take()
            factor(inner)

    def factor(inner):
        x = take()
        if x == "not":
            x = take()
            atom("a" if x == "not" else x, inner)   # 'not not pr': an attribute may be called 'not'
        else:
            atom(x, inner)

    def atom(x, inner):
        if x == "(":
            expr(inner)
            take(")")
        elif x == "b[":
            if inner:
                raise Rej()
            expr(True)
            take("]")
        elif x in ("a", "pr", "eq", "1"):
            y = take()
            if y == "pr":
                return
            if y != "eq":
                raise Rej()
            if take() not in ("1", '"x"'):
                raise Rej()
        else:
            raise Rej()
    try:
        expr(False)
        return pos[0] == len(toks)
    except Rej:
        return False


ALL = TOKENS + ["]"]


def render(sx, toks, sep=" "):
    """tokens with symbolic names, literals and letter case of operators"""
    out = []
    for i, t in enumerate(toks):
        if t == "a":
            t = sx.string(f"name{i}", 1, chars="aZ_")
        elif t in ("pr", "eq", "and", "or", "not"):
            t = sx.case(f"case{i}", t)
        elif t == "1":
            t = sx.string(f"num{i}", 1, chars="0123456789")
        elif t == '"x"':
            t = '"' + sx.string(f"lit{i}", 1, chars="a ()[]'|&") + '"'
        out.append(t)
    return sep.join(out)


def decide(sx, toks, text):
    f, issues = Filter.parse(text)
    ok = accepts(toks)
    sx.reach("acc" if ok else "rej")
    sx.check(issues.has_issues() == (f is Invalid), "a filter comes with no issues, and issues with no filter")
    sx.check((f is not Invalid) == ok, "accepted filters differ from the grammar: " + " ".join(toks))


@harness("C11", quick={"n": 3}, thorough={"n": 5},
         bounds="every sequence of at most n tokens, with any names, literals and operator letter case",
         reach=["acc", "rej"])
def token_sequences(sx, n):
    k = sx.pick("k", n + 1)
    toks = [sx.choice(f"t{i}", ALL) for i in range(k)]
    decide(sx, toks, render(sx, toks))


BASE = [x.split(" ") for x in [
    "a pr", 'a eq "x"', "a eq 1 and a pr", "a pr or a eq 1", "not ( a pr )", "not a pr",
    "( a pr or a pr ) and a pr", "b[ a pr ]", 'b[ a eq "x" and a pr ]', "b[ not ( a pr ) ] or a pr",
    "( ( a pr ) )", "a pr and ( not ( a pr ) or b[ a pr ] )", "b[ a pr ] and b[ a eq 1 ]",
    "b[ ( a pr or a pr ) and a pr ]"]]


@harness("C11", quick={"edits": 1}, thorough={"edits": 2},
         bounds="14 well-formed filters with at most `edits` tokens removed, replaced or inserted anywhere",
         reach=["acc", "rej"], budget=2)
def edited(sx, edits):
    toks = list(sx.choice("base", BASE))
    for e in range(edits):
        kind = sx.pick(f"edit{e}", 4)
        if kind == 0:
            continue
        i = sx.pick(f"pos{e}", len(toks) + (kind == 3))
        if kind == 1:
            toks = toks[:i] + toks[i + 1:]
        else:
            toks = toks[:i] + [sx.choice(f"tok{e}", ALL)] + toks[i + (kind == 2):]
    decide(sx, toks, render(sx, toks))


@harness("C11", quick={"n": 3}, thorough={"n": 5}, bounds="every text of at most n characters", reach=["rej"])
def any_text(sx, n):
    f, issues = Filter.parse(sx.string("text", 0, n))
    sx.check(issues.has_issues() == (f is Invalid), "a filter comes with no issues, and issues with no filter")
    if f is Invalid:
        sx.reach("rej")
    else:
        sx.check(len("a pr") <= n, "a text of three characters is a filter")


@harness("C11", quick={"n": 2}, thorough={"n": 4}, bounds="'a pr' and 'a eq 1' with any n characters put anywhere",
         reach=["acc", "rej"])
def noise(sx, n):
    base = sx.choice("base", ["a pr", 'a eq "x"', "b[a pr]", "a pr or b pr", "not (a pr)"])
    i = sx.pick("pos", len(base) + 1)
    text = base[:i] + sx.string("noise", 1, n, chars="ab .:[]()\"'-1|") + base[i:]
    f, issues = Filter.parse(text)
    sx.check(issues.has_issues() == (f is Invalid), "a filter comes with no issues, and issues with no filter")
    sx.reach("rej" if f is Invalid else "acc")


@harness("C11", quick={"n": 4}, thorough={"n": 8}, bounds="0..n opening and 0..n closing parentheses around a filter, in a value filter or not; 'not' before any", reach=["acc", "rej"])
def parentheses(sx, n):
    a, b = sx.pick("open", n + 1), sx.pick("close", n + 1)
    neg = sx.pick("not", a + 1)
    toks = []
    for k in range(a):
        toks += ["not", "("] if k + 1 == neg else ["("]
    toks += sx.choice("core", [["a", "pr"], ["a", "eq", '"x"'], ["a", "pr", "or", "a", "eq", "1"], ["b[", "a", "pr", "]"], []]) + [")"] * b
    if sx.pick("inner", 2):
        toks = ["b["] + toks + ["]"]
    decide(sx, toks, render(sx, toks, " "))


@harness("C11", bounds="the words true, false and null in any letter case, with any character before or after or none, in five contexts", reach=["acc", "rej"])
def words(sx):
    """they are words of JSON, where letter case matters"""
    word = sx.choice("word", ["true", "false", "null"])
    w = sx.case("case", word)
    c = sx.string("c", 0, 1, chars="x1-.,")
    text = c + w if sx.pick("before", 2) else w + c
    form = sx.choice("form", ["a eq ", "a ne ", "not (a eq ", "b[a eq ", "a pr and b.c eq "])
    f, issues = Filter.parse(form + text + (")" if "(" in form else "]" if "[" in form else ""))
    ok = sx.And(w == word, c == "")
    sx.check((f is not Invalid) == ok and issues.has_issues() == (f is Invalid), "accepted are exactly the three words")
    sx.reach("rej" if f is Invalid else "acc")
