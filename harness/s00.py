"""Self-test of the engine: operations on symbolic values, observed and compared
with the plain interpreter on every path (not a property of the code under test)."""
import base64
import binascii
import re
from datetime import datetime
from urllib.parse import urlparse

from symx.api import harness

SEP = "aB .:/[0_-"
UNARY = ["lower", "upper", "casefold", "swapcase", "strip", "lstrip", "rstrip", "split", "rsplit", "splitlines",
         "isdigit", "isalpha", "isalnum", "isspace", "isdecimal", "isnumeric", "isascii", "isupper", "islower",
         "isidentifier", "isprintable", "title", "capitalize", "istitle"]
BINARY = ["find", "rfind", "count", "startswith", "endswith", "split", "rsplit", "partition", "rpartition",
          "strip", "lstrip", "rstrip", "index", "removeprefix", "removesuffix", "join"]


@harness("S00", quick=[{"m": m} for m in UNARY], bounds="2 chars")
def unary(sx, m):
    s = sx.string("s", 0, 2)
    sx.observe("r", sx.outcome(getattr(s, m)))


@harness("S00", quick=[{"m": m} for m in BINARY], bounds="3 chars / 1 char")
def binary(sx, m):
    s = sx.string("s", 0, 3, chars=SEP)
    t = sx.string("t", 0, 1, chars=SEP)
    sx.observe("r", sx.outcome(getattr(s, m), t))
    sx.observe("c", sx.outcome(getattr("a.B:a", m), t))


@harness("S00", quick={}, bounds="")
def misc(sx):
    s = sx.string("s", 0, 2)
    t = sx.string("t", 0, 2)
    sx.observe("cmp", [s == t, s < t, s <= t, s > t, s >= t, s != t])
    sx.observe("in", t in s)
    sx.observe("rep", s.replace(t, "<>", 1))
    sx.observe("cat", s + t + "x" + f"{s}-{t}")
    sx.observe("idx", [s[:1], s[1:], s[-1:], s[::-1]])
    sx.observe("d", {s: 1, t: 2, "a": 3})
    sx.observe("set", {s, t, "a"})


@harness("S00", quick={}, bounds="")
def replace(sx):
    s = sx.string("s", 0, 4, chars="ab.")
    t = sx.string("t", 0, 2, chars="ab.")
    sx.observe("rep", s.replace(t, "<>"))
    sx.observe("rep1", s.replace(t, "<>", 1))


PATS = [r"\s+", r"\w+", r"(?:[\w.-]+:)*", r"(\w+|\$ref)", r"\s*\bor\b\s*", r"\s*\bnot\b\s*(.*)", r"'(.*?)'|\"(.*?)\"",
        r"/\w+", r"/\w+/.*", r"[^a-z]{2,3}$", r"^a*?b|c+(?=d)", r"(?i)ab\d", r"\|&(\d+)&\|", r"(a)(?P<n>b)?", r"\Bx", r".+"]


@harness("S00", quick=[{"i": i} for i in range(len(PATS))], bounds="4 chars")
def regex(sx, i):
    s = sx.string("s", 0, 4, chars="abcdnorxABK.:/ \n'\"|&1_$-\u00e9\u212a\u0661")
    p = re.compile(PATS[i], re.DOTALL if i % 2 else 0)
    for n in ("match", "fullmatch", "search"):
        m = getattr(p, n)(s)
        sx.observe(n, None if m is None else [m.group(0), m.span(), m.groups(), m.start(), m.end()])
    sx.observe("fi", [(m.group(0), m.start()) for m in p.finditer(s)])
    sx.observe("split", p.split(s))
    sx.observe("sub", p.sub("<\\g<0>>", s) if i != 13 else p.findall(s))


@harness("S00", quick=[{"n": 3, "chars": None}, {"n": 4, "chars": " +-_.0129eE\u0661"}], bounds="")
def numbers(sx, n, chars):
    s = sx.string("s", 0, n, chars=chars)
    sx.observe("i", sx.outcome(int, s))
    k, f = sx.outcome(float, s)
    sx.observe("f", (k, str(f)) if k == "ok" and (f != f or abs(f) == float("inf")) else (k, f))


@harness("S00", quick={}, bounds="")
def words(sx):
    s = sx.case("s", "infinity")
    sx.observe("f", str(float(s)))
    t = sx.case("t", "nan")
    sx.observe("g", str(float(t)))


@harness("S00", quick=[{"n": 4, "chars": "AaZz09+/= \n-\u00e9"}, {"n": 2, "chars": None}], bounds="")
def b64(sx, n, chars):
    s = sx.string("s", 0, n, chars=chars)
    k, b = sx.outcome(bytes, s, "ascii")
    sx.observe("k", k)
    if k == "ok":
        k, d = sx.outcome(base64.b64decode, b)
        sx.observe("d", (k, list(d) if k == "ok" else d))
        if k == "ok":
            sx.observe("eq", base64.b64encode(d) == b)


@harness("S00", quick={"n": 5}, bounds="")
def url(sx, n):
    s = sx.string("s", 0, n, chars="ah:/?#[]@1 \n.%\u212a")
    k, u = sx.outcome(urlparse, s)
    sx.observe("u", (k, [u.scheme, u.netloc, u.path] if k == "ok" else u))


@harness("S00", quick={}, bounds="")
def dates(sx):
    s = "20" + sx.string("y", 2, 2, chars="12-") + "-0" + sx.string("d", 1, 1, chars="019") + "-01"
    k, d = sx.outcome(datetime.fromisoformat, s)
    sx.observe("d", (k, d if k == "raise" else d.isoformat()))


@harness("S00", quick={}, bounds="")
def ints(sx):
    a = sx.int("a", -3, 3)
    b = sx.int("b", -3, 3)
    sx.observe("c", [a < b, a == b, a >= b, a + b, a - b, a * 2, -a, bool(a), abs(a)])
    sx.observe("dv", sx.outcome(lambda: (a // b, a % b)))
    sx.observe("s", str(a) + f"{b}")
    sx.observe("m", [min(a, b), max(a, b), sorted([a, b, 0])])
    sx.observe("in", [a in [1, 2], a in {1, 2}, {1: "x"}.get(a)])


@harness("S00", quick={}, bounds="")
def reals(sx):
    a = sx.real("a", -9, 9, 4)
    b = sx.int("b", -2, 2)
    sx.observe("c", [a < b, a == b, a >= b, a + b, int(a), int(a) == a, float(b), a.is_integer(), isinstance(a, float)])


@harness("S00", quick={}, bounds="")
def bools(sx):
    a, b = sx.bool("a"), sx.bool("b")
    sx.observe("c", [a and b, a or b, not a, a == b, a is True, a is b, [a, b].count(True), isinstance(a, int), a + 1])
    sx.observe("s", [str(a), sorted([a, b]), all([a, b]), any([a, b]), sum([a, b])])
    sx.observe("in", [a in [None, ""], a in [True], {True: 1}.get(a)])


@harness("S00", quick={"n": 2}, bounds="")
def containers(sx, n):
    ks = [sx.string(f"k{i}", 1, 1, chars="aAb\u212ak") for i in range(3)]
    d = {}
    for i, k in enumerate(ks):
        d[k.lower()] = i
    sx.observe("d", d)
    sx.observe("l", list(d.items()))
    sx.observe("g", [d.get(ks[0]), "a" in d, len(d)])
    d.pop(ks[1], None)
    d.setdefault("a", []) 
    sx.observe("d2", list(d))
    s = {k for k in ks}
    sx.observe("s", [len(s), s - {"a"}, s & {"a", "b"}, ks[0] in s])
    sx.observe("t", (ks[0], 1) in {("a", 1): 2})
    e = {**d, ks[2]: "z"}
    sx.observe("e", e)
    sx.observe("eq", e == d)


@harness("S00", quick={}, bounds="")
def sorting(sx):
    ks = [sx.string(f"k{i}", 0, 1, chars="aAb") for i in range(3)]
    sx.observe("s", sorted(ks))
    sx.observe("r", sorted(ks, key=str.lower, reverse=True))
    sx.observe("j", ",".join(k for k in ks))


@harness("S00", quick={}, bounds="")
def jsons(sx):
    v = sx.json("v", depth=2, slen=(0, 1), chars="aB", nlist=1, keys=["ab"])
    sx.observe("v", v)
    sx.observe("t", [isinstance(v, t) for t in (int, bool, str, float, list, dict, type(None))])
    sx.observe("n", type(v).__name__)
    sx.observe("h", v in [None, "", [], 1, True])
