"""C28: base64, URLs and date-times"""
import datetime
from symx.api import harness
from harness.common import Res, at, Attribute, ComplexAttribute, codes_at, has_at, T_URN

R = Res([Attribute(name="b", type_=at.Binary), Attribute(name="u", type_=at.ExternalReference), Attribute(name="t", type_=at.DateTime),
         Attribute(name="bm", type_=at.Binary, multi_valued=True), Attribute(name="um", type_=at.ExternalReference, multi_valued=True),
         ComplexAttribute(name="c", sub_attributes=[Attribute(name="b", type_=at.Binary), Attribute(name="u", type_=at.ExternalReference)]),
         Attribute(name="uri", type_=at.URIReference), Attribute(name="ref", type_=at.SCIMReference)])
B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def process(sx, data):
    out, issues = (R.parse if sx.pick("dir", 2) else R.dump)({"schemas": [T_URN], **data})
    return out, issues


def place(sx, key, v):
    k = sx.pick("place", 3)
    if k == 0:
        return {key: v}, (key,), lambda o: o[key]
    if k == 1:
        good = "" if key == "b" else "a://b"
        return {key + "m": [good, v]}, (key + "m", 1), lambda o: o[key + "m"][1]
    return {"c": {key: v}}, ("c", key), lambda o: o["c"][key]


def judge(sx, data, where, read, v, good, code):
    out, issues = process(sx, data)
    sx.check((code in codes_at(issues, *where)) == sx.Not(good), "what is not of the form is reported, and only that")
    sx.check(issues.has_issues() == sx.Not(good), "nothing else is reported")
    if good:
        sx.reach("ok")
        sx.check(read(out.to_dict()) == v, "the value is kept as it is")
    else:
        sx.reach("bad")


@harness("C28", quick=[{"n": 3}, {"n": 4}], thorough=[{"n": 3}, {"n": 4}, {"n": 5}, {"n": 8}],
         bounds="binary values of n characters (up to n below 4), any character; last bits right or wrong", reach=["ok", "bad"], budget=2)
def binary(sx, n):
    if n < 4:
        v = sx.string("v", 0, n)
        n = len(v)
    else:
        v = sx.string("v", n, n)
    data, where, read = place(sx, "b", v)
    if n % 4:
        good = False
    else:
        good = True
        for j in range(0, n, 4):
            last = j + 4 == n
            a, b, c, d = v[j], v[j + 1], v[j + 2], v[j + 3]
            four = sx.And(a in B64, b in B64, c in B64, d in B64)
            if last:        # the bits that are not part of a byte are zero
                three = sx.And(a in B64, b in B64, c in B64[::4], d == "=")
                two = sx.And(a in B64, b in B64[::16], c == "=", d == "=")
                good = sx.And(good, sx.Or(four, three, two))
            else:
                good = sx.And(good, four)
    judge(sx, data, where, read, v, good, 3)


@harness("C28", quick={"n": 3}, thorough={"n": 5}, bounds="external references: 0..n characters over {a,1,:,/,?,#,.}, bare and before or after '://'", reach=["ok", "bad"], budget=2)
def url(sx, n):
    k = sx.pick("len", n + 1)
    v = sx.string("v", k, chars="a1:/?#. ")
    mid = sx.pick("mid", 3)
    if mid == 1:
        v = v[:1] + "://" + v[1:]
    elif mid == 2:
        v = "a:/" + v
    k = len(v)
    data, where, read = place(sx, "u", v) if mid == 0 else ({"u": v}, ("u",), lambda o: o["u"])
    # scheme ":" "//" authority
    good = False
    i = 0
    while i < k and v[i] in "a1.":
        i += 1
    if i > 0 and v[0] == "a" and i + 3 < k and v[i] == ":" and v[i + 1] == "/" and v[i + 2] == "/" and v[i + 3] not in "/?#":
        good = True
    judge(sx, data, where, read, v, good, 8)


@harness("C28", bounds="URI and SCIM references: any text of 0..2 characters", reach=["ok"])
def references(sx):
    v = sx.string("v", 0, 2)
    key = sx.choice("key", ["uri", "ref"])
    out, issues = process(sx, {key: v})
    sx.check(not issues.has_issues() and out[key] == v, "they can be relative")
    sx.reach("ok")


@harness("C28", bounds="texts 2024-MM-DDThh:mm:ss with an offset or none, one field any two digits; parsed and dumped again", reach=["ok", "bad"])
def date_time(sx):
    f = sx.pick("field", 6)
    x = sx.string("x", 2, 2, chars="0123456789")
    parts = ["02", "11", "10", "20", "30", "05"]
    lo, hi = [(1, 12), (1, 29), (0, 23), (0, 59), (0, 59), (0, 23)][f]
    parts[f] = x
    off = sx.choice("off", ["", "Z", "+", "-"]) if f != 5 else "+"
    text = "2024-" + parts[0] + "-" + parts[1] + "T" + parts[2] + ":" + parts[3] + ":" + parts[4]
    frac = sx.choice("frac", ["", ".250000", ".000001"]) if f == 4 else ""
    text = text + frac + (off if off in ("", "Z") else off + parts[5] + ":00")
    n = int(x)
    out, issues = R.parse({"schemas": [T_URN], "t": text})
    good = sx.And(lo <= n, n <= hi)
    sx.check(bool(codes_at(issues, "t")) == sx.Not(good) and issues.has_issues() == sx.Not(good), "fields out of range are reported")
    if good:
        sx.reach("ok")
        t = out["t"]
        got = [t.month, t.day, t.hour, t.minute, t.second, 0][f]
        if f < 5:
            sx.check(got == n, "the fields are those of the text")
        sx.check(t.microsecond == (int(frac[1:]) if frac else 0), "down to the fraction of a second")
        sx.check((t.tzinfo is None) == (off == ""), "with an offset when there is one")
        if off in ("+", "-"):
            secs = int(parts[5]) * 3600
            sx.check(t.utcoffset() == datetime.timedelta(seconds=secs if off == "+" else -secs), "the very one")
        back, issues = R.dump({"schemas": [T_URN], "t": t})
        sx.check(not issues.has_issues(), "it can be dumped")
        again, issues = R.parse({"schemas": [T_URN], "t": back["t"]})
        sx.check(not issues.has_issues() and again["t"] == t, "and read back as the same instant")
    else:
        sx.reach("bad")


@harness("C28", bounds="a date-time with one of 20 characters in front, behind, or in place of any of its own", reach=["ok", "bad"])
def near_date_time(sx):
    """no character is overlooked"""
    base = sx.choice("base", ["2024-02-11T10:20:30Z", "2024-02-11T10:20:30.250000+05:00"])
    c = sx.string("c", 1, chars=" \t\nTZz:-+.,/0159aw\"'\u00a0")
    how = sx.pick("how", 3)
    if how < 2:
        text = c + base if how == 0 else base + c
        good = False
        if how == 1 and base.endswith("0"):
            sx.assume(c != ":")
    else:
        i = sx.choice("at", [0, 4, 5, 10, 13, 17, len(base) - 1])
        text = base[:i] + c + base[i + 1:]
        if i == 10:
            return                      # date and time are separated by any character
        if i == 13 or i == 4:
            good = c == base[i]
        elif i == len(base) - 1 and base[i] == "Z":
            sx.assume(sx.Or(c == "Z", sx.And(c != "z", sx.Not(c.isdigit()))))
            good = c == "Z"
        else:
            good = sx.And("0" <= c, c <= "9")
            sx.assume(sx.Not(sx.And(good, c != base[i])))
            good = c == base[i]
    out, issues = R.parse({"schemas": [T_URN], "t": text})
    sx.check(bool(codes_at(issues, "t")) == sx.Not(good), "stray characters are reported")
    sx.reach("ok" if good else "bad")


@harness("C28", quick={"n": 16}, thorough={"n": 50}, bounds="binary values of n groups of four characters, one of which, anywhere, is any character; with every padding",
         reach=["ok", "bad"])
def long_binary(sx, n):
    pad = sx.choice("pad", ["QUJD", "QUI=", "QQ=="])
    base = "QUJD" * (n - 1) + pad
    i = sx.choice("at", [0, 1, 2, 3, 4 * n // 2, 4 * n - 5, 4 * n - 4, 4 * n - 3, 4 * n - 2, 4 * n - 1])
    c = sx.string("c", 1)
    v = base[:i] + c + base[i + 1:]
    a, b, x, y = v[-4], v[-3], v[-2], v[-1]
    rest = sx.And(*[ch in B64 for ch in v[:-4]])
    last = sx.Or(sx.And(a in B64, b in B64, x in B64, y in B64), sx.And(a in B64, b in B64, x in B64[::4], y == "="),
                 sx.And(a in B64, b in B64[::16], x == "=", y == "="))
    judge(sx, {"b": v}, ("b",), lambda o: o["b"], v, sx.And(rest, last), 3)
