"""C21: error responses"""
from symx.api import harness
from harness import validators as V
from harness.common import codes_at, has_at
from src.assets import scim_error
from src.assets.schemas.error import Error

ERROR = Error()
TYPES = ["invalidFilter", "tooMany", "uniqueness", "mutability", "invalidSyntax", "invalidPath", "noTarget", "invalidValue",
         "invalidVers", "sensitive"]


def dump(body, status, headers=None):
    return V.ERROR.dump_response(status_code=status, body=body, headers=headers)


@harness("C21", quick={"n": 3}, thorough={"n": 4}, bounds="any status code -9..9999; any status text of 0..n digits, null, absent or of another "
         "type", reach=["ok", "mismatch", "range", "missing"], budget=2)
def status(sx, n):
    code = sx.int("code", -9, 9999)
    k = sx.pick("k", 4)
    body = {"schemas": [V.ERROR_URN], "detail": "d"}
    if k == 0:
        body["status"] = s = sx.string("status", 0, n, chars="0123456789- ")
    elif k == 1:
        body["status"] = None
    elif k == 2:
        body["status"] = sx.int("istatus")
    data, issues = dump(body, code)
    in_range = sx.And(300 <= code, code < 600)
    if k == 0:
        if s == str(code):
            sx.check(not has_at(issues, "body"), "nothing wrong with the body")
            sx.check(bool(codes_at(issues, "status")) == sx.Not(in_range), "a status out of range is reported")
            if in_range:
                sx.reach("ok")
                sx.check(not issues.has_issues() and data.body["status"] == s and data.body["detail"] == "d", "the error is passed on")
            else:
                sx.reach("range")
                sx.check(data.body is None, "the body is withheld")
        else:
            sx.reach("mismatch")
            sx.check(bool(codes_at(issues, "body", "status")), "statuses that differ are reported at the body")
            sx.check(bool(codes_at(issues, "status")) or len(s) == 0, "and at the status")
            sx.check(data.body is None, "the body is withheld")
    else:
        sx.reach("missing")
        sx.check(bool(codes_at(issues, "body", "status")) and data.body is None, "a status is required and is a text")


@harness("C21", bounds="scimType: every one there is in any letter case, any other text up to 2 characters, null, absent or of a wrong type; "
         "detail likewise", reach=["ok", "bad"])
def members(sx):
    body = {"schemas": [V.ERROR_URN], "status": "400"}
    tk = sx.pick("tk", 5)
    good = True
    if tk == 0:
        body["scimType"] = sx.case("type", sx.choice("which", TYPES))
    elif tk == 1:
        body["scimType"] = sx.string("type", 0, 2)
        good = False
    elif tk == 2:
        body["scimType"] = sx.int("type")
        good = False
    elif tk == 3:
        body["scimType"] = None
    dk = sx.pick("dk", 4)
    dgood = True
    if dk == 0:
        body["detail"] = sx.string("detail", 0, 2)
    elif dk == 1:
        body["detail"] = sx.bool("detail")
        dgood = False
    elif dk == 2:
        body["detail"] = None
    data, issues = dump(body, 400, {"h": "v"})
    sx.check(bool(codes_at(issues, "body", "scimType")) == (not good), "only the known error types are accepted")
    sx.check(bool(codes_at(issues, "body", "detail")) == (not dgood), "detail is a text")
    ok = good and dgood
    sx.check(issues.has_issues() == (not ok) and (data.body is None) == (not ok) and data.headers == {"h": "v"}, "nothing else is reported")
    if ok:
        sx.reach("ok")
        for k in ("scimType", "detail"):
            sx.check((data.body[k] == body[k]) if k in body else k not in data.body, "members are passed on")
    else:
        sx.reach("bad")


@harness("C21", bounds="every predefined error", reach=["ok"])
def predefined(sx):
    name = sx.choice("name", ["INVALID_FILTER", "TOO_MANY", "UNIQUENESS", "MUTABILITY", "INVALID_SYNTAX", "INVALID_PATH", "NO_TARGET",
                              "INVALID_VALUE", "INVALID_VERS", "SENSITIVE"])
    e = getattr(scim_error, name)
    code = sx.int("code", 200, 600)
    data, issues = dump({"schemas": [V.ERROR_URN], **e}, code)
    sx.check(issues.has_issues() == (code != 400), "a predefined error is a valid error of status 400")
    sx.check(e["scimType"].lower() == name.replace("_", "").lower(), "and of the type of its name")
    if code == 400:
        sx.reach("ok")
        sx.check(data.body["scimType"] == e["scimType"] and data.body["detail"] == e["detail"], "passed on as it is")


@harness("C21", quick={"n": 3}, thorough={"n": 5}, bounds="errors read by a client: any status text of 1..n digits or letters, any detail, every error type", reach=["ok", "range", "bad"])
def parsed(sx, n):
    s = sx.string("status", 1, n, chars="0123456789x")
    body = {"schemas": [V.ERROR_URN], "status": s, "detail": sx.string("detail", 0, 1), "scimType": sx.case("type", sx.choice("which", TYPES[:3]))}
    out, issues = ERROR.parse(body)
    number = "x" not in s
    good = number and 300 <= int(s) < 600
    sx.check(bool(codes_at(issues, "status")) == (not good) and issues.has_issues() == (not good), "a status that is no error status is reported")
    if number:
        sx.reach("ok" if good else "range")
        sx.check(out["status"] == int(s), "the status is read as a number")
    else:
        sx.reach("bad")
    sx.check(out["detail"] == body["detail"] and out["scimType"] == body["scimType"], "the rest as it is")
