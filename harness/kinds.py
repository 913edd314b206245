"""a resource with an attribute of every type, single- and multi-valued, plain and inside a complex attribute"""
from harness.common import Res
from src.data import type as at
from src.data.attributes import Attribute, ComplexAttribute

TYPES = {"str": at.String, "boo": at.Boolean, "int": at.Integer, "dec": at.Decimal, "uri": at.URIReference, "ref": at.SCIMReference,
         "ext": at.ExternalReference, "bin": at.Binary, "dat": at.DateTime, "unk": at.Unknown}
ATTRS = [Attribute(name=k, type_=t) for k, t in TYPES.items()]
MANY = [Attribute(name=k + "s", type_=t, multi_valued=True) for k, t in TYPES.items()]
SCHEMA = Res(ATTRS + MANY + [ComplexAttribute(ATTRS + MANY, name="c"), ComplexAttribute(ATTRS + MANY, name="cm", multi_valued=True)])
EXTREMES = [2 ** 1024, -2 ** 1024, 10 ** 5000, float("inf"), float("-inf"), float("nan"), 1e308, -0.0, "\ud800", "\x00", "9" * 5000, "http://[", "http://x:99999999/",
            "9999-12-31T23:59:59.9999999+23:59", "0001-01-01T00:00:00+23:59", "10000-01-01T00:00:00", "2020-02-30T00:00:00Z", "====", "A=A=", "\u00e9", [[[]]], {"": {"": None}}, {"$ref": []}]


def value(sx, name, depth):
    """any small JSON value, or an extreme one"""
    if sx.pick(name + "?", 2):
        return sx.choice(name + "!", EXTREMES)
    return sx.json(name, depth=depth, kinds="nbifxsld", slen=(0, 1), chars="a:\u00e9", nlist=1, keys=["a", "value"])


def put(sx, body, depth=0):
    """body with a value of one attribute of any type"""
    k = sx.choice("type", list(TYPES))
    form = sx.pick("form", 4)
    v = value(sx, "v", depth)
    if form % 2:
        k, v = k + "s", [v]
    if form < 2:
        body[k] = v
    elif form == 2:
        body["c"] = {k: v}
    else:
        body["cm"] = [{}, {k: v}]
    return k, v, form
