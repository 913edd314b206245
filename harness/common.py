"""schemas, bodies and small reference functions shared by the harnesses"""
from src.assets.config import create_service_provider_config
from src.data import type as at
from src.data.attributes import (
    Attribute,
    AttributeIssuer,
    AttributeMutability,
    AttributeReturn,
    ComplexAttribute,
)
from src.data.container import AttrRep, Invalid, Missing, SCIMDataContainer
from src.data.schemas import ResourceSchema, SchemaExtension

CONFIG = create_service_provider_config(
    patch={"supported": True},
    bulk={"supported": True, "max_operations": 2, "max_payload_size": 1000},
    filter_={"supported": True, "max_results": 50},
    sort={"supported": True},
    etag={"supported": True},
    change_password={"supported": True},
)

T_URN = "urn:t:T"
X_URN = "urn:x:X"


def small_attrs():
    """one attribute of every shape"""
    return [
        Attribute(name="s", type_=at.String),
        Attribute(name="req", type_=at.String, required=True),
        Attribute(name="n", type_=at.Integer),
        Attribute(name="ro", type_=at.String, mutability=AttributeMutability.READ_ONLY),
        Attribute(name="sec", type_=at.String, returned=AttributeReturn.NEVER,
                  mutability=AttributeMutability.WRITE_ONLY),
        Attribute(name="mv", type_=at.String, multi_valued=True),
        ComplexAttribute(name="c", sub_attributes=[
            Attribute(name="a", type_=at.String),
            Attribute(name="b", type_=at.Integer, mutability=AttributeMutability.READ_ONLY),
        ]),
        ComplexAttribute(name="cm", multi_valued=True, sub_attributes=[
            Attribute(name="value", type_=at.String, required=True),
            Attribute(name="type", type_=at.String),
            Attribute(name="primary", type_=at.Boolean),
        ]),
    ]


class Res(ResourceSchema):
    def __init__(self, attrs=None, schema=T_URN, name="T", plural_name="Ts", **kw):
        super().__init__(schema=schema, attrs=small_attrs() if attrs is None else attrs, name=name,
                         plural_name=plural_name, **kw)


def ext(attrs=None, schema=X_URN, name="X"):
    return SchemaExtension(schema=schema, name=name, attrs=attrs if attrs is not None else [
        Attribute(name="e", type_=at.String),
        Attribute(name="en", type_=at.Integer),
    ])


def issue_tree(issues):
    return issues.to_dict()


def codes_at(issues, *location):
    """codes of the issues reported exactly at the location"""
    d = issues.to_dict()
    for part in location:
        if not isinstance(d, dict) or str(part) not in d:
            return []
        d = d[str(part)]
    return [e["code"] for e in d.get("_errors", [])]


def has_at(issues, *location):
    """any issue at or below the location"""
    d = issues.to_dict()
    for part in location:
        if not isinstance(d, dict) or str(part) not in d:
            return False
        d = d[str(part)]
    return True


def fields(sx, name, spec):
    """dict with every key of spec either absent or with the value of its generator"""
    pairs = []
    for key, gen in spec.items():
        if sx.pick(name + "." + key + "?", 2):
            pairs.append((key, gen(sx, name + "." + key)))
    return sx.mkdict(pairs)


# texts beyond ASCII: whatever "ignoring letter case" means for them, each is itself, and É is é
FOREIGN = ["\u00df", "\u00c9", "\u00e9", "\u03c3", "\u0130", "\ufb01", "\u0149", "\u0436", "\u540d"]


def foreign_same(a, b):
    fold = {"\u00c9": "\u00e9"}
    a, b = fold.get(a, a), fold.get(b, b)
    return a == b
