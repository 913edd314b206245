"""one validator of every kind, over the small schema of common.py"""
from harness.common import CONFIG, Res, ext
from src.attributes_presence import AttributePresenceChecker
from src.data.container import AttrRep
from src.filter import Filter
from src.request_validators import (
    BulkOperations,
    Error,
    ResourceObjectDELETE,
    ResourceObjectGET,
    ResourceObjectPATCH,
    ResourceObjectPUT,
    ResourcesGET,
    ResourcesPOST,
    ResourceTypesGET,
    SchemasGET,
    SearchRequestPOST,
    ServerRootResourceGET,
)
from src.sorter import Sorter

R = Res()
RX = Res()
RX.with_extension(ext())
PATCH = ResourceObjectPATCH(CONFIG, resource_schema=R)
PUT = ResourceObjectPUT(CONFIG, resource_schema=RX)
POST = ResourcesPOST(CONFIG, resource_schema=RX)
GET = ResourceObjectGET(CONFIG, resource_schema=RX)
DELETE = ResourceObjectDELETE(CONFIG)
LIST = ResourcesGET(CONFIG, resource_schema=R)
ROOT = ServerRootResourceGET(CONFIG, resource_schemas=[R, RX])
SEARCH = SearchRequestPOST(CONFIG, resource_schemas=[R])
BULK = BulkOperations(CONFIG, resource_schemas=[R])
SCHEMAS = SchemasGET(CONFIG)
RTYPES = ResourceTypesGET(CONFIG)
ERROR = Error()

PATCH_URN = "urn:ietf:params:scim:api:messages:2.0:PatchOp"
BULK_URN = "urn:ietf:params:scim:api:messages:2.0:BulkRequest"
BULK_RESP_URN = "urn:ietf:params:scim:api:messages:2.0:BulkResponse"
LIST_URN = "urn:ietf:params:scim:api:messages:2.0:ListResponse"
SEARCH_URN = "urn:ietf:params:scim:api:messages:2.0:SearchRequest"
ERROR_URN = "urn:ietf:params:scim:api:messages:2.0:Error"


def resource(**kw):
    d = {"schemas": ["urn:t:T"], "id": "1", "req": "x", "meta": {"resourceType": "T", "location": "/Ts/1"}}
    d.update(kw)
    return d


def checkers():
    return [None, AttributePresenceChecker([AttrRep(attr="s")], True), AttributePresenceChecker([AttrRep(attr="s")], False)]


def filters():
    return [None] + [Filter.parse(t)[0] for t in
                     ['s eq "a"', 'cm[type eq "a"]', 'cm.value sw "a" or n gt 1', 'not (zz pr)', 'mv pr']]


def sorters():
    return [None] + [Sorter(AttrRep(attr=a, sub_attr=b), asc) for a, b, asc in
                     [("s", "", True), ("n", "", False), ("cm", "", True), ("c", "a", True), ("zz", "", True),
                      ("mv", "", False)]]
