"""the properties: one entry each; gen.py writes properties.jsonl and MANIFEST.json from it"""

I, H, C = "inputs", "histories", "configurations"
P = {}


def prop(id_, title, statement, over, text, why, files, mech, **extra):
    assert len(title) <= 80, (id_, len(title))
    P[id_] = {"id": id_, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], **extra}}


RV = "src/request_validators.py"
DC = "src/data/container.py"
AT = "src/data/attributes.py"
TY = "src/data/type.py"
SC = "src/data/schemas.py"
OPR = "src/data/operator.py"
FI = "src/filter.py"
PA = "src/data/path.py"
AP = "src/attributes_presence.py"
ER = "src/error.py"
SO = "src/sorter.py"
AS = "src/assets/schemas/"

prop("C01", "Parsing a request never raises, whatever the client sent",
     "Every request parser returns data together with a collection of issues for any JSON-like body, query string and "
     "headers, malformed or not. No client input makes it raise.",
     [I], "every JSON-like body, query string and headers",
     "tests feed a few hand-written bad bodies; the property is about every shape and type confusion at every depth",
     [RV, SC, AT, TY, DC, AS + "patch_op.py", AS + "bulk_ops.py", AS + "search_request.py"],
     [("request parsers", RV + ": parse_request of every validator"), ("schema processing", SC + ": BaseSchema.parse"),
      ("attribute processing", AT + ": Attribute.parse, ComplexAttribute.parse")])
prop("C02", "Dumping a response never raises, whatever the server built",
     "Every response validator returns data together with a collection of issues for any JSON-like body, any status code, "
     "headers, requested attributes, filter, sorting and paging arguments. No response content makes it raise.",
     [I, C], "every JSON-like response body, status, headers and query arguments",
     "tests use responses of the right overall shape; type confusion inside list, bulk and error bodies is not sampled",
     [RV, SC, AT, AS + "list_response.py", AS + "bulk_ops.py", AS + "error.py"],
     [("response validators", RV + ": dump_response of every validator"), ("schema processing", SC + ": BaseSchema.dump")])
prop("C03", "A processed body is handed over exactly when there are no issues",
     "A request with a body or a response is passed on with its processed body if and only if validation reported no "
     "issues; with any issue, wherever it is, the body is withheld. A valid body is never withheld and an invalid one is "
     "never passed on.",
     [I], "every combination of right and wrong parts of request and response bodies",
     "tests check single defects; the gate must hold for every combination of them",
     [RV], [("gate on issues", RV + ": parse_request / dump_response")])
prop("C04", "Schema processing accepts exactly the values of the declared types",
     "For any schema, parsing and dumping report an issue, at the attribute's own location, for exactly those values that "
     "are not of the attribute's declared type and cardinality; values of the right type come out unchanged (or in their "
     "documented converted form), absent ones stay absent, and attributes the schema does not define are dropped.",
     [I, C], "every attribute type, cardinality and nesting x any JSON value",
     "tests sample one or two wrong types for some attributes",
     [SC, AT, TY], [("type checks", TY + ": AttributeType.parse/dump and subclasses"),
                    ("cardinality and nesting", AT + ": Attribute._process, ComplexAttribute._process_complex"),
                    ("locations", SC + ": BaseSchema._process_data")])
prop("C05", "Attribute notation is parsed completely and compared ignoring letter case",
     "A text is accepted as an attribute name exactly when it has the form [schema:]attribute[.sub-attribute] as a whole, and "
     "its parts are those of the text. Two names are the same exactly when attribute and sub-attribute agree ignoring letter "
     "case and, where both carry a schema, the schemas agree ignoring letter case.",
     [I], "every text up to the bound; every pair of names",
     "tests list a dozen names; separators, case and whole-match errors show only on particular texts",
     [DC], [("notation", DC + ": AttrRep.parse, AttrRep.__eq__, AttrRep.top_level_equals")])
prop("C06", "Resource data is a map with case-insensitive attribute names",
     "After any sequence of assignments and deletions, reading an attribute, sub-attribute or extension attribute in any "
     "letter case returns what was last assigned to it, and nothing else changed. There is one entry per name ignoring "
     "letter case, converting to a plain dictionary loses nothing, and equality is agreement on every entry.",
     [I, H], "every history of assignments, deletions and reads up to the bound; any letter case",
     "tests run single operations; stale case mappings and lost entries need sequences of them",
     [DC], [("map operations", DC + ": SCIMDataContainer.__getitem__/__setitem__/__delitem__/__eq__/to_dict")])
prop("C07", "Filter comparisons mean what SCIM says for every type and value",
     "An attribute comparison in a filter selects a resource exactly when the stored value stands in that relation to the "
     "operand: texts compare with or without letter case according to the attribute, numbers numerically, dates as instants, "
     "multi-valued attributes by any item, complex attributes by their 'value'. Values of incompatible types and absent values do not match, and never cause an error.",
     [I, C], "every operator x attribute type x pair of values up to the bounds",
     "tests use a handful of value pairs; boundary, case and type-mix errors show only on particular pairs",
     [OPR, FI], [("comparison operators", OPR + ": AttributeOperator.match and its subclasses"), ("filter", FI + ": Filter.__call__")])
prop("C08", "'and', 'or' and 'not' combine filter results by their truth tables",
     "The verdict of a composed filter follows from the verdicts of its parts: 'and' selects when all parts do, 'or' when "
     "any does, 'not' when its part does not, for any nesting. Absent data makes a part fail in strict mode and is "
     "tolerated otherwise.",
     [I, C], "every shape of composition up to the bound x every truth value of the parts x both modes",
     "tests cover a few truth-table rows of shallow filters",
     [OPR, FI], [("logical operators", OPR + ": And, Or, Not"), ("strictness", FI + ": Filter.__call__")])
prop("C09", "Value filters on complex attributes select by one and the same item",
     "A value filter on a multi-valued complex attribute selects a resource exactly when a single item satisfies the whole "
     "inner filter; on a single-valued one when its value does. Sub-attributes compare by their own type and letter-case "
     "rule, and malformed items never cause an error.",
     [I], "every list of items up to the bound x inner filters of every operator",
     "conditions met by two different items, or only by the last one, are not sampled",
     [OPR], [("value filters", OPR + ": ComplexAttributeOperator.match")])
prop("C10", "A filter is parsed into the structure its text spells",
     "The parsed filter has the precedence of SCIM (not before and before or, parentheses first), left-to-right grouping, the "
     "attribute names of the text and literals with exactly their written value, whatever characters quoted texts contain. "
     "Operators and literals are recognised in any letter case where SCIM allows it.",
     [I], "compositions of arbitrary comparisons; literals with any characters up to the bound",
     "awkward literals (operators, brackets or quotes-like content inside texts) are not sampled",
     [FI, OPR], [("filter parser", FI + ": Filter.parse")])
prop("C11", "Exactly the well-formed filters are accepted, and parsing never raises",
     "Parsing any text either yields a filter with no issues, or no filter and at least one issue; it never raises. "
     "Accepted are exactly the texts of the filter grammar.",
     [I], "every token sequence up to the bound, every small edit of well-formed filters, every short text",
     "tests list malformed filters by hand; the grammar has infinitely many near-misses",
     [FI], [("filter parser", FI + ": Filter.parse")])
prop("C12", "A PATCH path is parsed into its parts or refused with an issue",
     "A path of the form attribute, attribute.sub-attribute or attribute[filter] with optional sub-attribute, schema-qualified "
     "or not, is parsed into exactly these parts; any other text is refused with an issue. Equal paths differ only in letter case.",
     [I], "every path up to the bounds, with awkward literals in the filter",
     "tests list a few paths", [PA], [("path parser", PA + ": PatchPath.parse, PatchPath.__eq__")])
prop("C13", "PATCH operations are refused unless the schema lets the client do them",
     "Read-only targets are never modified and read-only or required ones never removed; unknown targets, unknown operations, "
     "values of a wrong type and new items without their required parts are refused at the operation that is wrong. "
     "Every other operation is accepted, in any letter case of the operation's name, and keeps its target and value.",
     [I, C], "every target kind x operation x value kind; positions in the list of operations",
     "tests cover some targets for some operations",
     [AS + "patch_op.py", RV, PA], [("operation checks", AS + "patch_op.py"), ("presence in new items", RV + ": ResourceObjectPATCH.parse_request")])
prop("C14", "PUT drops read-only attributes; required attributes must be there",
     "A replacing request keeps every attribute the client may write and drops the read-only ones wherever they are: top level, "
     "inside complex attributes and their items, and in extensions. A required attribute that is absent, null or empty is reported "
     "at its own place (per item of a multi-valued one), except that a creating request need not have what the server issues.",
     [I, C], "every subset of attributes of every mutability and place; every way of lacking a required attribute",
     "tests use one user body; attribute kinds combine with places and with each other",
     [RV, AP], [("PUT and POST", RV + ": ResourceObjectPUT.parse_request, ResourcesPOST.parse_request"), ("presence", AP)])
prop("C15", "Responses contain what was requested and never what must not be returned",
     "In a response, attributes that are never returned, excluded by the client, or not among the requested ones are reported; those "
     "always returned may always be there. Required attributes must be present unless the client did not ask for them; names are "
     "matched in any letter case and requesting a complex attribute covers its parts.",
     [I, C], "returnability x requiredness x place x requested/excluded names x presence of a value",
     "the decision table has thousands of rows; tests visit about a dozen",
     [AP, RV], [("presence decision", AP + ": AttributePresenceChecker"), ("requested attributes", RV + ": parse_requested_attributes")])
prop("C16", "Sorting orders resources by the attribute and loses none",
     "Sorting any list of resources returns the same resources, in the order of the sort attribute's value (texts ignoring letter "
     "case unless the attribute is case-exact, date-times as instants; multi-valued "
     "attributes by their first value, complex ones by the value of their primary item, sub-attributes of those by that of the "
     "primary or else first item). Resources without a "
     "value come last in ascending and first in descending order, and equal ones keep their order.",
     [I, C], "every list of resources up to the bound x attribute kinds x direction",
     "tests sort a few fixed lists; ties, missing values and letter case interact",
     [SO], [("sorter", SO + ": Sorter.__call__")])
prop("C17", "Counters of a list response agree with the query and with its resources",
     "A list response is accepted exactly when its status is 200, totalResults, itemsPerPage and startIndex agree with the number of "
     "resources and with the requested count and start index, and fewer resources than the total are only returned when paging. "
     "Each disagreement is reported at the counter or list that is wrong.",
     [I, C], "every number of resources up to the bound x any counters, count and start index",
     "off-by-one conditions between five numbers; tests visit a few rows",
     [RV, AS + "list_response.py"], [("counters", RV + ": validate_number_of_resources, validate_start_index_consistency, validate_items_per_page_consistency and ResourcesGET.dump_response")])
prop("C18", "Resources of a list response conform to the query and to their type",
     "In a list response every resource that does not match the filter is reported, so are resources out of the requested order and "
     "attributes that were not requested or were excluded; a resource is processed by the schema its 'schemas' name. "
     "Nothing else is reported and a response without findings is passed on in order.",
     [I], "every list of resources of two types up to the bound x filters, sort orders and requested attributes",
     "tests check one bad resource at a time",
     [RV, FI, SO, AP], [("conformity", RV + ": validate_resources_filtered, validate_resources_sorted, validate_resources_attributes_presence"),
                        ("type of a resource", AS + "list_response.py: ListResponse.get_schemas_for_resources")])
prop("C19", "Bulk requests are accepted exactly when every operation is valid",
     "A bulk request is accepted exactly when it has no more operations than configured and each has a method, a path of the form the "
     "method needs naming a known resource, a bulkId when creating, and data valid for that resource and method. Whatever is wrong is "
     "reported at the operation and member that has it; accepted operations keep their order, method, path, and processed data.",
     [I], "every path text up to the bound; every combination of members; every sequence of operations up to the bound",
     "tests have one good and one bad bulk request",
     [AS + "bulk_ops.py", RV], [("members of an operation", AS + "bulk_ops.py: validate_request_operations"), ("operations", RV + ": BulkOperations.parse_request")])
prop("C20", "Bulk responses are accepted exactly when every operation is consistent",
     "A bulk response is accepted exactly when its status is 200, not more operations failed than tolerated, and each operation has a "
     "method, a status, and the location, bulkId and response they call for, with a known resource whose location, version and content "
     "agree with the operation, or an error of the same status. Whatever is wrong is reported at its operation and member.",
     [I], "every status, location, version; every combination of members; every sequence of operations up to the bound",
     "tests have two bad bulk responses",
     [AS + "bulk_ops.py", RV], [("members of an operation", AS + "bulk_ops.py: validate_response_operations"), ("operations", RV + ": BulkOperations.dump_response")])
prop("C21", "Error responses carry the status they are sent with",
     "An error response is accepted exactly when its body has a status that is the text of the HTTP status, the HTTP status is 300 to 599, "
     "and the optional scimType is one SCIM defines, in any letter case. A mismatch is reported at the body and at the status; the "
     "predefined errors are valid. An error that is read has its status as a number, and is reported when that is no error status.",
     [I], "every status code and status text, error type and detail", "tests sample three or four statuses",
     [RV, AS + "error.py", "src/assets/scim_error.py"], [("errors", RV + ": Error.dump_response")])
prop("C22", "Collections of issues lose and invent nothing",
     "After any sequence of additions, merges under a location, extractions and removals, a collection has exactly the issues it was "
     "given, at their locations. It has issues at a location exactly when some lie at or below it, and processing may go on there exactly "
     "when no issue at or above it forbids that; extracted and merged collections do not influence each other afterwards.",
     [I, H], "every history of additions followed by merge, get or pop up to the bound, asked about every location",
     "tests check single operations on hand-made collections",
     [ER], [("collection", ER + ": ValidationIssues")])
prop("C23", "Canonical values and single primary items are enforced as declared",
     "Where canonical values are enforced, exactly the values that are not among them (respecting the attribute's letter-case rule) are "
     "reported, at their own place, in core, complex, multi-valued and extension attributes; elsewhere every value passes. A multi-valued "
     "complex attribute is reported exactly when more than one item is primary.",
     [I, C], "every short text, letter case and place; every combination of primary flags up to the bound",
     "tests try one or two values at one place", [AT, SC], [("canonical values", AT + ": Attribute._process"), ("primary", AT + ": validate_single_primary_value")])
prop("C24", "'schemas' names the main schema and exactly the known extensions in use",
     "Unknown schemas, a missing main schema and extension data whose schema is not named are reported, in any letter case; nothing else "
     "is. Attributes of the same name in core and extensions have values and issues of their own, and no schema can be added twice.",
     [I, C], "every list of schemas up to the bound x extension data; pairs of attributes of the same name",
     "tests have one extension and exact letter case", [SC, DC], [("schemas", SC + ": validate_schemas_field"), ("extensions", SC + ": ResourceSchema.with_extension, BaseSchema._process_data")])
prop("C25", "Discovery tells what is declared, and nothing malformed is served",
     "The representation of any schema or extension has each attribute and sub-attribute of its own once with exactly its declared "
     "characteristics; that of a schema is itself valid. Schema, resource type and configuration responses are reported at the member that is absent or of a wrong type or value, "
     "and limits are demanded exactly for the options that are supported.",
     [I, C], "every type and combination of characteristics; every member wrong in every way",
     "tests compare one built-in schema", [SC, AT, AS + "schema.py", AS + "resource_type.py", AS + "service_provider_config.py", "src/assets/config.py"],
     [("representation", SC + ": get_schema_rep; " + AT + ": Attribute.to_dict"), ("schema responses", AS + "schema.py: dump_attributes"), ("options", "src/assets/config.py")])
prop("C26", "Responses with one resource have the right status, Location and meta",
     "Such a response is accepted only with the status of its method, with a Location header where one is needed and equal to "
     "meta.location where there is one, with the right resource type, and with an id free of the reserved word. No content is answered "
     "only when no attributes were asked for; each disagreement is reported at all the places that disagree.",
     [I], "every status, header and meta content up to the bounds", "tests sample single disagreements",
     [RV, SC], [("consistency", RV + ": _dump_resource_output_body"), ("resource type and id", SC + ": ResourceSchema.dump, bulk_id_validator")])
prop("C27", "Queries reach the handler as the client wrote them, or are refused",
     "For every request with a query, and for search requests, the filter, sort attribute and order, requested or excluded attributes, count and "
     "start index handed over mean what the client wrote. Malformed ones, and requesting and excluding at once, are reported at "
     "their parameter. Discovery of schemas and resource types refuses a filter.",
     [I], "filters with any text, sort attributes in any form, lists of names up to the bound, any numbers and numerals",
     "tests have one query each", [RV, AS + "search_request.py", SO, AP],
     [("query", RV + ": _parse_resources_get_request, parse_requested_attributes"), ("search", AS + "search_request.py: SearchRequest.parse")])
prop("C28", "Binary, URL and date-time values are accepted exactly when well-formed",
     "A binary value is accepted exactly when it is canonical base64, an external reference when it is an absolute URL, a date-time when its "
     "fields are in range; others are reported at their place. Accepted values are kept as they are, date-times as the instant they spell, "
     "readable again after dumping.",
     [I], "every text up to the bounds", "tests try a handful of encoded values", [TY], [("encodings", TY + ": Binary, ExternalReference, DateTime")])
prop("C29", "Validators do not change their input and keep no memory",
     "Parsing a request, dumping a response, filtering and sorting leave the body, query, headers, resources and lists they were given exactly as "
     "they were. Doing the same again, whatever was processed in between, gives the same issues and the same result.",
     [I, H], "requests and responses of every kind with arbitrary values in them; any other one in between",
     "shared or leaked state shows only in the second use after a particular first one", [RV, SC, AT, DC, FI, SO],
     [("copies of input", SC + ": BaseSchema._process_data; " + AT + ": ComplexAttribute._process_complex"), ("queries", RV + ": parse_request")])
prop("C30", "Users and groups behave as RFC 7643 describes them",
     "Every attribute of the built-in user (with its enterprise extension) and group accepts exactly the values of its SCIM type, is read-only, "
     "required, never returned or case-exact exactly where SCIM says so, when created, replaced, modified, returned or used in a filter. "
     "At most one item of a multi-valued attribute is primary.",
     [I], "every attribute x value of any kind x way of using it", "tests use one user and one group body",
     [AS + "user.py", AS + "group.py", SC], [("declarations", AS + "user.py, " + AS + "group.py"), ("processing", SC + ": BaseSchema._process")])
prop("C31", "Parsers and dumpers of the application run on valid values, and decide",
     "A parser or dumper which the application declares with an attribute, a sub-attribute or a complex attribute, in a schema or an extension, "
     "runs once for every value that passed the built-in checks, after them, in the order of declaration, each on what the one before returned; "
     "never for absent, null or refused values, and parsers never when dumping. What the last one returns is the value, and what it reports is an issue of that attribute.",
     [I, C], "every shape of attribute x state and text of its value x number of processors x direction",
     "tests attach one processor to one attribute; a processor that is skipped, repeated or overruled shows only for particular shapes and values",
     [AT, SC], [("processing", AT + ": Attribute._process, ComplexAttribute._process_complex"), ("declaration", SC + ": BaseSchema._bound_attr_to_schema")])
prop("C32", "A schema offers what was declared, and impossible declarations are refused",
     "Looking up an attribute of a schema by name, in any letter case, with or without schema or sub-attribute, finds the attribute declared by that name, in the schema or the "
     "extension, with everything that was declared about it, and nothing otherwise. Schemas declared with the same attributes do not influence "
     "each other. Configurations without their limits, reference types, operands and PATCH paths which cannot be are refused when made.",
     [I, C], "every short name x schema; every combination of flags; every combination of extended schemas",
     "tests look up a few names and declare a few attributes; a flag lost for one shape of attribute shows only where it is used",
     [AT, SC, PA, OPR, "src/assets/config.py"], [("lookup", AT + ": Attributes.get, Attributes.__getattr__"),
      ("declaration", SC + ": BaseSchema.__init__, ResourceSchema.with_extension, BaseSchema._bound_attr_to_schema"), ("limits", "src/assets/config.py: __post_init__")])
