"""what each check compares the code with; design.py puts it into DESIGN.md together with the bounds of the harnesses"""
ORACLE = {
    "C01": "no exception leaves a request parser; the result is a pair of data and issues.",
    "C02": "no exception leaves a response validator; the result is a pair of data and issues.",
    "C03": "body is None exactly when there are issues; and issues are there exactly when a facet was made wrong.",
    "C04": "a table of Python types per SCIM type, cardinality and direction; the expected output and the set of issue locations.",
    "C05": "a hand-written recogniser of [schema:]attr[.sub] over characters; case-folded comparison of the parts.",
    "C06": "a reference map keyed by lower-cased names, updated in step with the container.",
    "C07": "the relation on the Python values themselves (texts folded or not, numbers, instants, any item).",
    "C08": "three-valued truth tables over the leaf verdicts, strict and tolerant.",
    "C09": "exists-an-item semantics evaluated item by item over the reference leaf relation.",
    "C10": "the tree from which the text was written: the generator knows the structure it printed.",
    "C11": "an independent recursive-descent recogniser of the filter grammar over tokens.",
    "C12": "the parts from which the path was written; a recogniser for arbitrary texts.",
    "C13": "a table: target kind x mutability x required x operation -> accepted or refused, and where.",
    "C14": "the input without the attributes declared read-only; the set of required places that are absent, null or empty.",
    "C15": "the truth table of returned x required x requested/excluded at every place.",
    "C16": "stable insertion sort by a reference key; permutation and order of all pairs.",
    "C17": "arithmetic relation between counters, number of resources and the request, as a set of issue locations.",
    "C18": "per-resource verdict of a reference filter, pairwise order and set of returned attributes.",
    "C19": "a reference validator of operations: set of issue locations per operation, and the data handed over.",
    "C20": "a reference validator of operation results: set of issue locations per operation.",
    "C21": "digits of the status and the list of scimTypes in RFC 7644.",
    "C22": "a reference multiset of (location, code, proceed).",
    "C23": "membership in the declared list, folded or not; number of items that are primary.",
    "C24": "case-folded set operations on the names in 'schemas' and on the keys in the data.",
    "C25": "the declaration itself; RFC 7643 section 7 for members of schema, resource type and configuration.",
    "C26": "a table of method -> status, header; equality of the locations.",
    "C27": "the query from which the texts were written.",
    "C28": "a hand-written base64 recogniser over characters, RFC 3986 scheme/authority split, calendar arithmetic.",
    "C29": "deep copies of the arguments; results of a first and of a second run.",
    "C30": "a table of the attributes of RFC 7643 sections 3.1, 4 and 8.7 written by hand.",
    "C31": "processors which record their call and append their number: the expected list of calls, text and issues follow from the declaration.",
    "C32": "the declaration as a table; the arguments of the declared attribute; conditions on limits, reference types, operands and path parts written by hand.",
}
