From ba756c7ff8937e82dfe0aa0b3ce5cb1a5016a4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:20 +0000
Subject: [PATCH 01/74] fix: keep one entry per case-insensitive attribute name
 in SCIMDataContainer

---
 src/data/container.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/data/container.py b/src/data/container.py
index eaab362..bcf3219 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -123,6 +123,7 @@ class SCIMDataContainer:
                 if not isinstance(key, str):
                     continue
 
+                self._data.pop(self._lower_case_to_original.get(key.lower()), None)
                 self._lower_case_to_original[key.lower()] = key
                 if isinstance(value, Dict):
                     self._data[key] = SCIMDataContainer(value)
@@ -144,9 +145,10 @@ class SCIMDataContainer:
         if attr_rep.extension:
             extension_key = self._lower_case_to_original.get(attr_rep.schema.lower())
             if extension_key is None:
+                extension_key = attr_rep.schema
                 self._lower_case_to_original[attr_rep.schema.lower()] = attr_rep.schema
                 self._data[attr_rep.schema] = SCIMDataContainer()
-            self._data[attr_rep.schema][
+            self._data[extension_key][
                 AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)
             ] = value
         elif attr_rep.sub_attr:
@@ -173,8 +175,8 @@ class SCIMDataContainer:
             else:
                 self._data[initial_key][AttrRep(attr=attr_rep.sub_attr)] = value
         else:
-            self._lower_case_to_original[attr_rep.attr.lower()] = attr_rep.attr
-            self._data[attr_rep.attr] = value
+            key = self._lower_case_to_original.setdefault(attr_rep.attr.lower(), attr_rep.attr)
+            self._data[key] = value
 
     def __getitem__(self, attr_rep: Union["AttrRep", str]):
         if isinstance(attr_rep, str):
-- 
2.43.0


From 908ba0a18a8d2ce131f9cf0cca8cc99752527a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:23 +0000
Subject: [PATCH 02/74] fix: do not crash on body keys that hold no extension
 data

---
 src/data/container.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/data/container.py b/src/data/container.py
index bcf3219..fa0f41f 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -182,7 +182,7 @@ class SCIMDataContainer:
         if isinstance(attr_rep, str):
             attr_rep = self._to_attr_rep(attr_rep)
 
-        extension = self._lower_case_to_original.get(attr_rep.schema.lower())
+        extension = self._get_extension_key(attr_rep)
         if extension is not None:
             return self._data[extension][AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)]
 
@@ -195,7 +195,12 @@ class SCIMDataContainer:
             if isinstance(attr_value, SCIMDataContainer):
                 return attr_value[AttrRep(attr=attr_rep.sub_attr)]
             if isinstance(attr_value, List):
-                return [item[AttrRep(attr=attr_rep.sub_attr)] for item in attr_value]
+                return [
+                    item[AttrRep(attr=attr_rep.sub_attr)]
+                    if isinstance(item, SCIMDataContainer)
+                    else Missing
+                    for item in attr_value
+                ]
             return Missing
         return self._data[attr]
 
@@ -203,7 +208,7 @@ class SCIMDataContainer:
         if isinstance(attr_rep, str):
             attr_rep = self._to_attr_rep(attr_rep)
 
-        extension = self._lower_case_to_original.get(attr_rep.schema.lower())
+        extension = self._get_extension_key(attr_rep)
         if extension is not None:
             del self._data[extension][AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)]
             return
@@ -218,12 +223,19 @@ class SCIMDataContainer:
                 del attr_value[AttrRep(attr=attr_rep.sub_attr)]
             elif isinstance(attr_value, List):
                 for item in attr_value:
-                    del item[AttrRep(attr=attr_rep.sub_attr)]
+                    if isinstance(item, SCIMDataContainer):
+                        del item[AttrRep(attr=attr_rep.sub_attr)]
             return
 
         self._data.pop(attr)
         self._lower_case_to_original.pop(attr_rep.attr.lower())
 
+    def _get_extension_key(self, attr_rep: "AttrRep") -> Optional[str]:
+        key = self._lower_case_to_original.get(attr_rep.schema.lower())
+        if attr_rep.schema and isinstance(self._data.get(key), SCIMDataContainer):
+            return key
+        return None
+
     @staticmethod
     def _can_assign_to_complex(current_value, new_value) -> bool:
         if isinstance(current_value, SCIMDataContainer):
-- 
2.43.0


From 2d2011d50421d3d8aae8c02eae569e3898308415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:43 +0000
Subject: [PATCH 03/74] fix: do not take an absent extension's attribute from
 the core attribute of the same name

---
 src/data/container.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/container.py b/src/data/container.py
index fa0f41f..fff3344 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -185,6 +185,8 @@ class SCIMDataContainer:
         extension = self._get_extension_key(attr_rep)
         if extension is not None:
             return self._data[extension][AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)]
+        if attr_rep.extension:
+            return Missing
 
         attr = self._lower_case_to_original.get(attr_rep.attr.lower())
         if attr is None:
@@ -212,6 +214,8 @@ class SCIMDataContainer:
         if extension is not None:
             del self._data[extension][AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)]
             return
+        if attr_rep.extension:
+            return
 
         attr = self._lower_case_to_original.get(attr_rep.attr.lower())
         if attr is None:
-- 
2.43.0


From c853efffdfbf2d586afde256097e2ec01d6a7cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:47 +0000
Subject: [PATCH 04/74] fix: SCIMDataContainer equality compares all the keys
 of both sides

---
 src/data/container.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/data/container.py b/src/data/container.py
index fff3344..05c2ba0 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -289,8 +289,11 @@ class SCIMDataContainer:
         elif not isinstance(other, SCIMDataContainer):
             return False
 
-        for key, value in self._data.items():
-            if other[key] != value:
+        if self._lower_case_to_original.keys() != other._lower_case_to_original.keys():
+            return False
+
+        for lower_key, key in self._lower_case_to_original.items():
+            if other._data[other._lower_case_to_original[lower_key]] != self._data[key]:
                 return False
 
         return True
-- 
2.43.0


From 67563ad892b3036b1493c82e0224a39776cd1c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:07 +0000
Subject: [PATCH 05/74] fix: accept $ref as a sub-attribute name and validate
 the whole attribute name

---
 src/data/container.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/container.py b/src/data/container.py
index 05c2ba0..a62227e 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -3,7 +3,7 @@ from typing import Any, Dict, List, Optional, Union
 
 _ATTR_NAME = re.compile(r"(\w+|\$ref)")
 _URI_PREFIX = re.compile(r"(?:[\w.-]+:)*")
-_ATTR_REP = re.compile(rf"({_URI_PREFIX.pattern})?({_ATTR_NAME.pattern}(\.\w+)?)")
+_ATTR_REP = re.compile(rf"({_URI_PREFIX.pattern})?({_ATTR_NAME.pattern}(\.{_ATTR_NAME.pattern})?)")
 
 
 class AttrRep:
@@ -19,7 +19,7 @@ class AttrRep:
         if sub_attr:
             attr_ += "." + sub_attr
 
-        if not _ATTR_REP.fullmatch(attr):
+        if not _ATTR_REP.fullmatch(attr_):
             raise ValueError(f"{attr_!r} is not valid attr / sub-attr name")
 
         if extension and not schema:
-- 
2.43.0


From e11c86df05526f61470521dd4050307d17dea1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:10 +0000
Subject: [PATCH 06/74] fix: report non-ASCII binary values and non-finite
 numbers as issues

---
 src/data/type.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data/type.py b/src/data/type.py
index d2c831e..dd72a4a 100644
--- a/src/data/type.py
+++ b/src/data/type.py
@@ -98,13 +98,13 @@ class Integer(AttributeType):
 
     @classmethod
     def parse(cls, value: t.Any) -> t.Tuple[t.Optional[int], ValidationIssues]:
-        if isinstance(value, float) and int(value) == value:
+        if isinstance(value, float) and value.is_integer():
             return int(value), ValidationIssues()
         return super().parse(value)
 
     @classmethod
     def dump(cls, value: t.Any) -> t.Tuple[t.Optional[int], ValidationIssues]:
-        if isinstance(value, float) and int(value) == value:
+        if isinstance(value, float) and value.is_integer():
             return int(value), ValidationIssues()
         return super().dump(value)
 
@@ -149,7 +149,7 @@ class Binary(String):
                     issue=ValidationError.base_64_encoding_required(cls.SCIM_NAME),
                     proceed=False,
                 )
-        except binascii.Error:
+        except (binascii.Error, UnicodeEncodeError):
             issues.add(
                 issue=ValidationError.base_64_encoding_required(cls.SCIM_NAME),
                 proceed=False,
-- 
2.43.0


From 6772d232821a303c71b1901fd3cdeab177728c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:15 +0000
Subject: [PATCH 07/74] fix: a boolean is not an integer nor a decimal

---
 src/data/type.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/data/type.py b/src/data/type.py
index dd72a4a..6c92b53 100644
--- a/src/data/type.py
+++ b/src/data/type.py
@@ -19,7 +19,7 @@ class AttributeType(abc.ABC):
     @classmethod
     def parse(cls, value: t.Any) -> t.Tuple[t.Any, ValidationIssues]:
         issues = ValidationIssues()
-        if not isinstance(value, cls.PARSE_TYPE):
+        if not isinstance(value, cls.PARSE_TYPE) or _is_boolean_number(value, cls.PARSE_TYPE):
             issues.add(
                 issue=ValidationError.bad_type(
                     expected=get_scim_type(cls.PARSE_TYPE), provided=get_scim_type(type(value))
@@ -32,7 +32,7 @@ class AttributeType(abc.ABC):
     @classmethod
     def dump(cls, value: t.Any) -> t.Tuple[t.Any, ValidationIssues]:
         issues = ValidationIssues()
-        if not isinstance(value, cls.DUMP_TYPE):
+        if not isinstance(value, cls.DUMP_TYPE) or _is_boolean_number(value, cls.DUMP_TYPE):
             issues.add(
                 issue=ValidationError.bad_type(
                     expected=get_scim_type(cls.DUMP_TYPE), provided=get_scim_type(type(value))
@@ -246,6 +246,10 @@ _TYPE_TO_SCIM_TYPE: t.Dict[t.Type, str] = {
 }
 
 
+def _is_boolean_number(value: t.Any, type_: t.Type) -> bool:
+    return isinstance(value, bool) and type_ is not bool
+
+
 def get_scim_type(type_: t.Type) -> str:
     return _TYPE_TO_SCIM_TYPE.get(type_, "unknown")
 
-- 
2.43.0


From 8d4b95bfda75b7e2ab6a21c62074ad3cc4608f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:19 +0000
Subject: [PATCH 08/74] fix: comparison value parsing (lone quote, infinities,
 big integers)

---
 src/utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/utils.py b/src/utils.py
index 030c99a..3ecfdd5 100644
--- a/src/utils.py
+++ b/src/utils.py
@@ -1,3 +1,4 @@
+import math
 import re
 from typing import Any, Optional
 
@@ -18,7 +19,7 @@ def parse_placeholder(exp: str) -> Optional[int]:
 
 
 def parse_comparison_value(value: str) -> Any:
-    if (
+    if len(value) > 1 and (
         value.startswith('"')
         and value.endswith('"')
         or value.startswith("'")
@@ -32,7 +33,12 @@ def parse_comparison_value(value: str) -> Any:
     elif value == "null":
         value = None
     else:
-        parsed = float(value)
+        try:
+            return int(value)
+        except ValueError:
+            parsed = float(value)
+        if not math.isfinite(parsed):
+            raise ValueError(f"{value!r} is not a finite number")
         parsed_int = int(parsed)
         if parsed == parsed_int:
             value = parsed_int
-- 
2.43.0


From f14a02522883b81f2c061b929e8522fd8870625a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:54 +0000
Subject: [PATCH 09/74] fix: do not crash on schemas items that are not strings

---
 src/data/schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/schemas.py b/src/data/schemas.py
index 322f771..bb175fe 100644
--- a/src/data/schemas.py
+++ b/src/data/schemas.py
@@ -281,7 +281,7 @@ def validate_schemas_field(
 ) -> ValidationIssues:
     issues = ValidationIssues()
     main_schema = main_schema.lower()
-    schemas_ = [item.lower() for item in schemas_]
+    schemas_ = [item.lower() for item in schemas_ if isinstance(item, str)]
     known_schemas = [item.lower() for item in known_schemas]
     main_schema_included = False
     mismatch = False
-- 
2.43.0


From 8e04bd66d516346c4bf95ba3df9b5f653b23d02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:58 +0000
Subject: [PATCH 10/74] fix: keep canonical value validation of attributes
 bound to a schema

---
 src/data/attributes.py | 4 ++++
 src/data/schemas.py    | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/data/attributes.py b/src/data/attributes.py
index c565fa8..f983e57 100644
--- a/src/data/attributes.py
+++ b/src/data/attributes.py
@@ -146,6 +146,10 @@ class Attribute:
     def canonical_values(self) -> Optional[list]:
         return self._canonical_values
 
+    @property
+    def validate_canonical_values(self) -> bool:
+        return self._validate_canonical_values
+
     @property
     def mutability(self) -> AttributeMutability:
         return self._mutability
diff --git a/src/data/schemas.py b/src/data/schemas.py
index bb175fe..7c0a936 100644
--- a/src/data/schemas.py
+++ b/src/data/schemas.py
@@ -187,6 +187,7 @@ class BaseSchema(abc.ABC):
             case_exact=attr.case_exact,
             multi_valued=attr.multi_valued,
             canonical_values=attr.canonical_values,
+            validate_canonical_values=attr.validate_canonical_values,
             mutability=attr.mutability,
             returned=attr.returned,
             uniqueness=attr.uniqueness,
-- 
2.43.0


From 7e1ff2d05f5377cceaecbaec5c2e8350a2463b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:02 +0000
Subject: [PATCH 11/74] fix: keep the description of attributes bound to a
 schema

---
 src/data/schemas.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/data/schemas.py b/src/data/schemas.py
index 7c0a936..8a94dae 100644
--- a/src/data/schemas.py
+++ b/src/data/schemas.py
@@ -167,6 +167,7 @@ class BaseSchema(abc.ABC):
             return ComplexAttribute(
                 sub_attributes=list(attr.attrs),
                 name=attr_rep,
+                description=attr.description,
                 required=attr.required,
                 issuer=attr.issuer,
                 multi_valued=attr.multi_valued,
@@ -181,6 +182,7 @@ class BaseSchema(abc.ABC):
         return Attribute(
             name=attr_rep,
             type_=attr.type,
+            description=attr.description,
             reference_types=attr.reference_types,
             issuer=attr.issuer,
             required=attr.required,
-- 
2.43.0


From a088be9bf3ceb32a1272e68df4b5d053cb53546e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:07 +0000
Subject: [PATCH 12/74] fix: detect a repeated schema extension regardless of
 letter case

---
 src/data/schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/schemas.py b/src/data/schemas.py
index 8a94dae..473a1ab 100644
--- a/src/data/schemas.py
+++ b/src/data/schemas.py
@@ -379,7 +379,7 @@ class ResourceSchema(BaseSchema, abc.ABC):
         return list(self._schema_extensions)
 
     def with_extension(self, extension: "SchemaExtension", required: bool = False) -> None:
-        if extension.schema in map(lambda x: x.lower(), self.schemas):
+        if extension.schema.lower() in map(lambda x: x.lower(), self.schemas):
             raise ValueError(f"extension {extension!r} already in {self!r} schema")
 
         self._schema_extensions[extension.schema] = required
-- 
2.43.0


From 5ca23a055c8de3cf15de9d6acd531b9f9bb93598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:26 +0000
Subject: [PATCH 13/74] fix: merging issues that allow proceeding does not stop
 proceeding

---
 src/error.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/error.py b/src/error.py
index 18b5c1b..8102d60 100644
--- a/src/error.py
+++ b/src/error.py
@@ -312,7 +312,8 @@ class ValidationIssues:
         for other_location, location_issues in issues._issues.items():
             new_location = location + other_location
             self._issues[new_location].extend(location_issues)
-            self._stop_proceeding[new_location].update(issues._stop_proceeding[other_location])
+            if issues._stop_proceeding.get(other_location):
+                self._stop_proceeding[new_location].update(issues._stop_proceeding[other_location])
 
     def add(
         self,
-- 
2.43.0


From a99d6753f61e356d4b1e26fbf6798edeef1594db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:32 +0000
Subject: [PATCH 14/74] fix: ValidationIssues.get returns an independent,
 usable collection

---
 src/error.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/error.py b/src/error.py
index 8102d60..32b6e1c 100644
--- a/src/error.py
+++ b/src/error.py
@@ -327,17 +327,14 @@ class ValidationIssues:
             self._stop_proceeding[location].add(issue.code)
 
     def get(self, location: Collection[Union[str, int]]) -> "ValidationIssues":
+        location = tuple(location)
         copy = ValidationIssues()
-        copy._issues = {
-            location_[len(location) :]: errors
-            for location_, errors in self._issues.items()
-            if location_[: len(location)] == location
-        }
-        copy._stop_proceeding = {
-            location_[len(location) :]: codes
-            for location_, codes in self._stop_proceeding.items()
-            if location_[: len(location)] == location
-        }
+        for location_, errors in self._issues.items():
+            if location_[: len(location)] == location:
+                copy._issues[location_[len(location) :]].extend(errors)
+        for location_, codes in self._stop_proceeding.items():
+            if location_[: len(location)] == location:
+                copy._stop_proceeding[location_[len(location) :]].update(codes)
         return copy
 
     def pop(self, location: Collection[Union[str, int]], code: int) -> "ValidationIssues":
-- 
2.43.0


From 873791a174cfa796aaabde148297fda8d6c7df5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:54 +0000
Subject: [PATCH 15/74] fix: ValidationIssues.pop removes and returns every
 issue of the given code, and nothing else

---
 src/error.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/error.py b/src/error.py
index 32b6e1c..062f2bc 100644
--- a/src/error.py
+++ b/src/error.py
@@ -343,11 +343,13 @@ class ValidationIssues:
         if location not in self._issues:
             return ValidationIssues()
 
-        popped = self.get(location)
+        popped = ValidationIssues()
 
-        for issue in self._issues[location]:
+        stop = code in self._stop_proceeding.get(location, set())
+        for issue in list(self._issues[location]):
             if issue.code == code:
                 self._issues[location].remove(issue)
+                popped.add(issue, proceed=not stop)
                 if issue.code in self._stop_proceeding.get(location, set()):
                     self._stop_proceeding[location].remove(issue.code)
 
-- 
2.43.0


From aa78684ff4e3c5b053cdcaf181d60db8c1affe88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:57 +0000
Subject: [PATCH 16/74] fix: 'and' fails when one of its operands refers to an
 unknown attribute

---
 src/data/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index 205fa94..4f9e8a1 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -120,7 +120,7 @@ class And(MultiOperandLogicalOperator):
         value = value or {}
         missing_data = False
         for match in self._collect_matches(value, attrs, strict):
-            if match.status == MatchStatus.FAILED:
+            if match.status in [MatchStatus.FAILED, MatchStatus.FAILED_NO_ATTR]:
                 return MatchResult.failed()
             if match.status == MatchStatus.MISSING_DATA:
                 missing_data = True
-- 
2.43.0


From acb1b570649ec3fa9f2e6309316e3f6f45f19fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:01 +0000
Subject: [PATCH 17/74] fix: logical operators accept missing data

---
 src/data/operator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index 4f9e8a1..79158ad 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -117,7 +117,7 @@ class And(MultiOperandLogicalOperator):
         attrs: Attributes,
         strict: bool = True,
     ) -> MatchResult:
-        value = value or {}
+        value = value or SCIMDataContainer()
         missing_data = False
         for match in self._collect_matches(value, attrs, strict):
             if match.status in [MatchStatus.FAILED, MatchStatus.FAILED_NO_ATTR]:
@@ -138,7 +138,7 @@ class Or(MultiOperandLogicalOperator):
         attrs: Attributes,
         strict: bool = True,
     ) -> MatchResult:
-        value = value or {}
+        value = value or SCIMDataContainer()
         missing_data = False
         for match in self._collect_matches(value, attrs, strict):
             if match.status == MatchStatus.PASSED:
@@ -171,7 +171,7 @@ class Not(LogicalOperator):
         attrs: Attributes,
         strict: bool = True,
     ) -> MatchResult:
-        value = value or {}
+        value = value or SCIMDataContainer()
         if isinstance(self._sub_operator, LogicalOperator):
             match = self._sub_operator.match(value, attrs, strict=True)
             if match.status == MatchStatus.MISSING_DATA:
-- 
2.43.0


From 8e2901c1aacd5173217c34704e98bf11240f8ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:27 +0000
Subject: [PATCH 18/74] fix: 'pr' works on multi-valued complex attributes of
 parsed data

---
 src/data/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index 79158ad..2a2d957 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -226,7 +226,7 @@ class Present(AttributeOperator):
 
         if isinstance(attr, ComplexAttribute):
             if isinstance(value, List):
-                match = any([item.get("value") for item in value])
+                match = any([SCIMDataContainer(item)["value"] for item in value])
             else:
                 match = False
         elif isinstance(value, List):
-- 
2.43.0


From 30c67f3f01a0947323be886ba4061ba85fcfbe51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:31 +0000
Subject: [PATCH 19/74] fix: filter comparison of incompatible values does not
 match, instead of raising

---
 src/data/operator.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index 2a2d957..9d68faa 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -276,12 +276,14 @@ class BinaryAttributeOperator(AttributeOperator, abc.ABC):
             if not attr.multi_valued:
                 return None
 
-            value = [item["value"] for item in value]
+            value = [SCIMDataContainer(item)["value"] for item in value]
 
         if attr.type.SCIM_NAME == "dateTime":
             try:
-                return [(datetime.fromisoformat(value), datetime.fromisoformat(self.value))]
-            except ValueError:
+                if not isinstance(value, datetime):
+                    value = datetime.fromisoformat(value)
+                return [(value, datetime.fromisoformat(self.value))]
+            except (TypeError, ValueError):
                 return None
 
         if isinstance(self.value, str):
@@ -319,8 +321,11 @@ class BinaryAttributeOperator(AttributeOperator, abc.ABC):
             return MatchResult.failed()
 
         for attr_value, op_value in values:
-            if self.OPERATOR(attr_value, op_value):
-                return MatchResult.passed()
+            try:
+                if self.OPERATOR(attr_value, op_value):
+                    return MatchResult.passed()
+            except TypeError:  # values of types that can not be compared do not match
+                continue
         return MatchResult.failed()
 
 
-- 
2.43.0


From 9aab4e4913039d7be47e5f086fc7e24f62433b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:07 +0000
Subject: [PATCH 20/74] fix: a complex filter on an omitted multi-valued
 attribute passes unless strict

---
 src/data/operator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index 9d68faa..87b5af3 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -495,6 +495,8 @@ class ComplexAttributeOperator:
         attr = attrs.get(self._attr_rep)
         if attr is None or not isinstance(attr, ComplexAttribute):
             return MatchResult.failed_no_attr()
+        if attr.multi_valued and value in [None, Missing]:
+            value = []
         if (
             attr.multi_valued
             and not isinstance(value, List)
@@ -521,7 +523,7 @@ class ComplexAttributeOperator:
                 return MatchResult.passed()
             return MatchResult.failed()
 
-        missing_data = False
+        missing_data = not value
         for item in value:
             match = self._sub_operator.match(item, attr.attrs, strict)
             if match.status == MatchStatus.PASSED:
-- 
2.43.0


From 0b4074539152aa2fd5149183658f91a0a6d7f6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:11 +0000
Subject: [PATCH 21/74] fix: complex filters tolerate items that are not
 complex

---
 src/data/operator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index 87b5af3..aa89051 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -273,7 +273,7 @@ class BinaryAttributeOperator(AttributeOperator, abc.ABC):
             if value_sub_attr is None:
                 return None
 
-            if not attr.multi_valued:
+            if not attr.multi_valued or not isinstance(value, List):
                 return None
 
             value = [SCIMDataContainer(item)["value"] for item in value]
@@ -509,6 +509,7 @@ class ComplexAttributeOperator:
 
         if not isinstance(value, List):
             value = [value]
+        value = [SCIMDataContainer(item) for item in value]
 
         if isinstance(self._sub_operator, AttributeOperator):
             has_value = False
-- 
2.43.0


From e8bb34afa44c0df134136a13dae68e6504413aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:16 +0000
Subject: [PATCH 22/74] fix: honour excludeAttributes of a search request

---
 src/assets/schemas/search_request.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assets/schemas/search_request.py b/src/assets/schemas/search_request.py
index 092c0ff..9b7c1c6 100644
--- a/src/assets/schemas/search_request.py
+++ b/src/assets/schemas/search_request.py
@@ -130,7 +130,7 @@ class SearchRequest(BaseSchema):
                     proceed=False,
                     location=(self.attrs.excludeattributes.rep.attr,),
                 )
-            if to_include or to_include:
+            if to_include or to_exclude:
                 data[AttrRep(attr="presence_checker")] = AttributePresenceChecker(
                     attr_reps=to_include or to_exclude, include=bool(to_include)
                 )
-- 
2.43.0


From 226dee3ffca1af6b137e2a7b29e0706431c4cf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:41 +0000
Subject: [PATCH 23/74] fix: honour sortOrder of a search request, ascending by
 default

---
 src/assets/schemas/search_request.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/assets/schemas/search_request.py b/src/assets/schemas/search_request.py
index 9b7c1c6..d86db84 100644
--- a/src/assets/schemas/search_request.py
+++ b/src/assets/schemas/search_request.py
@@ -138,8 +138,9 @@ class SearchRequest(BaseSchema):
         if issues.can_proceed((self.attrs.sortby.rep.attr,)):
             sort_by_ = data[self.attrs.sortby.rep]
             if sort_by_:
+                sort_order_ = data[self.attrs.sortorder.rep]
                 data[AttrRep(attr="sorter")] = Sorter(
-                    attr_rep=sort_by_, asc=data[self.attrs.sortby.rep] == "ascending"
+                    attr_rep=sort_by_, asc=str(sort_order_).lower() != "descending"
                 )
 
         return data, issues
-- 
2.43.0


From 8da5929acbf4b34305dda6b1dde90c78d6c51f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:46 +0000
Subject: [PATCH 24/74] fix: zero and false are values to sort by, an empty
 list is not

---
 src/sorter.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sorter.py b/src/sorter.py
index 01306f6..123f59b 100644
--- a/src/sorter.py
+++ b/src/sorter.py
@@ -8,6 +8,9 @@ from src.data.schemas import BaseSchema, ResourceSchema
 from src.error import ValidationError, ValidationIssues
 
 
+_NO_VALUE = [None, Missing, Invalid, "", []]
+
+
 class AlwaysLastKey:
     def __lt__(self, _):
         return False
@@ -69,7 +72,7 @@ class Sorter:
         data: List[SCIMDataContainer],
         schema: Union[ResourceSchema, Sequence[ResourceSchema]],
     ) -> List[SCIMDataContainer]:
-        if not any(item[self._attr_rep] for item in data):
+        if all(item[self._attr_rep] in _NO_VALUE for item in data):
             return data
 
         if not isinstance(schema, ResourceSchema) and len(set(schema)) == 1:
@@ -83,7 +86,7 @@ class Sorter:
         return sorted(data, key=key, reverse=not self._asc)
 
     def _get_key(self, value: Any, attr: Optional[Attribute]):
-        if not value or attr is None:
+        if value in _NO_VALUE or attr is None:
             return self._default_value
 
         if not isinstance(value, str):
@@ -106,7 +109,7 @@ class Sorter:
         value = None
         if attr is not None:
             item_value = item[self._attr_rep]
-            if item_value is not Missing and attr.multi_valued:
+            if item_value not in _NO_VALUE and attr.multi_valued:
                 if isinstance(attr, ComplexAttribute):
                     for v in item_value:
                         primary = v["primary"]
-- 
2.43.0


From 28d959919ab72a8cedc1beecde44093c7adcf114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:12 +0000
Subject: [PATCH 25/74] fix: report count and startIndex that are not numbers
 as issues

---
 src/request_validators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 9d0d316..1ef514f 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -562,7 +562,7 @@ def _parse_resources_get_request(
         )
     elif not isinstance(query_string, Dict):
         issues.add(
-            issue=ValidationError.bad_type(dict.__name__, type(query_string_location).__name__),
+            issue=ValidationError.bad_type(dict.__name__, type(query_string).__name__),
             proceed=False,
             location=query_string_location,
         )
@@ -596,7 +596,7 @@ def _parse_resources_get_request(
     if count is not None:
         try:
             query_string["count"] = int(count)
-        except ValueError:
+        except (ValueError, TypeError, OverflowError):
             issues.add(
                 issue=ValidationError.bad_type(get_scim_type(int), get_scim_type(type(count))),
                 location=("query_string", "count"),
@@ -607,7 +607,7 @@ def _parse_resources_get_request(
     if start_index is not None:
         try:
             query_string["startIndex"] = int(start_index)
-        except ValueError:
+        except (ValueError, TypeError, OverflowError):
             issues.add(
                 issue=ValidationError.bad_type(
                     get_scim_type(int), get_scim_type(type(start_index))
-- 
2.43.0


From 185274790dad2f25868d5ca30d07801dd041a882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:17 +0000
Subject: [PATCH 26/74] fix: report requested attribute names that are not
 strings as issues

---
 src/attributes_presence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/attributes_presence.py b/src/attributes_presence.py
index 16a8e16..6c1ceda 100644
--- a/src/attributes_presence.py
+++ b/src/attributes_presence.py
@@ -32,13 +32,13 @@ class AttributePresenceChecker:
         parsed_attr_reps = []
         all_parsed = True
         for attr_rep_ in attr_reps:
-            attr_rep = AttrRep.parse(attr_rep_)
+            attr_rep = AttrRep.parse(attr_rep_) if isinstance(attr_rep_, str) else Invalid
             if attr_rep:
                 attr_location = (
                     (attr_rep.attr, attr_rep.sub_attr) if attr_rep.sub_attr else (attr_rep.attr,)
                 )
             else:
-                attr_location = (attr_rep_,)
+                attr_location = (str(attr_rep_),)
             if attr_rep is Invalid:
                 issues.add(
                     issue=ValidationError.bad_attribute_name(attr_rep_),
-- 
2.43.0


From cae1f68ff6499ec70444c9e31028e55feed816d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:21 +0000
Subject: [PATCH 27/74] fix: do not crash on headers that are not a dictionary

---
 src/request_validators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 1ef514f..45d4f44 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -207,7 +207,7 @@ def _dump_resource_output_body(
             location=body_location,
         )
     meta_location = schema.attrs.meta__location.rep
-    location_header = headers.get("Location")
+    location_header = headers.get("Location") if isinstance(headers, Dict) else None
     if (
         issues.can_proceed(body_location + _location(meta_location), ("headers", "Location"))
         and location_header is not None
-- 
2.43.0


From e8f4c1e1b364e322068d9d98afaa09e5ba66b809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:26 +0000
Subject: [PATCH 28/74] fix: do not modify the caller's query string

---
 src/request_validators.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/request_validators.py b/src/request_validators.py
index 45d4f44..9a105a7 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -242,6 +242,7 @@ class ResourceObjectGET(Validator):
     ) -> Tuple[RequestData, ValidationIssues]:
         issues = ValidationIssues()
         if isinstance(query_string, Dict):
+            query_string = dict(query_string)
             checker, issues_ = parse_requested_attributes(query_string)
             issues.merge(issues=issues_, location=("query_string",))
             if not issues_.has_issues():
@@ -277,6 +278,7 @@ class ResourceObjectPUT(Validator):
     ) -> Tuple[RequestData, ValidationIssues]:
         issues = ValidationIssues()
         if isinstance(query_string, Dict):
+            query_string = dict(query_string)
             checker, issues_ = parse_requested_attributes(query_string)
             issues.merge(issues=issues_, location=("query_string",))
             if not issues_.has_issues():
@@ -323,6 +325,7 @@ class ResourcesPOST(Validator):
     ) -> Tuple[RequestData, ValidationIssues]:
         issues = ValidationIssues()
         if isinstance(query_string, Dict):
+            query_string = dict(query_string)
             checker, issues_ = parse_requested_attributes(query_string)
             issues.merge(issues=issues_, location=("query_string",))
             if not issues_.has_issues():
@@ -570,6 +573,7 @@ def _parse_resources_get_request(
     if issues.has_issues():
         return RequestData(headers=headers, query_string=query_string, body=body), issues
 
+    query_string = dict(query_string)
     filter_, issues_ = parse_request_filtering(query_string)
     query_string["filter"] = filter_
     issues.merge(
@@ -821,6 +825,7 @@ class ResourceObjectPATCH(Validator):
         issues = ValidationIssues()
 
         if isinstance(query_string, Dict):
+            query_string = dict(query_string)
             checker, issues_ = parse_requested_attributes(query_string)
             issues.merge(issues=issues_, location=("query_string",))
             if not issues_.has_issues():
-- 
2.43.0


From 19a48755ac34abb93cb4320adb4da4b4dfe74a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:52 +0000
Subject: [PATCH 29/74] fix: report requested attributes of a wrong type as
 issues

---
 src/request_validators.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 9a105a7..f19d99d 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -401,14 +401,21 @@ def parse_requested_attributes(
     query_string: Dict[str, Any],
 ) -> Tuple[Union[None, Invalid, AttributePresenceChecker], ValidationIssues]:
     issues = ValidationIssues()
-    to_include = query_string.get("attributes", [])
+    to_include = query_string.get("attributes") or []
     if to_include and isinstance(to_include, str):
         to_include = to_include.split(",")
-    to_exclude = query_string.get("excludeAttributes", [])
+    to_exclude = query_string.get("excludeAttributes") or []
     if to_exclude and isinstance(to_exclude, str):
         to_exclude = to_exclude.split(",")
 
-    if not (isinstance(to_include, List) and isinstance(to_exclude, List)):
+    for name, value in (("attributes", to_include), ("excludeAttributes", to_exclude)):
+        if not isinstance(value, List):
+            issues.add(
+                issue=ValidationError.bad_type(get_scim_type(list), get_scim_type(type(value))),
+                proceed=False,
+                location=(name,),
+            )
+    if issues.has_issues():
         return Invalid, issues
 
     if not (to_include or to_exclude):
-- 
2.43.0


From 2ca205fbafa3fe287e61795098c83eed5c167477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:57 +0000
Subject: [PATCH 30/74] fix: report malformed PATCH operations as issues
 instead of raising

---
 src/assets/schemas/patch_op.py | 14 +++++++++++---
 src/attributes_presence.py     |  2 ++
 src/request_validators.py      |  8 +++++++-
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index e8774d4..b293aa2 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -84,7 +84,9 @@ class PatchOp(BaseSchema):
 
     def parse(self, data: Any) -> Tuple[Union[Invalid, SCIMDataContainer], ValidationIssues]:
         data, issues = super().parse(data)
-        if not issues.can_proceed((self.attrs.operations.rep.attr,)):
+        if not issues.can_proceed((self.attrs.operations.rep.attr,)) or data[
+            self.attrs.operations.rep
+        ] in [None, Missing]:
             return data, issues
 
         parsed = []
@@ -93,7 +95,7 @@ class PatchOp(BaseSchema):
         values = data[self.attrs.operations__value.rep]
 
         for i, (op, path, value) in enumerate(zip(ops, paths, values)):
-            if issues.has_issues((operations.rep.attr, i)):
+            if issues.has_issues((operations.rep.attr, i)) or op in [None, Missing]:
                 parsed_op = SCIMDataContainer(
                     {
                         "op": op,
@@ -186,6 +188,8 @@ class PatchOp(BaseSchema):
             issues.pop(("schemas",), code=27)
             issues.pop(("schemas",), code=28)
             issues.pop(("schemas",), code=29)
+            if not issues.can_proceed():
+                return value, issues
             for attr in self._resource_schema.attrs:
                 if (
                     value[attr.rep] is not Missing
@@ -232,7 +236,11 @@ class PatchOp(BaseSchema):
         if issues_.has_issues():
             issues.merge(issues_)
 
-        elif isinstance(attr, ComplexAttribute) and not attr.multi_valued:
+        elif (
+            isinstance(attr, ComplexAttribute)
+            and not attr.multi_valued
+            and parsed_attr_value is not None
+        ):
             for sub_attr in attr.attrs:
                 if sub_attr.mutability != AttributeMutability.READ_ONLY:
                     # non-read-only attributes can be updated
diff --git a/src/attributes_presence.py b/src/attributes_presence.py
index 6c1ceda..59ef2d9 100644
--- a/src/attributes_presence.py
+++ b/src/attributes_presence.py
@@ -84,6 +84,8 @@ class AttributePresenceChecker:
                     )
                 else:
                     for i, item in enumerate(value):
+                        if item is Invalid:
+                            continue
                         item_value = item[AttrRep(attr=attr.rep.sub_attr)]
                         if item_value is Invalid:
                             continue
diff --git a/src/request_validators.py b/src/request_validators.py
index f19d99d..a814877 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -857,7 +857,11 @@ class ResourceObjectPATCH(Validator):
                 i,
                 self._schema.attrs.operations__value.rep.sub_attr,
             )
+            if path is Invalid:
+                continue
             if path in [None, Missing]:
+                if not isinstance(value, SCIMDataContainer):
+                    continue
                 for attr in self._resource_schema.attrs:
                     self._check_complex_sub_attrs_presence(
                         issues=issues,
@@ -886,7 +890,9 @@ class ResourceObjectPATCH(Validator):
         value: Any,
         value_location,
     ) -> None:
-        if not (isinstance(attr, ComplexAttribute) and attr.multi_valued) or value is Missing:
+        if not (isinstance(attr, ComplexAttribute) and attr.multi_valued) or not isinstance(
+            value, List
+        ):
             return
 
         # checking if new item of complex attribute has all required fields
-- 
2.43.0


From 18254fdc106be2aebec8da2858d615c882d78787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:02 +0000
Subject: [PATCH 31/74] fix: PATCH operation names are case-insensitive, 'Add'
 is not 'remove'

---
 src/assets/schemas/patch_op.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index b293aa2..683fecb 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -7,12 +7,18 @@ from src.data.path import PatchPath
 from src.data.schemas import BaseSchema, ResourceSchema
 from src.error import ValidationError, ValidationIssues
 
+
+def _normalize_op(value: str) -> Tuple[str, ValidationIssues]:
+    return value.lower(), ValidationIssues()
+
+
 _operations_op = Attribute(
     name="op",
     type_=at.String,
     canonical_values=["add", "remove", "replace"],
     validate_canonical_values=True,
     required=True,
+    parsers=[_normalize_op],
 )
 
 
-- 
2.43.0


From a8b66994b7e628b1ac5d8f02023ede4b47181227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:50 +0000
Subject: [PATCH 32/74] fix: locate the read-only sub-attribute of a PATCH
 operation value

---
 src/assets/schemas/patch_op.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index 683fecb..a522345 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -256,7 +256,7 @@ class PatchOp(BaseSchema):
                     issues.add(
                         issue=ValidationError.attribute_can_not_be_modified(),
                         proceed=False,
-                        location=(sub_attr.rep.sub_attr,),
+                        location=(sub_attr.rep.attr,),
                     )
         return parsed_attr_value, issues
 
-- 
2.43.0


From 87e76d45170ff381b17c8070799df168af39d666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:54 +0000
Subject: [PATCH 33/74] fix: sub-attributes of a read-only attribute can not be
 modified by PATCH

---
 src/assets/schemas/patch_op.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index a522345..95d8359 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -134,7 +134,8 @@ class PatchOp(BaseSchema):
         attr = self._resource_schema.attrs.get(path.attr_rep)
         path_location = (self.attrs.operations__path.rep.sub_attr,)
         if path.complex_filter_attr_rep is None:
-            if attr.mutability == AttributeMutability.READ_ONLY:
+            top_attr = self._resource_schema.attrs.get(AttrRep(attr.rep.schema, attr.rep.attr))
+            if AttributeMutability.READ_ONLY in (attr.mutability, top_attr.mutability):
                 issues.add(
                     issue=ValidationError.attribute_can_not_be_modified(),
                     proceed=True,
@@ -231,7 +232,8 @@ class PatchOp(BaseSchema):
         if attr is None:
             return Invalid, issues
 
-        if attr.mutability == AttributeMutability.READ_ONLY:
+        top_attr = self._resource_schema.attrs.get(AttrRep(attr.rep.schema, attr.rep.attr))
+        if AttributeMutability.READ_ONLY in (attr.mutability, top_attr.mutability):
             issues.add(
                 issue=ValidationError.attribute_can_not_be_modified(),
                 proceed=False,
-- 
2.43.0


From 26221b82ca40ecfba3789f2e88ffbc688e1302ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:59 +0000
Subject: [PATCH 34/74] fix: report PATCH paths that are logical expressions as
 issues

---
 src/data/path.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data/path.py b/src/data/path.py
index 74d22a1..f8afbf0 100644
--- a/src/data/path.py
+++ b/src/data/path.py
@@ -91,6 +91,9 @@ class PatchPath:
         filter_, issues = Filter.parse(cls._encode_string_values(filter_exp, string_values))
         if issues.has_issues():
             return Invalid, issues
+        if not isinstance(filter_.operator, ComplexAttributeOperator):
+            issues.add(issue=ValidationError.bad_operation_path(), proceed=False)
+            return Invalid, issues
 
         value_sub_attr_rep = None
         value_sub_attr_rep_exp = path[path.index("]") + 1 :]
-- 
2.43.0


From e5e0018e83c43394aaa634ad21742ac70a3bdcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:04 +0000
Subject: [PATCH 35/74] fix: a PATCH path needs a dot between the filter and
 the sub-attribute

---
 src/data/path.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/data/path.py b/src/data/path.py
index f8afbf0..f17e971 100644
--- a/src/data/path.py
+++ b/src/data/path.py
@@ -98,8 +98,10 @@ class PatchPath:
         value_sub_attr_rep = None
         value_sub_attr_rep_exp = path[path.index("]") + 1 :]
         if value_sub_attr_rep_exp:
-            if value_sub_attr_rep_exp.startswith("."):
-                value_sub_attr_rep_exp = value_sub_attr_rep_exp[1:]
+            if not value_sub_attr_rep_exp.startswith("."):
+                issues.add(issue=ValidationError.bad_operation_path(), proceed=False)
+                return Invalid, issues
+            value_sub_attr_rep_exp = value_sub_attr_rep_exp[1:]
             value_sub_attr_rep = cls._get_sub_attr_rep(
                 issues=issues,
                 attr_rep=filter_.operator.attr_rep,
-- 
2.43.0


From f563ad4a771afc98a43dd22e19fa98fd57f97392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:32 +0000
Subject: [PATCH 36/74] fix: PATCH does not complain about read-only
 sub-attributes that are not in the value

---
 src/assets/schemas/patch_op.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index 95d8359..ddcac6a 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -198,8 +198,11 @@ class PatchOp(BaseSchema):
             if not issues.can_proceed():
                 return value, issues
             for attr in self._resource_schema.attrs:
+                attr_value = value[attr.rep]
+                if attr.rep.sub_attr and isinstance(attr_value, List):
+                    attr_value = next((v for v in attr_value if v is not Missing), Missing)
                 if (
-                    value[attr.rep] is not Missing
+                    attr_value is not Missing
                     and attr.mutability == AttributeMutability.READ_ONLY
                 ):
                     location = (attr.rep.attr,)
-- 
2.43.0


From 2bd4a2c1b01898c1ed19b00c017ca5f75938e2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:36 +0000
Subject: [PATCH 37/74] fix: placeholders of filter strings, groups and complex
 attributes do not collide

---
 src/filter.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/filter.py b/src/filter.py
index 313482b..3073135 100644
--- a/src/filter.py
+++ b/src/filter.py
@@ -123,7 +123,12 @@ class Filter:
                     )
                 else:
                     sub_ops_exp = filter_exp_iter_copy[bracket_open_index + 1 : i]
-                    complex_attr_start = bracket_open_index - len(complex_attr_rep)
+                    complex_attr_start = (
+                        bracket_open_index
+                        - len(complex_attr_rep)
+                        + max(string_values, default=-1)
+                        + 1
+                    )
                     complex_attr_exp = f"{complex_attr_rep}[{sub_ops_exp}]"
                     if sub_ops_exp.strip() == "":
                         issues_.add(
@@ -183,7 +188,7 @@ class Filter:
                 issues.merge(issues=parsed.issues)
             return Invalid, issues
 
-        if bracket_open_index and bracket_open_index not in parsed_complex_ops:
+        if bracket_open_index is not None:
             issues.add(
                 issue=ValidationError.complex_attribute_bracket_not_opened_or_closed(),
                 proceed=False,
@@ -217,6 +222,7 @@ class Filter:
         bracket_open_index = None
         bracket_cnt = 0
         parsed_group_ops = {}
+        first_group_index = max([*string_values, *parsed_complex_ops], default=-1) + 1
         op_exp_preprocessed = op_exp
         for i, char in enumerate(op_exp):
             if char == '"':
@@ -228,6 +234,7 @@ class Filter:
                 if not bracket_open:
                     bracket_open = True
                     bracket_open_index = i
+                    group_index = first_group_index + i
                 bracket_cnt += 1
             elif char == ")":
                 if bracket_open:
@@ -241,18 +248,18 @@ class Filter:
                     string_values=string_values,
                     parsed_complex_ops=parsed_complex_ops,
                 )
-                parsed_group_ops[bracket_open_index] = _ParsedGroupOperator(
+                parsed_group_ops[group_index] = _ParsedGroupOperator(
                     operator=parsed_group_op,
                     issues=issues_,
                     expression=group_op_exp,
                 )
                 op_exp_preprocessed = op_exp_preprocessed.replace(
-                    group_op_exp, get_placeholder(bracket_open_index), 1
+                    group_op_exp, get_placeholder(group_index), 1
                 )
                 bracket_open = False
                 bracket_open_index = None
 
-        if bracket_open and bracket_open_index not in parsed_group_ops:
+        if bracket_open and group_index not in parsed_group_ops:
             issues.add(issue=ValidationError.bracket_not_opened_or_closed(), proceed=False)
 
         op_exp_preprocessed = op_exp_preprocessed.strip()
-- 
2.43.0


From 23c536eb030861426f2a2d00841907571deb8195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:01 +0000
Subject: [PATCH 38/74] fix: accept hyphens in the schema of a complex
 attribute filter

---
 src/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter.py b/src/filter.py
index 3073135..2e0ce9d 100644
--- a/src/filter.py
+++ b/src/filter.py
@@ -104,7 +104,7 @@ class Filter:
             if ignore_processing:
                 continue
 
-            if (re.match(r"\w", char) or char in ":.") and bracket_open_index is None:
+            if (re.match(r"\w", char) or char in ":.-") and bracket_open_index is None:
                 complex_attr_rep += char
             elif char == "[":
                 if bracket_open_index is not None:
-- 
2.43.0


From 5ab82044d2303540cf73233bb58126051b65c5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:04 +0000
Subject: [PATCH 39/74] fix: reject filters that contain the text of an
 internal placeholder

---
 src/filter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/filter.py b/src/filter.py
index 2e0ce9d..fd499cb 100644
--- a/src/filter.py
+++ b/src/filter.py
@@ -84,6 +84,9 @@ class Filter:
     @classmethod
     def parse(cls, filter_exp: str) -> Tuple[Union[Invalid, "Filter"], ValidationIssues]:
         issues = ValidationIssues()
+        if PLACEHOLDER_REGEX.search(STRING_VALUES_REGEX.sub("", filter_exp)):
+            issues.add(issue=ValidationError.unknown_expression(filter_exp), proceed=False)
+            return Invalid, issues
 
         string_values = {}
         for match in STRING_VALUES_REGEX.finditer(filter_exp):
-- 
2.43.0


From 03bec9f68f375448f1b0c7b0b7962c113b368ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:39 +0000
Subject: [PATCH 40/74] fix: report malformed bulk requests and responses as
 issues instead of raising

---
 src/request_validators.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index a814877..424514a 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -993,11 +993,13 @@ class BulkOperations(Validator):
         body_location = ("body",)
         body, issues_ = self._request_schema.parse(body)
         issues.merge(issues_, location=body_location)
+        if not issues.can_proceed(body_location):
+            return RequestData(headers=headers, query_string=query_string, body=None), issues
         issues.merge(
             issues=AttributePresenceChecker()(body, self._request_schema.attrs, "RESPONSE"),
             location=body_location,
         )
-        if not issues_.can_proceed(
+        if not issues.can_proceed(
             body_location + _location(self._request_schema.attrs.operations.rep)
         ):
             return RequestData(headers=headers, query_string=query_string, body=None), issues
@@ -1014,15 +1016,15 @@ class BulkOperations(Validator):
             if issues.can_proceed(
                 path_location,
                 data_item_location,
-                (method_rep.attr, i, method_rep.sub_attr),
+                body_location + (method_rep.attr, i, method_rep.sub_attr),
             ):
                 if method == "DELETE":
                     continue
 
                 if method == "POST":
-                    resource_name = path.split("/", 1)[1]
+                    resource_name = path.split("/", 1)[-1]
                 else:
-                    resource_name = path.split("/", 2)[1]
+                    resource_name = path.lstrip("/").split("/", 1)[0]
                 validator = self._validators[method].get(resource_name)
                 if validator is None:
                     issues.add(
@@ -1060,6 +1062,8 @@ class BulkOperations(Validator):
         body_location = ("body",)
         body, issues_ = self._response_schema.dump(body)
         issues.merge(issues_, location=body_location)
+        if not issues.can_proceed(body_location):
+            return ResponseData(headers=headers, body=None), issues
         issues.merge(
             issues=AttributePresenceChecker()(body, self._response_schema.attrs, "RESPONSE"),
             location=body_location,
-- 
2.43.0


From 2bac78bec76597c456977058e0722b17b71844fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:43 +0000
Subject: [PATCH 41/74] fix: bulk operation methods are case-sensitive

---
 src/assets/schemas/bulk_ops.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/assets/schemas/bulk_ops.py b/src/assets/schemas/bulk_ops.py
index 63670f9..25a8d37 100644
--- a/src/assets/schemas/bulk_ops.py
+++ b/src/assets/schemas/bulk_ops.py
@@ -80,6 +80,7 @@ _operation__method = Attribute(
     name="method",
     type_=type_.String,
     required=True,
+    case_exact=True,
     canonical_values=["GET", "POST", "PATCH", "PUT", "DELETE"],
     validate_canonical_values=True,
 )
-- 
2.43.0


From 5f8bdc561c0ba903bf7c3aedcda757123e847ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:48 +0000
Subject: [PATCH 42/74] fix: bulk requests without a configured limit of
 operations

---
 src/request_validators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 424514a..781d42d 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -1039,7 +1039,11 @@ class BulkOperations(Validator):
                     data_rep.sub_attr
                 ] = resource_data.body
 
-        if len(body[self._request_schema.attrs.operations.rep]) > self.config.bulk.max_operations:
+        max_operations = self.config.bulk.max_operations
+        if (
+            max_operations is not None
+            and len(body[self._request_schema.attrs.operations.rep]) > max_operations
+        ):
             issues.add(
                 issue=ValidationError.too_many_operations(self.config.bulk.max_operations),
                 proceed=True,
-- 
2.43.0


From af3d686072f40affeecac91f0d186527db0a5530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:52 +0000
Subject: [PATCH 43/74] fix: do not crash on a bulk DELETE operation that
 returns a body

---
 src/request_validators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 781d42d..35d2750 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -1139,7 +1139,7 @@ class BulkOperations(Validator):
                 body[self._request_schema.attrs.operations.rep][i][
                     response_rep.sub_attr
                 ] = error_response.body
-            elif all([location, method, resource_validator]):
+            elif method != "DELETE" and all([location, method, resource_validator]):
                 resource_data, issues_ = resource_validator.dump_response(
                     body=response,
                     status_code=status,
-- 
2.43.0


From 7283f3b284410efbfeab1806ebfc0d5e6d66e056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:57 +0000
Subject: [PATCH 44/74] fix: do not crash on list response resources whose
 schemas are not strings

---
 src/assets/schemas/list_response.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/assets/schemas/list_response.py b/src/assets/schemas/list_response.py
index 8f2db2e..1ab634f 100644
--- a/src/assets/schemas/list_response.py
+++ b/src/assets/schemas/list_response.py
@@ -104,10 +104,12 @@ class ListResponse(BaseSchema):
             return None
 
         schemas_value = data[self.attrs.schemas.rep]
-        if isinstance(schemas_value, List) and len(schemas_value) > 0:
-            schemas_value = {
-                item.lower() if isinstance(item, str) else item for item in schemas_value
-            }
+        if (
+            isinstance(schemas_value, List)
+            and len(schemas_value) > 0
+            and all(isinstance(item, str) for item in schemas_value)
+        ):
+            schemas_value = {item.lower() for item in schemas_value}
             for schema in self._schemas:
                 if not schemas_value.difference({s.lower() for s in schema.schemas}):
                     return schema
-- 
2.43.0


From 11fea2902429135ad7bbc5ca28847f914561a346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:02 +0000
Subject: [PATCH 45/74] fix: an error response status is at least 300

---
 src/request_validators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 35d2750..a3aa2d1 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -101,7 +101,7 @@ def validate_error_status_code_consistency(
 
 def validate_error_status_code(status_code: int) -> ValidationIssues:
     issues = ValidationIssues()
-    if not 200 <= status_code < 600:
+    if not 300 <= status_code < 600:
         issues.add(
             issue=ValidationError.bad_error_status(status_code),
             location=("status",),
-- 
2.43.0


From 7bf22172559423874d1ca8f634f485906dbb75b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:07 +0000
Subject: [PATCH 46/74] fix: do not crash on a string attribute representation
 without caseExact

---
 src/assets/schemas/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assets/schemas/schema.py b/src/assets/schemas/schema.py
index 31334bb..13469af 100644
--- a/src/assets/schemas/schema.py
+++ b/src/assets/schemas/schema.py
@@ -163,7 +163,7 @@ def dump_attributes(
             if item[_attributes__case_exact.rep] in [None, Missing]:
                 issues.add(
                     issue=ValidationError.missing(),
-                    location=(i, _attributes__case_exact.rep),
+                    location=(i, _attributes__case_exact.rep.attr),
                     proceed=False,
                 )
         else:
-- 
2.43.0


From 939940dc06686342598914bafc3e8aa6b9e736b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:11 +0000
Subject: [PATCH 47/74] fix: schema representations can have decimal attributes

---
 src/assets/schemas/schema.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/assets/schemas/schema.py b/src/assets/schemas/schema.py
index 13469af..e1b9f51 100644
--- a/src/assets/schemas/schema.py
+++ b/src/assets/schemas/schema.py
@@ -46,7 +46,16 @@ _attributes__name = Attribute(
 _attributes__type = Attribute(
     name="type",
     type_=type_.String,
-    canonical_values=["string", "integer", "boolean", "reference", "dateTime", "binary", "complex"],
+    canonical_values=[
+        "string",
+        "integer",
+        "decimal",
+        "boolean",
+        "reference",
+        "dateTime",
+        "binary",
+        "complex",
+    ],
     validate_canonical_values=True,
     required=True,
     mutability=AttributeMutability.READ_ONLY,
-- 
2.43.0


From 7959e0ae7e5bafb43bcaba4e8ed956452163d45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:16 +0000
Subject: [PATCH 48/74] fix: authentication schemes have a documentationUri

---
 src/assets/schemas/service_provider_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assets/schemas/service_provider_config.py b/src/assets/schemas/service_provider_config.py
index 3b8880e..c95cefc 100644
--- a/src/assets/schemas/service_provider_config.py
+++ b/src/assets/schemas/service_provider_config.py
@@ -118,7 +118,7 @@ _authentication_schemes_spec_uri = Attribute(
 )
 
 _authentication_schemes_documentation_uri = Attribute(
-    name="specUri",
+    name="documentationUri",
     type_=type_.ExternalReference,
     mutability=AttributeMutability.READ_ONLY,
 )
-- 
2.43.0


From de25ae24fe7fdf660b5ee69dc8fbfb0ada46a340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:33 +0000
Subject: [PATCH 49/74] fix: a bulk GET operation has no data

---
 src/request_validators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/request_validators.py b/src/request_validators.py
index a3aa2d1..de2bc1a 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -1033,6 +1033,8 @@ class BulkOperations(Validator):
                         location=path_location,
                     )
                     continue
+                if method == "GET":
+                    continue
                 resource_data, issues_ = validator.parse_request(body=data_item)
                 issues.merge(issues_.get(("body",)), location=data_item_location)
                 body[self._request_schema.attrs.operations.rep][i][
-- 
2.43.0


From ad35af35973220e9a553950a59081f83695c27c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:37 +0000
Subject: [PATCH 50/74] fix: locate presence issues of extension attributes
 under the extension

---
 src/attributes_presence.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/attributes_presence.py b/src/attributes_presence.py
index 59ef2d9..13285e4 100644
--- a/src/attributes_presence.py
+++ b/src/attributes_presence.py
@@ -66,6 +66,7 @@ class AttributePresenceChecker:
         for attr in attrs:
             top_attr_rep = AttrRep(schema=attr.rep.schema, attr=attr.rep.attr)
             top_attr = attrs.get(top_attr_rep)
+            extension_location = (attr.rep.schema,) if attr.rep.extension else ()
 
             if attr.rep.sub_attr and top_attr.multi_valued:
                 value = data[top_attr_rep]
@@ -80,7 +81,7 @@ class AttributePresenceChecker:
                             attr=attr,
                             attr_rep=attr.rep,
                         ),
-                        location=(attr.rep.attr, attr.rep.sub_attr),
+                        location=extension_location + (attr.rep.attr, attr.rep.sub_attr),
                     )
                 else:
                     for i, item in enumerate(value):
@@ -97,7 +98,7 @@ class AttributePresenceChecker:
                                 attr=attr,
                                 attr_rep=attr.rep,
                             ),
-                            location=(attr.rep.attr, i, attr.rep.sub_attr),
+                            location=extension_location + (attr.rep.attr, i, attr.rep.sub_attr),
                         )
             else:
                 value = data[attr.rep]
@@ -114,7 +115,7 @@ class AttributePresenceChecker:
                         attr=attr,
                         attr_rep=attr.rep,
                     ),
-                    location=attr_location,
+                    location=extension_location + attr_location,
                 )
 
         return issues
-- 
2.43.0


From 4884200a079f14ce2123475d6436294c0911b12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:07 +0000
Subject: [PATCH 51/74] fix: check presence of multi-valued extension
 attributes in the extension only

---
 src/attributes_presence.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/attributes_presence.py b/src/attributes_presence.py
index 13285e4..e1d1e38 100644
--- a/src/attributes_presence.py
+++ b/src/attributes_presence.py
@@ -64,7 +64,9 @@ class AttributePresenceChecker:
         issues = ValidationIssues()
 
         for attr in attrs:
-            top_attr_rep = AttrRep(schema=attr.rep.schema, attr=attr.rep.attr)
+            top_attr_rep = AttrRep(
+                schema=attr.rep.schema, attr=attr.rep.attr, extension=attr.rep.extension
+            )
             top_attr = attrs.get(top_attr_rep)
             extension_location = (attr.rep.schema,) if attr.rep.extension else ()
 
-- 
2.43.0


From 61a4fbfcf4fb708c387b8ef19fbbe6bd6cb8e8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:30 +0000
Subject: [PATCH 52/74] fix: do not crash on PATCH values whose items are not
 complex

---
 src/request_validators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/request_validators.py b/src/request_validators.py
index de2bc1a..5febb74 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -902,6 +902,8 @@ class ResourceObjectPATCH(Validator):
                 ignore_required.append(sub_attr.rep)
         presence_checker = AttributePresenceChecker(ignore_required=ignore_required)
         for j, item in enumerate(value):
+            if not isinstance(item, SCIMDataContainer):
+                continue
             item_location = value_location + (j,)
             if not issues.has_issues(item_location):
                 issues.merge(
-- 
2.43.0


From 1e602c1751e538baaaae6869b217a068fc55a177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:05 +0000
Subject: [PATCH 53/74] fix: 'sw' and 'ew' do not match values that are not
 texts, instead of raising

---
 src/data/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index aa89051..adccc6c 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -324,7 +324,7 @@ class BinaryAttributeOperator(AttributeOperator, abc.ABC):
             try:
                 if self.OPERATOR(attr_value, op_value):
                     return MatchResult.passed()
-            except TypeError:  # values of types that can not be compared do not match
+            except (TypeError, AttributeError):  # values of types that can not be compared do not match
                 continue
         return MatchResult.failed()
 
-- 
2.43.0


From bf6acc97170a39c04e5e3e85f6b6083382ca4f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:41 +0000
Subject: [PATCH 54/74] fix: report a missing path of 'remove' also when
 another operation is malformed

---
 src/assets/schemas/patch_op.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index ddcac6a..c13b2f2 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -125,8 +125,17 @@ class PatchOp(BaseSchema):
         return data, issues
 
     def _parse_remove_operation(
-        self, path: PatchPath
+        self, path: Union[PatchPath, None, Missing]
     ) -> Tuple[Union[Invalid, SCIMDataContainer], ValidationIssues]:
+        if path in [None, Missing]:
+            issues = ValidationIssues()
+            issues.add(
+                issue=ValidationError.missing(),
+                proceed=False,
+                location=(self.attrs.operations__path.rep.sub_attr,),
+            )
+            return Invalid, issues
+
         issues = validate_operation_path(self._resource_schema, path)
         if issues.has_issues():
             return Invalid, issues
-- 
2.43.0


From a19feaf8dbf8deb6e828c40f5a27932f555df6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:05 +0000
Subject: [PATCH 55/74] fix: a required attribute that the client excluded is
 not missing in the response

---
 src/attributes_presence.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/attributes_presence.py b/src/attributes_presence.py
index e1d1e38..252b8f7 100644
--- a/src/attributes_presence.py
+++ b/src/attributes_presence.py
@@ -157,7 +157,8 @@ class AttributePresenceChecker:
                 attr.required
                 and attr_rep not in self._ignore_required
                 and (
-                    self._include is not True
+                    self._include is None
+                    or (self._include is False and not self._attr_or_top_attr_in_attr_reps(attr_rep))
                     or (attr_rep in self._attr_reps and self._include is True)
                     or (direction == "RESPONSE" and attr.returned == AttributeReturn.ALWAYS)
                 )
@@ -168,6 +169,14 @@ class AttributePresenceChecker:
                 )
         return issues
 
+    def _attr_or_top_attr_in_attr_reps(self, attr_rep: AttrRep) -> bool:
+        for attr_rep_ in self._attr_reps:
+            if attr_rep == attr_rep_ or (
+                not attr_rep_.sub_attr and attr_rep.top_level_equals(attr_rep_)
+            ):
+                return True
+        return False
+
     def _sub_attr_or_top_attr_in_attr_reps(self, attr_rep: AttrRep) -> bool:
         for attr_rep_ in self._attr_reps:
             if (
-- 
2.43.0


From 6dc779595e41943868fc458314a2eb75d43a3c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:53 +0000
Subject: [PATCH 56/74] fix: report unknown resources of bulk DELETE operations

---
 src/request_validators.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 5febb74..c42be62 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -1020,9 +1020,6 @@ class BulkOperations(Validator):
                 data_item_location,
                 body_location + (method_rep.attr, i, method_rep.sub_attr),
             ):
-                if method == "DELETE":
-                    continue
-
                 if method == "POST":
                     resource_name = path.split("/", 1)[-1]
                 else:
@@ -1035,7 +1032,7 @@ class BulkOperations(Validator):
                         location=path_location,
                     )
                     continue
-                if method == "GET":
+                if method in ["GET", "DELETE"]:
                     continue
                 resource_data, issues_ = validator.parse_request(body=data_item)
                 issues.merge(issues_.get(("body",)), location=data_item_location)
-- 
2.43.0


From 102bf6a03463da0da881b44dd1302fb9f2c2eb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:57 +0000
Subject: [PATCH 57/74] fix: report a wrong status of a bulk operation instead
 of dropping its response

---
 src/request_validators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/request_validators.py b/src/request_validators.py
index c42be62..df41cd4 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -1149,6 +1149,7 @@ class BulkOperations(Validator):
                 meta_location_missmatch = issues_.pop(("body", "meta", "location"), code=11)
                 header_location_mismatch = issues_.pop(("headers", "Location"), code=11)
                 issues.merge(issues_.get(("body",)), location=response_location)
+                issues.merge(issues_.get(("status",)), location=status_location)
                 if meta_location_missmatch.has_issues() and header_location_mismatch.has_issues():
                     issues.add(
                         issue=ValidationError.must_be_equal_to("operation's location"),
-- 
2.43.0


From 20674802f4e198e0ab5261f34dd8ce19fe0a1554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:45 +0000
Subject: [PATCH 58/74] fix: refuse read-only sub-attributes in items of a
 multi-valued attribute patched by path

---
 src/assets/schemas/patch_op.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index c13b2f2..cddc458 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -256,17 +256,13 @@ class PatchOp(BaseSchema):
         if issues_.has_issues():
             issues.merge(issues_)
 
-        elif (
-            isinstance(attr, ComplexAttribute)
-            and not attr.multi_valued
-            and parsed_attr_value is not None
-        ):
+        elif isinstance(attr, ComplexAttribute) and parsed_attr_value is not None:
+            items = parsed_attr_value if attr.multi_valued else [parsed_attr_value]
             for sub_attr in attr.attrs:
                 if sub_attr.mutability != AttributeMutability.READ_ONLY:
                     # non-read-only attributes can be updated
                     continue
-                v = parsed_attr_value[sub_attr.rep]
-                if v is not Missing:
+                if any(item[sub_attr.rep] is not Missing for item in items):
                     issues.add(
                         issue=ValidationError.attribute_can_not_be_modified(),
                         proceed=False,
-- 
2.43.0


From 68c766029d96d35ccea05f5851fdf2097c2e0901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:17 +0000
Subject: [PATCH 59/74] fix: locate issues of new items of an extension
 attribute under the extension

---
 src/request_validators.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index df41cd4..f8dac39 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -1224,7 +1224,10 @@ class ResourceTypesGET(_ServiceProviderConfig):
         super().__init__(config, resource_schema=ResourceType())
 
 
-def _location(attr_rep: AttrRep) -> Union[Tuple[str], Tuple[str, str]]:
+def _location(attr_rep: AttrRep) -> Tuple[str, ...]:
+    location = (attr_rep.attr,)
     if attr_rep.sub_attr:
-        return attr_rep.attr, attr_rep.sub_attr
-    return (attr_rep.attr,)
+        location = location + (attr_rep.sub_attr,)
+    if attr_rep.extension:
+        location = (attr_rep.schema,) + location
+    return location
-- 
2.43.0


From 0143d1d126b9d87ba7b0ba9dabc0181863dc16e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:30 +0000
Subject: [PATCH 60/74] fix: read sortOrder of a query in any letter case,
 ascending by default

---
 src/request_validators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index f8dac39..702371e 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -381,7 +381,7 @@ def parse_request_sorting(query_string: Dict) -> Tuple[Union[Invalid, Sorter], V
     if sort_order not in ["ascending", "descending"]:
         pass  # TODO add warning here
 
-    return Sorter.parse(by=sort_by, asc=sort_order == "ascending")
+    return Sorter.parse(by=sort_by, asc=str(sort_order).lower() != "descending")
 
 
 def parse_request_filtering(query_string: Dict) -> Tuple[Union[Invalid, Filter], ValidationIssues]:
-- 
2.43.0


From 911db2bade9fec3d6c1c661490f422edd2c1af87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:22 +0000
Subject: [PATCH 61/74] fix: leave extension attributes out of the
 representation of the core schema

---
 src/data/schemas.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data/schemas.py b/src/data/schemas.py
index 473a1ab..7b3f3f9 100644
--- a/src/data/schemas.py
+++ b/src/data/schemas.py
@@ -427,7 +427,9 @@ def get_schema_rep(schema: ResourceSchema) -> Dict[str, Any]:
         "schemas": ["urn:ietf:params:scim:schemas:core:2.0:Schema"],
         "name": schema.name,
         "description": schema.description,
-        "attributes": [attr.to_dict() for attr in schema.attrs.top_level],
+        "attributes": [
+            attr.to_dict() for attr in schema.attrs.top_level if not attr.rep.extension
+        ],
         "meta": {
             "resourceType": "Schema",
         },
-- 
2.43.0


From 38514ea6a1869773c55cbbe9d8f2e058c486466e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:46 +0000
Subject: [PATCH 62/74] fix: sort by date-times as instants and by references
 as texts

---
 src/sorter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sorter.py b/src/sorter.py
index 123f59b..0aaa74b 100644
--- a/src/sorter.py
+++ b/src/sorter.py
@@ -92,7 +92,10 @@ class Sorter:
         if not isinstance(value, str):
             return value
 
-        if attr.type is not at.String:
+        if attr.type is at.DateTime:
+            return at.DateTime.parse(value)[0] or self._default_value
+
+        if not issubclass(attr.type, at.String):
             return self._default_value
 
         return StringKey(value, attr)
-- 
2.43.0


From 00327f9c3ad1a0dd7075bfc3412b7c6a8f5dd0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:39 +0000
Subject: [PATCH 63/74] fix: sort by a sub-attribute of a multi-valued
 attribute as that of its primary or first item

---
 src/sorter.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/sorter.py b/src/sorter.py
index 0aaa74b..231613a 100644
--- a/src/sorter.py
+++ b/src/sorter.py
@@ -112,6 +112,9 @@ class Sorter:
         value = None
         if attr is not None:
             item_value = item[self._attr_rep]
+            top_attr = schema.attrs.get(AttrRep(attr.rep.schema, attr.rep.attr))
+            if attr is not top_attr and top_attr.multi_valued and isinstance(item_value, List):
+                item_value = item_value[self._get_leading_item_index(item)] if item_value else None
             if item_value not in _NO_VALUE and attr.multi_valued:
                 if isinstance(attr, ComplexAttribute):
                     for v in item_value:
@@ -130,3 +133,11 @@ class Sorter:
             else:
                 value = item_value
         return self._get_key(value, attr)
+
+    def _get_leading_item_index(self, item: SCIMDataContainer) -> int:
+        """Index of the primary item of multi-valued complex attribute, or of the first one."""
+        rep = self._attr_rep
+        primary = item[AttrRep(rep.schema, rep.attr, "primary", extension=rep.extension)]
+        if isinstance(primary, List) and True in primary:
+            return primary.index(True)
+        return 0
-- 
2.43.0


From f949548852ce07038ab660467958e790ec5269e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:01 +0000
Subject: [PATCH 64/74] fix: compare multi-valued date-times by any of their
 values

---
 src/data/operator.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index adccc6c..4212c00 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -279,12 +279,7 @@ class BinaryAttributeOperator(AttributeOperator, abc.ABC):
             value = [SCIMDataContainer(item)["value"] for item in value]
 
         if attr.type.SCIM_NAME == "dateTime":
-            try:
-                if not isinstance(value, datetime):
-                    value = datetime.fromisoformat(value)
-                return [(value, datetime.fromisoformat(self.value))]
-            except (TypeError, ValueError):
-                return None
+            return self._get_instants_for_comparison(value)
 
         if isinstance(self.value, str):
             if not attr.case_exact:
@@ -298,6 +293,22 @@ class BinaryAttributeOperator(AttributeOperator, abc.ABC):
 
         return [(item, self.value) for item in value]
 
+    def _get_instants_for_comparison(self, value: Any) -> Optional[List[Tuple[Any, Any]]]:
+        try:
+            op_value = datetime.fromisoformat(self.value)
+        except (TypeError, ValueError):
+            return None
+
+        instants = []
+        for item in value if isinstance(value, List) else [value]:
+            try:
+                if not isinstance(item, datetime):
+                    item = datetime.fromisoformat(item)
+            except (TypeError, ValueError):
+                continue
+            instants.append((item, op_value))
+        return instants
+
     def match(
         self,
         value: Any,
-- 
2.43.0


From 434b9723e7cdbd842353276a460b2c545542e385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:03 +0000
Subject: [PATCH 65/74] fix: compare a complex attribute by the type and
 letter-case rule of its value

---
 src/data/operator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data/operator.py b/src/data/operator.py
index 4212c00..e5b2c46 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -277,6 +277,9 @@ class BinaryAttributeOperator(AttributeOperator, abc.ABC):
                 return None
 
             value = [SCIMDataContainer(item)["value"] for item in value]
+            attr = value_sub_attr
+            if attr.type.SCIM_NAME not in self.SUPPORTED_SCIM_TYPES:
+                return None
 
         if attr.type.SCIM_NAME == "dateTime":
             return self._get_instants_for_comparison(value)
-- 
2.43.0


From c0408f7e048b77967ad82f958ad7668530f92af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:05 +0000
Subject: [PATCH 66/74] fix: values of incompatible types do not match,
 booleans are no numbers

---
 src/data/operator.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/data/operator.py b/src/data/operator.py
index e5b2c46..455946f 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -241,6 +241,14 @@ class Present(AttributeOperator):
 T2 = TypeVar("T2")
 
 
+def _are_comparable(attr_value: Any, op_value: Any) -> bool:
+    if attr_value is None or op_value is None:
+        return True
+    return all(
+        isinstance(attr_value, type_) == isinstance(op_value, type_) for type_ in (bool, str)
+    )
+
+
 class BinaryAttributeOperator(AttributeOperator, abc.ABC):
     SUPPORTED_SCIM_TYPES: Set[str]
     SUPPORTED_TYPES: Set[Type]
@@ -335,6 +343,8 @@ class BinaryAttributeOperator(AttributeOperator, abc.ABC):
             return MatchResult.failed()
 
         for attr_value, op_value in values:
+            if not _are_comparable(attr_value, op_value):
+                continue
             try:
                 if self.OPERATOR(attr_value, op_value):
                     return MatchResult.passed()
-- 
2.43.0


From 237a3cb4444ae07ece0dde16e7a04aa62a6458bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:08 +0000
Subject: [PATCH 67/74] fix: zero and false are values present in a
 multi-valued attribute

---
 src/data/operator.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index 455946f..4ed8829 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -226,17 +226,19 @@ class Present(AttributeOperator):
 
         if isinstance(attr, ComplexAttribute):
             if isinstance(value, List):
-                match = any([SCIMDataContainer(item)["value"] for item in value])
+                match = any([self._has_value(SCIMDataContainer(item)["value"]) for item in value])
             else:
                 match = False
         elif isinstance(value, List):
-            match = any([bool(item) for item in value])
-        elif isinstance(value, str):
-            match = bool(value)
+            match = any([self._has_value(item) for item in value])
         else:
-            match = value not in [None, Missing, Invalid]
+            match = self._has_value(value)
         return MatchResult.passed() if match else MatchResult.failed()
 
+    @staticmethod
+    def _has_value(value: Any) -> bool:
+        return value not in [None, Missing, Invalid, "", []]
+
 
 T2 = TypeVar("T2")
 
-- 
2.43.0


From 68e5c08f1456023fc73f30155313c6af91703c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:53 +0000
Subject: [PATCH 68/74] fix: items without a value do not match a comparison

---
 src/data/operator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index 4ed8829..65cb1a9 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -244,7 +244,9 @@ T2 = TypeVar("T2")
 
 
 def _are_comparable(attr_value: Any, op_value: Any) -> bool:
-    if attr_value is None or op_value is None:
+    if attr_value in [None, Missing, Invalid]:
+        return False
+    if op_value is None:
         return True
     return all(
         isinstance(attr_value, type_) == isinstance(op_value, type_) for type_ in (bool, str)
-- 
2.43.0


From 7b4b3115ff08f7686abf55498747ba7cdc033c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:04 +0000
Subject: [PATCH 69/74] fix: recognise and, or and not in any letter case

---
 src/filter.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/filter.py b/src/filter.py
index fd499cb..583e81e 100644
--- a/src/filter.py
+++ b/src/filter.py
@@ -17,9 +17,13 @@ from src.utils import (
 if TYPE_CHECKING:
     from src.data.schemas import BaseSchema
 
-OR_LOGICAL_OPERATOR_SPLIT_REGEX = re.compile(r"\s*\bor\b\s*", flags=re.DOTALL)
-AND_LOGICAL_OPERATOR_SPLIT_REGEX = re.compile(r"\s*\band\b\s*", flags=re.DOTALL)
-NOT_LOGICAL_OPERATOR_REGEX = re.compile(r"\s*\bnot\b\s*(.*)", flags=re.DOTALL)
+OR_LOGICAL_OPERATOR_SPLIT_REGEX = re.compile(r"\s*\bor\b\s*", flags=re.DOTALL | re.IGNORECASE)
+AND_LOGICAL_OPERATOR_SPLIT_REGEX = re.compile(
+    r"\s*\band\b\s*", flags=re.DOTALL | re.IGNORECASE
+)
+NOT_LOGICAL_OPERATOR_REGEX = re.compile(
+    r"\s*\bnot\b\s*(.*)", flags=re.DOTALL | re.IGNORECASE
+)
 
 _UNARY_ATTR_OPERATORS = {
     "pr": op.Present,
-- 
2.43.0


From 98ddd59e5cd2e3a2794f79974b5a368a8f0a8c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:32 +0000
Subject: [PATCH 70/74] fix: schema URNs in filters may contain and, or and not

---
 src/filter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/filter.py b/src/filter.py
index 583e81e..3d07af4 100644
--- a/src/filter.py
+++ b/src/filter.py
@@ -17,12 +17,14 @@ from src.utils import (
 if TYPE_CHECKING:
     from src.data.schemas import BaseSchema
 
-OR_LOGICAL_OPERATOR_SPLIT_REGEX = re.compile(r"\s*\bor\b\s*", flags=re.DOTALL | re.IGNORECASE)
+OR_LOGICAL_OPERATOR_SPLIT_REGEX = re.compile(
+    r"\s*(?<![\w.:$-])or(?![\w.:$-])\s*", flags=re.DOTALL | re.IGNORECASE
+)
 AND_LOGICAL_OPERATOR_SPLIT_REGEX = re.compile(
-    r"\s*\band\b\s*", flags=re.DOTALL | re.IGNORECASE
+    r"\s*(?<![\w.:$-])and(?![\w.:$-])\s*", flags=re.DOTALL | re.IGNORECASE
 )
 NOT_LOGICAL_OPERATOR_REGEX = re.compile(
-    r"\s*\bnot\b\s*(.*)", flags=re.DOTALL | re.IGNORECASE
+    r"\s*(?<![\w.:$-])not(?![\w.:$-])\s*(.*)", flags=re.DOTALL | re.IGNORECASE
 )
 
 _UNARY_ATTR_OPERATORS = {
-- 
2.43.0


From 7b7c96945d3e0db2c16096e33aa4bbd1505b32a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:03 +0000
Subject: [PATCH 71/74] fix: make containers of complex values assigned to a
 container

---
 src/data/container.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/data/container.py b/src/data/container.py
index a62227e..a4d09c8 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -125,15 +125,7 @@ class SCIMDataContainer:
 
                 self._data.pop(self._lower_case_to_original.get(key.lower()), None)
                 self._lower_case_to_original[key.lower()] = key
-                if isinstance(value, Dict):
-                    self._data[key] = SCIMDataContainer(value)
-                elif isinstance(value, List):
-                    self._data[key] = [
-                        SCIMDataContainer(item) if isinstance(item, Dict) else item
-                        for item in value
-                    ]
-                else:
-                    self._data[key] = value
+                self._data[key] = self._to_containers(value)
         elif isinstance(d, SCIMDataContainer):
             self._data = d._data
             self._lower_case_to_original = d._lower_case_to_original
@@ -176,7 +168,7 @@ class SCIMDataContainer:
                 self._data[initial_key][AttrRep(attr=attr_rep.sub_attr)] = value
         else:
             key = self._lower_case_to_original.setdefault(attr_rep.attr.lower(), attr_rep.attr)
-            self._data[key] = value
+            self._data[key] = self._to_containers(value)
 
     def __getitem__(self, attr_rep: Union["AttrRep", str]):
         if isinstance(attr_rep, str):
@@ -240,6 +232,16 @@ class SCIMDataContainer:
             return key
         return None
 
+    @staticmethod
+    def _to_containers(value: Any) -> Any:
+        if isinstance(value, Dict):
+            return SCIMDataContainer(value)
+        if isinstance(value, List):
+            return [
+                SCIMDataContainer(item) if isinstance(item, Dict) else item for item in value
+            ]
+        return value
+
     @staticmethod
     def _can_assign_to_complex(current_value, new_value) -> bool:
         if isinstance(current_value, SCIMDataContainer):
-- 
2.43.0


From d95fd2e2a0d9e821df95fb881b99cebf3d5b3778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:06 +0000
Subject: [PATCH 72/74] fix: assign a list to a sub-attribute of a
 single-valued complex attribute

---
 src/data/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/container.py b/src/data/container.py
index a4d09c8..1a4fae7 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -157,7 +157,7 @@ class SCIMDataContainer:
                     f"can not assign ({attr_rep.sub_attr}, {value}) to '{attr_rep.attr}'"
                 )
 
-            if isinstance(value, List):
+            if isinstance(self._data[initial_key], List):
                 to_create = len(value) - len(self._data[initial_key])
                 if to_create > 0:
                     self._data[initial_key].extend([SCIMDataContainer() for _ in range(to_create)])
-- 
2.43.0


From 41bb598a165eb302b38cef321bde346bc9c91495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:28 +0000
Subject: [PATCH 73/74] fix: report integers too large for a decimal attribute
 instead of raising

---
 src/data/type.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/data/type.py b/src/data/type.py
index 6c92b53..ad6b948 100644
--- a/src/data/type.py
+++ b/src/data/type.py
@@ -75,20 +75,30 @@ class Decimal(AttributeType):
     def parse(cls, value: t.Any) -> t.Tuple[t.Optional[float], ValidationIssues]:
         if isinstance(value, int):
             value, issues = Integer.parse(value)
-            if value is not Invalid:
-                value = float(value)
-            return value, issues
+            if value is Invalid:
+                return value, issues
+            return cls._to_float(value, issues)
         return super().parse(value)
 
     @classmethod
     def dump(cls, value: t.Any) -> t.Tuple[t.Optional[float], ValidationIssues]:
         if isinstance(value, int):
             value, issues = Integer.dump(value)
-            if value is not Invalid:
-                value = float(value)
-            return value, issues
+            if value is Invalid:
+                return value, issues
+            return cls._to_float(value, issues)
         return super().dump(value)
 
+    @staticmethod
+    def _to_float(
+        value: int, issues: ValidationIssues
+    ) -> t.Tuple[t.Union[float, "Invalid"], ValidationIssues]:
+        try:
+            return float(value), issues
+        except OverflowError:
+            issues.add(issue=ValidationError.bad_value_syntax(), proceed=False)
+            return Invalid, issues
+
 
 class Integer(AttributeType):
     SCIM_NAME = "integer"
-- 
2.43.0


From 8acb0419e2c9a41810a63fc28e02c65bfc685408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:50 +0000
Subject: [PATCH 74/74] fix: declaring a multi-valued complex attribute leaves
 the given processors alone

---
 src/data/attributes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/attributes.py b/src/data/attributes.py
index f983e57..b862810 100644
--- a/src/data/attributes.py
+++ b/src/data/attributes.py
@@ -319,7 +319,7 @@ class ComplexAttribute(Attribute):
         )
         self._sub_attributes = Attributes(sub_attributes)
 
-        complex_parsers, complex_dumpers = complex_parsers or [], complex_dumpers or []
+        complex_parsers, complex_dumpers = list(complex_parsers or []), list(complex_dumpers or [])
         if multi_valued:
             if validate_single_primary_value not in complex_parsers:
                 complex_parsers.append(validate_single_primary_value)
-- 
2.43.0

