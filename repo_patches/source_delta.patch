From dcc86e5276d209322a5701f5e3f419f84c2c9e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:04 +0000
Subject: [PATCH 01/24] fix: treat keyword-like unquoted values independently
 of case and block position

A root GRID raised an IndexError, SYMBOL <word> and NAME GRID depended on the
letter case of the keyword, and SYMBOL BACKGROUNDCOLOR, STYLE NORMAL and
IMAGEMODE FEATURE as the first item of a nested block were misparsed.
---
 mappyfile/parser.py | 44 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index ef2f081..a8dced2 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -64,6 +64,8 @@ SYMBOL_ATTRIBUTES = {
     "CHARACTER",
     "POINTS",
     "TRANSPARENT",
+    "BACKGROUNDCOLOR",
+    "INCLUDE",
 }
 
 
@@ -203,6 +205,35 @@ class Parser:
         text = self.open_file(fn)
         return self.parse(text, fn=fn)
 
+    def _is_unquoted_value(self, token: Any, value_stack: list[Any]) -> bool:
+        """
+        Check if a token can only be the unquoted value of the keyword on the
+        top of the parser stack, rather than the start of a new attribute or block
+        """
+        previous = value_stack[-1] if value_stack else None
+        previous_type = getattr(previous, "type", None)
+
+        if token.type == "UNQUOTED_STRING":
+            value = token.value.upper()
+            # Unquoted strings after SYMBOL can only be values, not attributes
+            if previous_type == "SYMBOL":
+                return value not in SYMBOL_ATTRIBUTES
+            # NORMAL is a value of the QUERYMAP STYLE, and not a keyword in a STYLE block
+            return previous_type == "STYLE" and value == "NORMAL"
+
+        if previous_type == "UNQUOTED_STRING":
+            # check the previous token is a keyword rather than the value of a keyword
+            if len(value_stack) > 1 and (
+                getattr(value_stack[-2], "type", None) == "UNQUOTED_STRING"
+            ):
+                return False
+            # Unquoted 'GRID' coming after NAME is always a value, not a composite type
+            # Likewise for 'FEATURE' coming after IMAGEMODE
+            keyword = previous.value.upper()
+            return (keyword, token.type) in (("NAME", "GRID"), ("IMAGEMODE", "FEATURE"))
+
+        return False
+
     def parse(self, text: str, fn: str | None = None) -> Any:
         """
         Parse the Mapfile
@@ -215,17 +246,8 @@ class Parser:
             self._comments[:] = []  # clear any comments from a previous parse
             ip = self.lalr.parse_interactive(text)
             for t in ip.iter_parse():
-                if t.type == "UNQUOTED_STRING":
-                    # Unquoted strings after SYMBOL can only be values, not attributes
-                    if (
-                        ip.parser_state.value_stack[-1] == "SYMBOL"
-                        and t.value.upper() not in SYMBOL_ATTRIBUTES
-                    ):
-                        t.type = "UNQUOTED_STRING_VALUE"
-                elif t.type == "GRID":
-                    # Unquoted 'GRID' coming after NAME is always a value, not a composite type
-                    if ip.parser_state.value_stack[-1] == "NAME":
-                        t.type = "UNQUOTED_STRING_VALUE"
+                if self._is_unquoted_value(t, ip.parser_state.value_stack):
+                    t.type = "UNQUOTED_STRING_VALUE"
 
             tree = ip.resume_parse()
             if self.include_comments:
-- 
2.43.0


From 0288305ffb327884172f56fbf10a0847bc9533c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:41 +0000
Subject: [PATCH 02/24] fix: keep the structure and spelling of expressions

---
 mappyfile/mapfile.lark   | 18 +++++++---
 mappyfile/transformer.py | 75 ++++++++++++++++++++++++----------------
 2 files changed, 58 insertions(+), 35 deletions(-)

diff --git a/mappyfile/mapfile.lark b/mappyfile/mapfile.lark
index 6144ea4..6f6344d 100644
--- a/mappyfile/mapfile.lark
+++ b/mappyfile/mapfile.lark
@@ -77,7 +77,7 @@ float_pair: float float
 path: PATH
 regexp: REGEXP1 | REGEXP2
 runtime_var: RUNTIME_VAR
-list: "{" (value | UNQUOTED_STRING_SPACE) ("," (value | UNQUOTED_STRING_SPACE))* "}"
+list: "{" (operand | UNQUOTED_STRING_SPACE) ("," (operand | UNQUOTED_STRING_SPACE))* "}"
 
 num_pair: (int|float) (int|float)
 
@@ -88,7 +88,7 @@ expression: "(" or_test ")"
 ?or_test : (or_test ("OR"i|"||"))? and_test
 ?and_test : (and_test ("AND"i|"&&"))? comparison
 ?comparison: (comparison compare_op)? sum
-!compare_op: ">=" | "<" | "=*" | "==" | "=" | "!=" | "~" | "~*" | ">" | "%"
+!compare_op: ">=" | "<" | "=*" | "==" | "=" | "!=" | "~" | "~*" | ">"
 | "<=" | "IN"i | "NE"i | "EQ"i | "LE"i | "LT"i | "GE"i | "GT"i | "LIKE"i
 
 ?sum: product
@@ -99,16 +99,24 @@ expression: "(" or_test ")"
     | product "*" unary_expr -> mul
     | product "/" unary_expr -> div
     | product "^" unary_expr -> power
+    | product "%" unary_expr -> mod
 
 ?unary_expr: atom
     | "-" unary_expr -> neg
     | "+" unary_expr
 
-?atom: (func_call | value)
-// ?multiply: (multiply "*")? (func_call | value)
+?atom: (func_call | operand)
+// ?multiply: (multiply "*")? (func_call | operand)
 
 func_call: UNQUOTED_STRING "(" func_params ")"
-func_params: value ("," value)*
+func_params: operand ("," operand)*
+
+// a single value in an expression, numbers and strings are kept as they were written
+?operand: string | literal | expression | not_expression | attr_bind | path
+| regexp | runtime_var | list | NULL | _attr_keyword
+
+!literal: SIGNED_INT | SIGNED_FLOAT | "TRUE"i | "FALSE"i
+| DOUBLE_QUOTED_HEXCOLOR | SINGLE_QUOTED_HEXCOLOR
 
 !true: "TRUE"i
 !false: "FALSE"i
diff --git a/mappyfile/transformer.py b/mappyfile/transformer.py
index 44d662b..e7c3c92 100644
--- a/mappyfile/transformer.py
+++ b/mappyfile/transformer.py
@@ -455,24 +455,37 @@ class MapfileTransformer(Transformer):
 
     # for expressions
 
+    def _set_grouped(self, token, value: str):
+        """
+        Set the value of a token to text that is enclosed in a pair of matching brackets
+        """
+        token.value = value
+        token.type = "GROUPED"
+        return token
+
+    def _set_ungrouped(self, token, value: str):
+        """
+        Set the value of a token to text that is not enclosed in a pair of matching brackets,
+        even if it starts and ends with brackets e.g. ([a] + 1) * ([b] + 2)
+        """
+        token.value = value
+        token.type = "UNGROUPED"
+        return token
+
     def comparison(self, t):
         assert len(t) == 3
         parts = [str(p.value) for p in t]
         v = " ".join(parts)
 
-        v = f"( {v} )"
-        t[0].value = v
-        return t[0]
+        return self._set_grouped(t[0], f"( {v} )")
 
     def and_test(self, t):
         assert len(t) == 2
-        t[0].value = f"( {t[0].value} AND {t[1].value} )"
-        return t[0]
+        return self._set_grouped(t[0], f"( {t[0].value} AND {t[1].value} )")
 
     def or_test(self, t):
         assert len(t) == 2
-        t[0].value = f"( {t[0].value} OR {t[1].value} )"
-        return t[0]
+        return self._set_grouped(t[0], f"( {t[0].value} OR {t[1].value} )")
 
     def compare_op(self, t):
         v = t[0]
@@ -480,48 +493,52 @@ class MapfileTransformer(Transformer):
 
     def not_expression(self, t):
         v = t[0]
-        v.value = f"NOT {v.value}"
-        return v
+        exp = v.value
+
+        if v.type != "GROUPED":
+            exp = f"({exp})"
+
+        return self._set_ungrouped(v, f"NOT {exp}")
 
     def expression(self, t):
-        exp = " ".join(
-            [str(v.value) for v in t]
-        )  # convert to string for boolean expressions e.g. (true)
+        assert len(t) == 1
+        v = t[0]
+
+        if v.type == "GROUPED":
+            return v
 
-        if not self.quoter.in_parenthesis(exp):
-            t[0].value = f"({exp})"
+        return self._set_grouped(v, f"({v.value})")
 
+    def literal(self, t):
         return t[0]
 
     def add(self, t):
         assert len(t) == 2
-        t[0].value = f"{t[0].value} + {t[1].value}"
-        return t[0]
+        return self._set_ungrouped(t[0], f"{t[0].value} + {t[1].value}")
 
     def sub(self, t):
         assert len(t) == 2
-        t[0].value = f"{t[0].value} - {t[1].value}"
-        return t[0]
+        return self._set_ungrouped(t[0], f"{t[0].value} - {t[1].value}")
 
     def div(self, t):
         assert len(t) == 2
-        t[0].value = f"{t[0].value} / {t[1].value}"
-        return t[0]
+        return self._set_ungrouped(t[0], f"{t[0].value} / {t[1].value}")
 
     def mul(self, t):
         assert len(t) == 2
-        t[0].value = f"{t[0].value} * {t[1].value}"
-        return t[0]
+        return self._set_ungrouped(t[0], f"{t[0].value} * {t[1].value}")
 
     def power(self, t):
         assert len(t) == 2
-        t[0].value = f"{t[0].value} ^ {t[1].value}"
-        return t[0]
+        return self._set_ungrouped(t[0], f"{t[0].value} ^ {t[1].value}")
+
+    def mod(self, t):
+        assert len(t) == 2
+        return self._set_grouped(t[0], f"( {t[0].value} % {t[1].value} )")
 
     def neg(self, t):
         assert len(t) == 1
-        t[0].value = f"-{t[0].value}"
-        return t[0]
+        return self._set_ungrouped(t[0], f"-{t[0].value}")
 
     def runtime_var(self, t):
         v = t[0]
@@ -541,9 +558,7 @@ class MapfileTransformer(Transformer):
         For function calls e.g. TEXT (tostring([area],"%.2f"))
         """
         func, params = t
-        func_name = func.value
-        func.value = f"({func_name}({params}))"
-        return func
+        return self._set_grouped(func, f"({func.value}({params}))")
 
     def func_params(self, t):
         params = ",".join(str(v.value) for v in t)
@@ -636,7 +651,7 @@ class MapfileTransformer(Transformer):
     def list(self, t):
         # http://www.mapserver.org/mapfile/expressions.html#list-expressions
         v = t[0]
-        list_values = ",".join([str(s) for s in t])
+        list_values = ",".join([str(s.value) for s in t])
         v.value = "{%s}" % list_values
         return v
 
-- 
2.43.0


From 8224d8c6a0d85506254bbf40bd593c68a5bbd51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:11 +0000
Subject: [PATCH 03/24] fix: quote values by the alternatives of the schema,
 and refuse values that cannot be written

---
 mappyfile/pprint.py | 172 ++++++++++++++++++++++++++------------------
 1 file changed, 104 insertions(+), 68 deletions(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 636bd0f..6e4a120 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -30,6 +30,7 @@
 from __future__ import annotations
 import logging
 import numbers
+import re
 from mappyfile.tokens import (
     COMPOSITE_NAMES,
     SINGLETON_COMPOSITE_NAMES,
@@ -45,6 +46,12 @@ from typing import Any
 
 log = logging.getLogger("mappyfile")
 
+ATTRIBUTE_BINDING = re.compile(r"\[[a-z0-9_\xc0-\xff\-:]+\]\Z", re.IGNORECASE)
+REGULAR_EXPRESSION = re.compile(
+    r"""(/(?!\*.*\*/)[^/\n]*/i?|\\\\.*\\\\i?|"(\\"|[^"])*"i|'(\\'|[^'])*'i)\Z"""
+)
+RUNTIME_VARIABLE = re.compile(r"%[^%\n]*%\Z")
+
 
 # pylint: disable=too-many-arguments
 class PrettyPrinter:
@@ -184,6 +191,7 @@ class PrettyPrinter:
 
         for k, v in d.items():
             if not self.__is_metadata(k):
+                self.check_representation(k, v)
                 qk = self.quoter.add_quotes(k)
                 qv = self.quoter.add_quotes(v)
                 line = self.__format_line(
@@ -200,6 +208,7 @@ class PrettyPrinter:
         """
         lines = []
         for k, v in d.items():
+            self.check_representation(k, v)
             cfg_val = self.quoter.add_quotes(k.upper())
             k = f"CONFIG {cfg_val}"
             v = self.quoter.add_quotes(v)
@@ -214,7 +223,11 @@ class PrettyPrinter:
         """
         lines = []
 
+        if not isinstance(lst, (list, tuple)):
+            lst = [lst]
+
         for v in lst:
+            self.check_representation(key, v)
             k = key.upper()
             v = self.quoter.add_quotes(v)
             lines.append(
@@ -226,6 +239,7 @@ class PrettyPrinter:
     def process_projection(
         self, key, lst: (str | list[str]), level: int, projection_comments: str
     ) -> list[str]:
+        self.check_representation(key, lst)
         lines = [self.add_start_line(key, level)]
 
         whitespace = self.whitespace(level, 2)
@@ -241,6 +255,7 @@ class PrettyPrinter:
             lines.append(f"{whitespace}AUTO")
         else:
             for v in lst:
+                self.check_representation(key, v)
                 v = self.quoter.add_quotes(v)
                 lines.append(f"{whitespace}{v}")
 
@@ -252,6 +267,7 @@ class PrettyPrinter:
         Process lists of pairs (e.g. PATTERN block)
         """
 
+        self.check_representation(key, pair_list)
         lines = [self.add_start_line(key, level)]
 
         list_spacer = self.spacer * (level + 2)
@@ -269,6 +285,7 @@ class PrettyPrinter:
         Process (possibly) repeated lists of pairs e.g. POINTs blocks
         """
 
+        self.check_representation(key, root_list)
         lines = []
 
         def depth(iterable):
@@ -352,96 +369,115 @@ class PrettyPrinter:
     def is_expression(self, option):
         return "description" in option and (option["description"] == "expression")
 
-    def check_options_list(self, options_list, value):
+    def get_options(self, attr_props: dict) -> list[dict]:
+        """
+        Get a flat list of all the alternatives the JSON schema allows for a value
+        """
+        options = []
+
+        for key in ("allOf", "oneOf", "anyOf"):
+            for option in attr_props.get(key, []):
+                options += self.get_options(option)
+
+        return options or [attr_props]
+
+    def check_representation(self, attr: str, value: Any) -> None:
+        """
+        Dictionaries without a type, and missing values, cannot be written to a Mapfile
+        """
+        if isinstance(value, dict):
+            raise ValueError(f"The property {attr} has an empty dictionary as a value")
+
+        if value is None:
+            raise ValueError(f"The property {attr} has no value")
+
+    def is_binding(self, value: Any) -> bool:
+        """
+        Check for attribute bindings e.g. [FIELD]
+        """
+        return self.quoter.is_string(value) and bool(ATTRIBUTE_BINDING.match(value))
+
+    def is_regular_expression(self, value: str) -> bool:
+        """
+        Check for regular expressions e.g. /abc/ or /abc/i and
+        case insensitive strings e.g. "abc"i
+        """
+        return bool(REGULAR_EXPRESSION.match(value))
+
+    def check_options_list(self, attr, options_list, value):
         for option in options_list:
             if "enum" in option and value.lower() in option["enum"]:
-                if value.lower() == "end":
+                if value.lower() == "end" or attr == "compop":
                     # in GEOTRANSFORM "end" is an attribute value
                     return self.quoter.add_quotes(value)
-                return value.upper()
+                return value.upper()  # value is from a set list, no need for quote
 
-            if self.is_expression(option):
-                if value.endswith("'i") or value.endswith('"i'):
-                    return value
+        has_expressions = any(self.is_expression(o) for o in options_list)
+        has_strings = any(
+            o.get("type") == "string" and "enum" not in o and "pattern" not in o
+            for o in options_list
+        )
 
-        if self.quoter.in_slashes(value):
+        if has_expressions and self.is_regular_expression(value):
             return value
 
-        return self.quoter.add_quotes(value)
+        if has_expressions or not has_strings:
+            if self.quoter.in_parenthesis(value):
+                return value
+
+            if value.startswith("NOT ") and self.quoter.in_parenthesis(value[4:]):
+                return value
+
+        if not has_strings and RUNTIME_VARIABLE.match(value):
+            return value
+
+        if attr in ("expression", "filter") and self.quoter.in_braces(value):
+            # don't add quotes to list expressions such as {val1, val2}
+            return value
+
+        if attr != "text" and self.is_binding(value):
+            # TEXT expressions are often "[field1]-[field2]" so need to leave quotes for these
+            return value
+
+        return self.quoter.escape_quotes(self.quoter.add_quotes(value))
 
     def format_value(self, attr: str, attr_props, value: Any) -> Any:
         """
-        TODO - refactor and add more specific tests (particularly for expressions)
+        Format a value, adding quotes if they are required
         """
         if isinstance(value, bool):
             return str(value).upper()
 
-        if any(i in ["enum"] for i in attr_props):
-            if isinstance(value, dict) and not value:
-                raise ValueError(
-                    f"The property {attr} has an empty dictionary as a value"
-                )
+        self.check_representation(attr, value)
+
+        if isinstance(value, (list, tuple)):
+            return " ".join(str(self.format_list_value(attr, v)) for v in value)
 
-            if not isinstance(value, numbers.Number):
-                if attr == "compop":
-                    return self.quoter.add_quotes(str(value))
-                return str(value).upper()  # value is from a set list, no need for quote
+        if attr_props.get("type") == "string" and "enum" not in attr_props:
+            return self.quoter.add_quotes(value)
 
+        if not self.quoter.is_string(value):
             return value
 
-        if (
-            "type" in attr_props and attr_props["type"] == "string"
-        ):  # and "enum" not in attr_props
-            # check schemas for expressions and handle accordingly
-            if self.is_expression(attr_props) and self.quoter.in_slashes(value):
-                return value
-            if self.is_expression(attr_props) and (
-                value.endswith("'i") or value.endswith('"i')
-            ):
-                # for case insensitive regex
-                return value
+        if not attr_props:
+            # the keyword is unknown so its type cannot be checked
+            return self.quoter.escape_quotes(self.quoter.add_quotes(value))
 
-            return self.quoter.add_quotes(value)
+        return self.check_options_list(attr, self.get_options(attr_props), value)
 
-        # expressions can be one of a string or an expression in brackets
-        if any(
-            i in ["oneOf", "anyOf"] for i in attr_props
-        ):  # and check that type string is in list
-            if "oneOf" in attr_props:
-                options_list = attr_props["oneOf"]
-            else:
-                options_list = attr_props["anyOf"]
-            if self.quoter.is_string(value):
-                if self.quoter.in_parenthesis(value):
-                    pass
-                elif attr == "expression" and self.quoter.in_braces(value):
-                    # don't add quotes to list expressions such as {val1, val2}
-                    pass
-                elif attr != "text" and self.quoter.in_brackets(value):
-                    # TEXT expressions are often "[field1]-[field2]" so need to leave quotes for these
-                    pass
-                elif value.startswith("NOT ") and self.quoter.in_parenthesis(value[4:]):
-                    value = f"NOT {value[4:]}"
-                else:
-                    value = self.check_options_list(options_list, value)
-
-        if isinstance(value, list):
-            new_values = []
-
-            for v in value:
-                if not isinstance(v, numbers.Number) and attr not in [
-                    "offset",
-                    "polaroffset",
-                ]:
-                    # don't add quotes to list of attributes for offset / polaroffset
-                    v = self.quoter.add_quotes(v)
-                new_values.append(v)
-
-            value = " ".join(list(map(str, new_values)))
-        else:
-            value = self.quoter.escape_quotes(value)
+    def format_list_value(self, attr: str, value: Any) -> Any:
+        """
+        Format one of the values in a list, numbers and attribute bindings are not quoted
+        """
+        if isinstance(value, bool):
+            return str(value).upper()
+
+        self.check_representation(attr, value)
 
-        return value
+        if isinstance(value, numbers.Number) or self.is_binding(value):
+            return value
+
+        return self.quoter.add_quotes(value)
 
     # pylint: disable=too-many-arguments
     def process_attribute(
-- 
2.43.0


From 5cd9f1945bb0f9482cd7d1803eacb58ab4229e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:28 +0000
Subject: [PATCH 04/24] fix: only move blocks when separating complex types

---
 mappyfile/dictutils.py |  2 +-
 mappyfile/pprint.py    | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/mappyfile/dictutils.py b/mappyfile/dictutils.py
index bc6e1ee..be82712 100644
--- a/mappyfile/dictutils.py
+++ b/mappyfile/dictutils.py
@@ -317,4 +317,4 @@ def update(d1: dict, d2: dict, overwrite: bool = True) -> dict:
 
 
 def dict_move_to_end(ordered_dict, key):
-    ordered_dict.move_to_end(key)
+    ordered_dict[key] = ordered_dict.pop(key)
diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 6e4a120..ccd3249 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -306,13 +306,13 @@ class PrettyPrinter:
         return False
 
     def is_complex_type(self, composite: dict, key: str, level: int) -> bool:
-        # symbol needs special treatment
-        if key == "symbol" and level > 0:
-            return False
+        value = composite[key]
+        # some types are also used as simple keywords e.g. SYMBOL and STYLE
+        is_block = isinstance(value, dict) or key in ("points", "pattern", "projection")
         return (
-            key in COMPLEX_TYPES
-            or self.is_composite(key)
-            or self.is_hidden_container(key, composite[key])
+            (key in COMPLEX_TYPES and is_block)
+            or self.is_composite(value)
+            or self.is_hidden_container(key, value)
         )
 
     def is_hidden_container(self, key: str, val: Any) -> bool:
-- 
2.43.0


From 8fd148d4f102a5fc41e63fc5c596a75d4ee6f16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:28 +0000
Subject: [PATCH 05/24] fix: do not indent key-value blocks printed at the root

---
 mappyfile/pprint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index ccd3249..9281baf 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -170,7 +170,7 @@ class PrettyPrinter:
         # add any composite level comments
         comments = d.get("__comments__", {})
         lines: list[str] = []
-        self._add_type_comment(level, comments, lines)
+        self._add_type_comment(level + 1, comments, lines)
 
         lines += [self.add_start_line(key, level)]
         lines += self.process_dict(d, level, comments)
@@ -342,7 +342,7 @@ class PrettyPrinter:
             type_ = composite["__type__"]
             if type_ in ("metadata", "validation", "connectionoptions"):
                 # types are being parsed directly, and not as an attr of a parent
-                lines += self.process_key_dict(type_, composite, level=0)
+                lines += self.process_key_dict(type_, composite, level=-1)
             else:
                 lines += self._format(composite)
 
-- 
2.43.0


From 2ac3f6fbe5aa2b1605f0acf33914717ffcae5065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:28 +0000
Subject: [PATCH 06/24] fix: align the values of key-value blocks whatever
 their keys are

---
 mappyfile/pprint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 9281baf..8886357 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -186,7 +186,8 @@ class PrettyPrinter:
 
         aligned_max_indent = 0
         if self.align_values:
-            max_key_length = self.compute_max_key_length(d) + 2  # add length of quotes
+            keys = [k for k in d if not self.__is_metadata(k)]
+            max_key_length = max(map(len, keys), default=0) + 2  # add length of quotes
             aligned_max_indent = self.compute_aligned_max_indent(max_key_length)
 
         for k, v in d.items():
-- 
2.43.0


From ff1d0af5dd77505188c4d028b60bdc55140ab8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:03 +0000
Subject: [PATCH 07/24] fix: record the position of SYMBOLSET

---
 mappyfile/mapfile.lark   | 3 ++-
 mappyfile/transformer.py | 5 ++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mappyfile/mapfile.lark b/mappyfile/mapfile.lark
index 6f6344d..ad7cfc6 100644
--- a/mappyfile/mapfile.lark
+++ b/mappyfile/mapfile.lark
@@ -27,7 +27,7 @@
 // 
 // =================================================================
 
-start: "SYMBOLSET"i composite_body _END   -> symbolset
+start: SYMBOLSET composite_body _END   -> symbolset
      | composite+
 
 composite: composite_type composite_body _END
@@ -142,6 +142,7 @@ func_params: operand ("," operand)*
             | "SYMBOL"i
 
 AUTO: "AUTO"i
+SYMBOLSET: "SYMBOLSET"i
 PATH: /([a-z0-9_]*\.*\/|[a-z0-9_]+[.\/])[a-z0-9_\/\.-]+/i
 
 // rules allow optional alphachannel
diff --git a/mappyfile/transformer.py b/mappyfile/transformer.py
index e7c3c92..1bfec06 100644
--- a/mappyfile/transformer.py
+++ b/mappyfile/transformer.py
@@ -773,10 +773,9 @@ class MapfileToDict:
 class Canonize(Transformer_InPlace):
     @v_args(tree=True)
     def symbolset(self, tree):
-        composite_type = Tree("composite_type", [Token("symbolset", "symbolset")])
-
+        # keep the token so its position in the Mapfile is available
         tree.data = "composite"
-        tree.children.insert(0, composite_type)
+        tree.children[0] = Tree("composite_type", [tree.children[0]])
         return tree
 
 
-- 
2.43.0


From da71d5f821a58c27afa780a46f106f95706726df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:02 +0000
Subject: [PATCH 08/24] fix: keep comments with their keywords and print them
 so they stay comments

---
 mappyfile/parser.py      | 17 ++++++++++++----
 mappyfile/pprint.py      | 44 +++++++++++++++++++++++++++-------------
 mappyfile/transformer.py | 17 +++++++++++++++-
 3 files changed, 59 insertions(+), 19 deletions(-)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index a8dced2..884b8bd 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -161,10 +161,18 @@ class Parser:
             # when we encounter a new type that can have associated comments
             # assign all comments up to that point in the Mapfile to the node
             # for metadata we want to assign comments to the string_pair
-            if node.data in ("composite", "attr", "projection", "string_pair"):
-                # for projection blocks capture any comments within the block
+            if node.data in (
+                "symbolset",
+                "composite",
+                "attr",
+                "projection",
+                "config",
+                "string_pair",
+            ):
+                # for projection blocks capture any comments within the block, and
+                # for keywords any comments following values over several lines
 
-                if node.data in ("projection"):
+                if node.data not in ("symbolset", "composite"):
                     line = node.meta.end_line
                 line_numbers = list(sorted(self.comments_dict.keys()))
                 comments = []
@@ -255,7 +263,8 @@ class Parser:
                 # create a dictionary using line numbers as keys, and comments as values
                 for c in self._comments:
                     self.comments_dict[c.line] = c.value.strip()
-                self._assign_comments(tree)
+                # the root node can also have comments when it is a SYMBOLSET
+                self._assign_comments(Tree("root", [tree]))
 
             return tree
         except (ParseError, UnexpectedInput) as ex:
diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 8886357..a81c4bc 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -203,37 +203,52 @@ class PrettyPrinter:
 
         return lines
 
-    def process_config_dict(self, d: dict, level: int) -> list[str]:
+    def process_config_dict(self, d: dict, level: int, comments: Any = None) -> list[str]:
         """
         Process the CONFIG block
         """
         lines = []
-        for k, v in d.items():
-            self.check_representation(k, v)
-            cfg_val = self.quoter.add_quotes(k.upper())
+        if not isinstance(comments, dict):
+            comments = {}
+        for subkey, v in d.items():
+            self.check_representation(subkey, v)
+            cfg_val = self.quoter.add_quotes(subkey.upper())
             k = f"CONFIG {cfg_val}"
             v = self.quoter.add_quotes(v)
-            lines.append(self.__format_line(self.whitespace(level, 1), k, v))
+            line = self.__format_line(self.whitespace(level, 1), k, v)
+            line += self.process_attribute_comment(comments, subkey)
+            lines.append(line)
         return lines
 
     def process_repeated_list(
-        self, key: str, lst: list[str], level: int, aligned_max_indent: int = 1
+        self,
+        key: str,
+        lst: list[str],
+        level: int,
+        aligned_max_indent: int = 1,
+        comments: Any = None,
     ) -> list[str]:
         """
         Process blocks of repeated keys e.g. FORMATOPTION
         """
         lines = []
+        # each value can have its own comments
+        item_comments = (
+            dict(enumerate(comments)) if isinstance(comments, (list, tuple)) else {}
+        )
 
         if not isinstance(lst, (list, tuple)):
             lst = [lst]
 
-        for v in lst:
+        for idx, v in enumerate(lst):
             self.check_representation(key, v)
             k = key.upper()
             v = self.quoter.add_quotes(v)
-            lines.append(
-                self.__format_line(self.whitespace(level, 1), k, v, aligned_max_indent)
+            line = self.__format_line(
+                self.whitespace(level, 1), k, v, aligned_max_indent
             )
+            line += self.process_attribute_comment(item_comments, idx)
+            lines.append(line)
 
         return lines
 
@@ -516,8 +531,8 @@ class PrettyPrinter:
 
         return comment
 
-    def process_attribute_comment(self, comments: dict, key: str) -> str:
-        if key not in comments:
+    def process_attribute_comment(self, comments: dict, key: Any) -> str:
+        if not comments.get(key):
             comment = ""
         else:
             value = comments[key]
@@ -526,7 +541,8 @@ class PrettyPrinter:
             # for multiple comments associated with an attribute
             # simply join them together as a single string
             if isinstance(value, list):
-                value = " ".join(value)
+                # anything following a single-line comment is part of that comment
+                value = " ".join(sorted(value, key=lambda c: c.startswith("#")))
 
             comment = self.format_comment(spacer, value)
 
@@ -583,12 +599,12 @@ class PrettyPrinter:
                 )
             elif attr in REPEATED_KEYS:
                 lines += self.process_repeated_list(
-                    attr, value, level, aligned_max_indent
+                    attr, value, level, aligned_max_indent, comments.get(attr)
                 )
             elif attr == "points":
                 lines += self.format_repeated_pair_list(attr, value, level)
             elif attr == "config":
-                lines += self.process_config_dict(value, level)
+                lines += self.process_config_dict(value, level, comments.get(attr))
             elif self.is_composite(value):
                 lines += self._format(
                     value, level + 1
diff --git a/mappyfile/transformer.py b/mappyfile/transformer.py
index 1bfec06..9ca52fa 100644
--- a/mappyfile/transformer.py
+++ b/mappyfile/transformer.py
@@ -245,6 +245,12 @@ class MapfileTransformer(Transformer):
                     self._process_composite_config(
                         composite_dict, d, position_dict, pos
                     )
+                    if self.include_comments and comments:
+                        subkey_name = self.get_single_key(d[key_name])
+                        config_comments = comments_dict.setdefault(
+                            key_name, OrderedDict()
+                        )
+                        config_comments[subkey_name] = comments
                 elif key_name == "points":
                     self._process_composite_points(
                         composite_dict, d, position_dict, pos
@@ -255,6 +261,13 @@ class MapfileTransformer(Transformer):
 
                     composite_dict[key_name].append(d[key_name])
 
+                    if self.include_comments and comments:
+                        # keep a list of comments for each of the repeated values
+                        item_comments = comments_dict.setdefault(key_name, [])
+                        while len(item_comments) < len(composite_dict[key_name]) - 1:
+                            item_comments.append([])
+                        item_comments.append(comments)
+
                     if position_dict:
                         if key_name not in position_dict:
                             position_dict[key_name] = []
@@ -697,7 +710,8 @@ class CommentsTransformer(Transformer_InPlace):
                 key = self._mapfile_todict.clean_string(key).lower()
                 assert key in d.keys()
                 key_comments = self.get_comments(sp.meta)
-                d["__comments__"][key] = key_comments
+                if key_comments:
+                    d["__comments__"][key] = key_comments
 
         return d
 
@@ -737,6 +751,7 @@ class CommentsTransformer(Transformer_InPlace):
 
     # below we assign callbacks to process comments for each of the following types
     attr = _save_attr_comments
+    config = _save_attr_comments
     projection = _save_projection_comments
     composite = _save_composite_comments
 
-- 
2.43.0


From 2cd0484bdc3fffc534f7f46b25ab87da01e0367b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:36 +0000
Subject: [PATCH 09/24] fix: query helpers compare whole values and leave the
 items unchanged

---
 mappyfile/dictutils.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/mappyfile/dictutils.py b/mappyfile/dictutils.py
index be82712..36bc65c 100644
--- a/mappyfile/dictutils.py
+++ b/mappyfile/dictutils.py
@@ -28,6 +28,7 @@
 # =================================================================
 
 from __future__ import annotations
+import copy
 from typing import Any
 from itertools import zip_longest
 
@@ -78,7 +79,8 @@ def find(lst: list[dict], key: str, value: Any) -> dict | None:
         cmp = mappyfile.find(d["layers"], "name", "Layer2")
         assert cmp["name"] == "Layer2"
     """
-    return next((item for item in lst if item[key.lower()] == value), None)
+    k = key.lower()
+    return next((item for item in lst if k in item and item[k] == value), None)
 
 
 def findall(lst: list[dict], key: str, value: Any) -> list[dict]:
@@ -94,7 +96,7 @@ def findall(lst: list[dict], key: str, value: Any) -> list[dict]:
     key: string
         The key name to search each dictionary in the list
     key: value
-        The value to search for
+        The value, or a list of values, to search for
 
     Returns
     -------
@@ -136,7 +138,14 @@ def findall(lst: list[dict], key: str, value: Any) -> list[dict]:
         layers = mappyfile.findall(d["layers"], "group", "test")
         assert len(layers) == 2
     """
-    return [item for item in lst if item[key.lower()] and item[key.lower()] in value]
+    k = key.lower()
+    values = value if isinstance(value, (list, tuple, set, frozenset)) else []
+
+    return [
+        item
+        for item in lst
+        if k in item and (item[k] == value or any(item[k] == v for v in values))
+    ]
 
 
 def findunique(lst, key):
@@ -240,6 +249,9 @@ def findkey(d: dict, *keys: list[Any]) -> dict:
     if keys:
         keys_list = list(keys)
         search_key = keys_list.pop(0)
+        if isinstance(d, dict) and search_key not in d:
+            # avoid creating any missing keys in the dictionary itself
+            d = copy.copy(d)
         return findkey(d[search_key], *keys_list)
 
     return d
-- 
2.43.0


From a7638ca5f277a2f5ba2b67b056160bf2d0e220d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:36 +0000
Subject: [PATCH 10/24] fix: deleting keys that are missing with update changes
 nothing

---
 mappyfile/dictutils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mappyfile/dictutils.py b/mappyfile/dictutils.py
index 36bc65c..ea92384 100644
--- a/mappyfile/dictutils.py
+++ b/mappyfile/dictutils.py
@@ -293,7 +293,7 @@ def update(d1: dict, d2: dict, overwrite: bool = True) -> dict:
         if isinstance(v, dict):
             if v.get("__delete__", False):
                 # allow a __delete__ property to be set to delete objects
-                del d1[k]
+                d1.pop(k, None)
             else:
                 d1[k] = update(d1.get(k, {}), v, overwrite)
         elif isinstance(v, (tuple, list)) and all(
@@ -304,6 +304,8 @@ def update(d1: dict, d2: dict, overwrite: bool = True) -> dict:
             new_list = []
             pairs = list(zip_longest(orig_list, v, fillvalue=None))
             for orig_item, new_item in pairs:
+                if orig_item is None and new_item is None:
+                    continue  # no item to update, and no item to add
                 if orig_item is None:
                     orig_item = (
                         {}
@@ -320,8 +322,8 @@ def update(d1: dict, d2: dict, overwrite: bool = True) -> dict:
                     new_list.append(d)
             d1[k] = new_list
         else:
-            if k in d1 and v == "__delete__":
-                del d1[k]
+            if isinstance(v, str) and v == "__delete__":
+                d1.pop(k, None)
             else:
                 if overwrite is True or k not in d1:
                     d1[k] = v
-- 
2.43.0


From 75ff75cceb1aac1c641d9f0f1bf28a41988eaeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:48 +0000
Subject: [PATCH 11/24] fix: any key can be read, and updated by name, in a
 Mapfile dictionary

---
 mappyfile/ordereddict.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mappyfile/ordereddict.py b/mappyfile/ordereddict.py
index ab27b0d..5a93766 100644
--- a/mappyfile/ordereddict.py
+++ b/mappyfile/ordereddict.py
@@ -57,7 +57,8 @@ class DefaultOrderedDict(OrderedDict):
         self.default_factory = default_factory
 
     def __getitem__(self, key):
-        key = key.lower()  # all keys should be lower-case to make editing easier
+        if isinstance(key, str):
+            key = key.lower()  # all keys should be lower-case to make editing easier
 
         try:
             return OrderedDict.__getitem__(self, key)
@@ -138,10 +139,10 @@ class CaseInsensitiveOrderedDict(DefaultOrderedDict):
         # pylint: disable=protected-access
         return super().setdefault(self.__class__._k(key), *args, **kwargs)
 
-    def update(self, e=None, **f):
+    def update(self, e=None, /, **f):
         if e is not None:
             super().update(self.__class__(CaseInsensitiveOrderedDict, e))
-        super().update(self.__class__(CaseInsensitiveOrderedDict, **f))
+        super().update(self.__class__(CaseInsensitiveOrderedDict, f))
 
     def _convert_keys(self):
         for k in list(self.keys()):
-- 
2.43.0


From bc6af1611394b9819de492ad1b03c166f574eee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:34 +0000
Subject: [PATCH 12/24] fix: apply schema versions at every level without
 modifying the cached schemas

---
 mappyfile/validator.py | 58 +++++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 23 deletions(-)

diff --git a/mappyfile/validator.py b/mappyfile/validator.py
index c699e8f..ecca55e 100644
--- a/mappyfile/validator.py
+++ b/mappyfile/validator.py
@@ -132,37 +132,49 @@ class Validator:
         """
         jsn_schema = self.get_expanded_schema(schema_name, version)
 
-        if version:
+        if version is not None:
             # remove any properties based on minVersion and maxVersion
-            properties = jsn_schema["properties"]
-            jsn_schema["properties"] = self.get_versioned_properties(
-                properties, version
-            )
+            is_available = self.is_available(jsn_schema, version)
+            jsn_schema = self.get_versioned_properties(jsn_schema, version)
+            if not is_available:
+                # the object itself is not available for this version
+                jsn_schema["not"] = {}
 
         return jsn_schema
 
-    def get_versioned_properties(self, properties: dict, version: float) -> dict:
+    def is_available(self, d: dict, version: float) -> bool:
         """
-        For a dict object recursively check each child object
-        to see if it is valid for the supplied version
+        Check if a property can be used in the supplied version, this also
+        depends on any schemas that its values must conform to
         """
-        keys_copy = list(properties.keys())
+        if not self.is_valid_for_version(d, version):
+            return False
+
+        required = list(d.get("allOf", []))
+        if isinstance(d.get("items"), dict):
+            required.append(d["items"])
 
-        for key in keys_copy:
-            v = properties[key]
-            if isinstance(v, dict):
-                if self.is_valid_for_version(v, version) is False:
-                    del properties[key]
+        return all(self.is_available(r, version) for r in required)
+
+    def get_versioned_properties(self, properties: Any, version: float) -> Any:
+        """
+        For a dict object recursively check each child object
+        to see if it is valid for the supplied version.
+        Returns a copy so the (cached) schemas are never modified
+        """
+        if isinstance(properties, dict):
+            return {
+                k: self.get_versioned_properties(v, version)
+                for k, v in properties.items()
+                if not isinstance(v, dict) or self.is_available(v, version)
+            }
+
+        if isinstance(properties, list):
+            return [
                 self.get_versioned_properties(v, version)
-            elif isinstance(v, list):
-                valid_list = []
-                for props in v:
-                    if isinstance(props, dict):
-                        if self.is_valid_for_version(props, version) is True:
-                            valid_list.append(props)
-                    else:
-                        valid_list.append(props)
-                properties[key] = valid_list
+                for v in properties
+                if not isinstance(v, dict) or self.is_available(v, version)
+            ]
 
         return properties
 
-- 
2.43.0


From 452335d185f1d5c72dc8a0f21e9ec1c063cad7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:52 +0000
Subject: [PATCH 13/24] fix: find the keyword and position of every validation
 error, and validate by root type

---
 mappyfile/validator.py | 148 +++++++++++++++++++++++++++++++----------
 1 file changed, 114 insertions(+), 34 deletions(-)

diff --git a/mappyfile/validator.py b/mappyfile/validator.py
index ecca55e..2184da4 100644
--- a/mappyfile/validator.py
+++ b/mappyfile/validator.py
@@ -34,7 +34,6 @@ from collections import OrderedDict
 import logging
 import jsonschema
 import jsonref
-from mappyfile import dictutils
 from referencing import Registry, Resource
 from referencing.jsonschema import DRAFT4
 from typing import Any
@@ -42,6 +41,35 @@ from typing import Any
 
 log = logging.getLogger("mappyfile")
 
+# types that can be at the root of a Mapfile, each of these has a schema
+ROOT_TYPES = frozenset(
+    """
+    symbolset
+    metadata
+    validation
+    connectionoptions
+    class
+    cluster
+    composite
+    feature
+    grid
+    join
+    label
+    layer
+    leader
+    legend
+    map
+    outputformat
+    querymap
+    reference
+    scalebar
+    scaletoken
+    style
+    symbol
+    web
+    """.split()
+)
+
 
 class Validator:
     def __init__(self):
@@ -208,8 +236,62 @@ class Validator:
 
         return x
 
+    def find_key(self, d: dict, key: str) -> str:
+        """
+        Get a key as it is stored in the dictionary, as its case is ignored by the validation
+        """
+        return next((k for k in reversed(list(d)) if k.lower() == key), key)
+
+    def find_position(self, positions: Any) -> dict | None:
+        """
+        Get the first position in the details stored for a keyword - there are several
+        for repeated keywords, CONFIG settings, and multipart POINTS
+        """
+        if isinstance(positions, dict):
+            if isinstance(positions.get("line"), int):
+                return positions
+            positions = list(positions.values())
+
+        if isinstance(positions, list) and positions:
+            return self.find_position(positions[0])
+
+        return None
+
+    def find_error_location(
+        self, rootdict: dict, path: list[Any]
+    ) -> tuple[dict, str, (dict | None)]:
+        """
+        Find the dictionary and the key that a validation error applies to, along
+        with the position in the Mapfile if this has been stored in the dictionary
+        """
+        d = value = rootdict
+        key = str(d.get(self.find_key(d, "__type__"), "map"))
+        positions: Any = d.get("__position__")
+        position = self.find_position(positions)
+
+        for p in path:
+            if isinstance(value, dict):
+                d, key = value, self.find_key(value, p)
+                value = d.get(key)
+                if isinstance(positions, dict):
+                    positions = positions.get(p)
+            else:
+                value = value[p]
+                if isinstance(value, dict) and "__type__" in value:
+                    # the error is on an object in a list
+                    d, key = value, str(value["__type__"])
+                if isinstance(positions, list) and p < len(positions):
+                    positions = positions[p]
+
+            if isinstance(value, dict) and "__position__" in value:
+                positions = value["__position__"]
+
+            position = self.find_position(positions) or position
+
+        return d, key, position
+
     def create_message(
-        self, rootdict: dict, path: str, error, add_comments: bool
+        self, rootdict: dict, path: list[Any], error, add_comments: bool
     ) -> dict:
         """
         Add a validation comment to the dictionary
@@ -222,17 +304,7 @@ class Validator:
         See https://github.com/Julian/jsonschema/issues/119
         """
 
-        if not path:
-            # error applies to the root type
-            d = rootdict
-            key = d["__type__"]
-        elif isinstance(path[-1], int):
-            # the error is on an object in a list
-            d = dictutils.findkey(rootdict, *path)
-            key = d["__type__"]
-        else:
-            key = path[-1]
-            d = dictutils.findkey(rootdict, *path[:-1])
+        d, key, position = self.find_error_location(rootdict, path)
 
         error_message = f"ERROR: Invalid value in {key.upper()}"
 
@@ -249,15 +321,9 @@ class Validator:
         # add in details of the error line, when Mapfile was parsed to
         # include position details
 
-        if "__position__" in d:
-            if not path or key not in d["__position__"]:
-                # position for the root object is stored in the root of the dict
-                pd = d["__position__"]
-            else:
-                pd = d["__position__"][key]
-
-            error_dict["line"] = pd.get("line")
-            error_dict["column"] = pd.get("column")
+        if position:
+            error_dict["line"] = position.get("line")
+            error_dict["column"] = position.get("column")
 
         return error_dict
 
@@ -289,28 +355,42 @@ class Validator:
         self,
         value: Any,
         add_comments: bool = False,
-        schema_name: str = "map",
+        schema_name: (str | None) = None,
         version: (float | None) = None,
     ):
         """
         verbose - also return the jsonschema error details
+        If no schema_name is provided then the schema for the type of each dictionary is used
         """
-        if version:
-            jsn_schema = self.get_versioned_schema(version, schema_name)
-            validator = jsonschema.Draft4Validator(schema=jsn_schema)
-        else:
-            validator = self.get_schema_validator(schema_name)
-
         error_messages = []
+        dicts = value if isinstance(value, list) else [value]
 
-        if isinstance(value, list):
-            for d in value:
-                error_messages += self._get_errors(d, validator, add_comments)
-        else:
-            error_messages = self._get_errors(value, validator, add_comments)
+        for d in dicts:
+            validator = self.get_validator(schema_name or self.get_type(d), version)
+            error_messages += self._get_errors(d, validator, add_comments)
 
         return error_messages
 
+    def get_type(self, d: dict) -> str:
+        """
+        Get the type of a dictionary, using "map" if it is missing or has no schema
+        """
+        type_ = d.get(self.find_key(d, "__type__"))
+
+        if isinstance(type_, str) and type_.lower() in ROOT_TYPES:
+            return type_.lower()
+
+        return "map"
+
+    def get_validator(
+        self, schema_name: str, version: (float | None) = None
+    ) -> jsonschema.Draft4Validator:
+        if version is None:
+            return self.get_schema_validator(schema_name)
+
+        jsn_schema = self.get_versioned_schema(version, schema_name)
+        return jsonschema.Draft4Validator(schema=jsn_schema)
+
     def get_expanded_schema(
         self, schema_name: str, version: (float | None) = None
     ) -> dict:
-- 
2.43.0


From d18c732a77e0af39a55fd63ea6822ae3b1f49cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:52 +0000
Subject: [PATCH 14/24] fix: BACKGROUNDSHADOWSIZE is a pair of integers

---
 mappyfile/schemas/label.json | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mappyfile/schemas/label.json b/mappyfile/schemas/label.json
index 4f781ec..688f827 100644
--- a/mappyfile/schemas/label.json
+++ b/mappyfile/schemas/label.json
@@ -80,11 +80,12 @@
     },
     "backgroundshadowsize": {
       "default": false,
-      "allOf": [
-        {
-          "$ref": "points.json"
-        }
-      ],
+      "type": "array",
+      "items": {
+        "type": "integer"
+      },
+      "minItems": 2,
+      "maxItems": 2,
       "metadata": {
         "maxVersion": 6.0
       }
-- 
2.43.0


From 24ed83d964fae914979cccd20a6aa7ec5968ba83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:52 +0000
Subject: [PATCH 15/24] fix: report files that cannot be parsed, and keep line
 endings of files

---
 mappyfile/cli.py    | 6 +++++-
 mappyfile/parser.py | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/mappyfile/cli.py b/mappyfile/cli.py
index 0fd14df..4def92b 100644
--- a/mappyfile/cli.py
+++ b/mappyfile/cli.py
@@ -219,12 +219,15 @@ def validate(_, mapfiles, expand, version):
         except Exception as ex:
             logger.exception(ex)
             click.echo(f"{fn} failed to parse successfully")
+            errors += 1
             continue
 
         validation_messages = mappyfile.validate(d, version)
         if validation_messages:
             for v in validation_messages:
                 v["fn"] = fn
+                v.setdefault("line", "unknown")
+                v.setdefault("column", "unknown")
                 # pylint: disable=consider-using-f-string
                 msg = "{fn} (Line: {line} Column: {column}) {message} - {error}".format(
                     **v
@@ -238,7 +241,8 @@ def validate(_, mapfiles, expand, version):
     click.echo(
         f"{len(all_mapfiles)} file(s) validated ({validation_count} successfully)"
     )
-    sys.exit(errors)
+    # exit statuses are limited to a single byte
+    sys.exit(min(errors, 255))
 
 
 @main.command(short_help="Export a Mapfile Schema")
diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index 884b8bd..ac74aee 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -199,7 +199,8 @@ class Parser:
 
     def open_file(self, fn: str):
         try:
-            with open(fn, "r", encoding="utf-8") as f:
+            # keep the line endings so any within strings are not changed
+            with open(fn, "r", encoding="utf-8", newline="") as f:
                 return f.read()
         except UnicodeDecodeError as ex:
             log.debug(ex)
-- 
2.43.0


From 7743686b15a9bfb3c64c0021f3d0545fcef19b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:23 +0000
Subject: [PATCH 16/24] fix: only expand INCLUDE lines, with any file name

---
 mappyfile/parser.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index ac74aee..6890205 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -29,6 +29,7 @@
 
 from __future__ import annotations
 import os
+import re
 import logging
 from io import open
 from lark import Lark, ParseError, Tree, UnexpectedInput
@@ -52,6 +53,12 @@ if use_cython:
         pass
 
 
+# the INCLUDE keyword at the start of a line, followed by a (quoted) file name
+INCLUDE_FILE = re.compile(
+    r"""\s*include(?:\s*"([^"\0]*)"|\s*'([^'\0]*)'|\s+(?!/\*)([^\s#"'\0]+))""",
+    re.IGNORECASE,
+)
+
 SYMBOL_ATTRIBUTES = {
     "ANCHORPOINT",
     "ANTIALIAS",
@@ -97,19 +104,19 @@ class Parser:
         return Lark.open("mapfile.lark", rel_to=__file__, parser="lalr", **extra_args)
 
     def _get_include_filename(self, line: str) -> str:
-        if "#" in line:
-            # remove any comments on the same line
-            line = line.split("#")[0]
+        match = INCLUDE_FILE.match(line)
+
+        if match is None:
+            raise ValueError("No file name was found in the INCLUDE")
 
-        include_pairs = line.split()
-        if len(include_pairs) > 2:
+        remaining_text = line[match.end() :].strip()
+        if remaining_text and not remaining_text.startswith(("#", "/*")):
             log.warning(
                 "Multiple include files have been found on the same line. "
                 "Only the first will be used. "
             )
-        inc_file_path = include_pairs[1]
 
-        return inc_file_path.strip("'").strip('"')
+        return next(fn for fn in match.groups() if fn is not None)
 
     def load_includes(
         self, text: str, fn: str | None = None, _nested_includes: int = 0
@@ -121,7 +128,8 @@ class Parser:
         lines = text.split("\n")
         includes = {}
         for idx, l in enumerate(lines):
-            if l.strip().lower().startswith("include"):
+            # an INCLUDE without a file name is left to be reported by the parser
+            if INCLUDE_FILE.match(l):
                 if _nested_includes == 5:
                     raise ValueError("Maximum nested include exceeded! (MaxNested=5)")
 
@@ -189,11 +197,10 @@ class Parser:
 
     def load(self, fp: IO[str]) -> Any:
         text = fp.read()
-        if hasattr(fp, "name"):
-            fn = (
-                fp.name
-            )  # name is a read-only attribute and may not be present on all file-like objects.
-        else:
+        # name is a read-only attribute and may not be present on all file-like objects,
+        # and it can also be a file descriptor rather than a file name
+        fn = getattr(fp, "name", None)
+        if not isinstance(fn, str):
             fn = None
         return self.parse(text, fn)
 
-- 
2.43.0


From 7959d7bfcf3279e9e0cffa2e3e1faae7a83a3609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:38 +0000
Subject: [PATCH 17/24] fix: raise a parse error when a Mapfile is too deeply
 nested

---
 mappyfile/parser.py      | 2 ++
 mappyfile/transformer.py | 8 +++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index 6890205..2781fd9 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -275,6 +275,8 @@ class Parser:
                 self._assign_comments(Tree("root", [tree]))
 
             return tree
+        except RecursionError as ex:
+            raise ParseError("The Mapfile is too deeply nested") from ex
         except (ParseError, UnexpectedInput) as ex:
             if fn:
                 log.error("Parsing of %s unsuccessful", fn)
diff --git a/mappyfile/transformer.py b/mappyfile/transformer.py
index 9ca52fa..3a5cde4 100644
--- a/mappyfile/transformer.py
+++ b/mappyfile/transformer.py
@@ -35,7 +35,7 @@ Python dict structure
 from __future__ import annotations
 import logging
 from collections import OrderedDict
-from lark import Tree
+from lark import ParseError, Tree
 from lark.visitors import Transformer_InPlace, Transformer, v_args
 from lark.lexer import Token
 from .parser import lark_cython
@@ -770,6 +770,12 @@ class MapfileToDict:
         self.kwargs = kwargs
 
     def transform(self, tree):
+        try:
+            return self._transform(tree)
+        except RecursionError as ex:
+            raise ParseError("The Mapfile is too deeply nested") from ex
+
+    def _transform(self, tree):
         tree = Canonize().transform(tree)
 
         self.mapfile_transformer = self.transformer_class(
-- 
2.43.0


From 39c7c8de382420751288aef2532e210d31ed075c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:38 +0000
Subject: [PATCH 18/24] fix: parse repeated POINTS and comments in linear time

---
 mappyfile/parser.py      | 10 +++++-----
 mappyfile/transformer.py |  3 ++-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/mappyfile/parser.py b/mappyfile/parser.py
index 2781fd9..43650d6 100644
--- a/mappyfile/parser.py
+++ b/mappyfile/parser.py
@@ -31,6 +31,7 @@ from __future__ import annotations
 import os
 import re
 import logging
+from collections import OrderedDict
 from io import open
 from lark import Lark, ParseError, Tree, UnexpectedInput
 from typing import Any, IO
@@ -182,12 +183,11 @@ class Parser:
 
                 if node.data not in ("symbolset", "composite"):
                     line = node.meta.end_line
-                line_numbers = list(sorted(self.comments_dict.keys()))
                 comments = []
 
-                for line_number in line_numbers:
-                    if line_number <= line:
-                        comments.append(self.comments_dict.pop(line_number))
+                # the comments are ordered by line number
+                while self.comments_dict and next(iter(self.comments_dict)) <= line:
+                    comments.append(self.comments_dict.popitem(last=False)[1])
 
                 if comments:
                     node.meta.comments = comments  # type: ignore
@@ -267,7 +267,7 @@ class Parser:
 
             tree = ip.resume_parse()
             if self.include_comments:
-                self.comments_dict = {}
+                self.comments_dict = OrderedDict()
                 # create a dictionary using line numbers as keys, and comments as values
                 for c in self._comments:
                     self.comments_dict[c.line] = c.value.strip()
diff --git a/mappyfile/transformer.py b/mappyfile/transformer.py
index 3a5cde4..fff6da6 100644
--- a/mappyfile/transformer.py
+++ b/mappyfile/transformer.py
@@ -174,7 +174,8 @@ class MapfileTransformer(Transformer):
             # allow for multipart features in a nested list
             existing_points = composite_dict[key_name]
 
-            if calculate_depth(existing_points) == 2:
+            # the first item is a pair unless the points are already nested
+            if calculate_depth(existing_points[0][:1]) == 1:
                 composite_dict[key_name] = [existing_points]
 
             if key_name not in composite_dict:
-- 
2.43.0


From 0e70d6b1c0de095fe19fdb283583565f337f7323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:53 +0000
Subject: [PATCH 19/24] fix: use the alternative quotes for values containing
 quotes

---
 mappyfile/pprint.py | 22 +++++++++++-----------
 mappyfile/quoter.py | 17 +++++++++++++++++
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index a81c4bc..b3eb65f 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -193,8 +193,8 @@ class PrettyPrinter:
         for k, v in d.items():
             if not self.__is_metadata(k):
                 self.check_representation(k, v)
-                qk = self.quoter.add_quotes(k)
-                qv = self.quoter.add_quotes(v)
+                qk = self.quoter.quote_value(k)
+                qv = self.quoter.quote_value(v)
                 line = self.__format_line(
                     self.whitespace(level, 2), qk, qv, aligned_max_indent
                 )
@@ -212,9 +212,9 @@ class PrettyPrinter:
             comments = {}
         for subkey, v in d.items():
             self.check_representation(subkey, v)
-            cfg_val = self.quoter.add_quotes(subkey.upper())
+            cfg_val = self.quoter.quote_value(subkey.upper())
             k = f"CONFIG {cfg_val}"
-            v = self.quoter.add_quotes(v)
+            v = self.quoter.quote_value(v)
             line = self.__format_line(self.whitespace(level, 1), k, v)
             line += self.process_attribute_comment(comments, subkey)
             lines.append(line)
@@ -243,7 +243,7 @@ class PrettyPrinter:
         for idx, v in enumerate(lst):
             self.check_representation(key, v)
             k = key.upper()
-            v = self.quoter.add_quotes(v)
+            v = self.quoter.quote_value(v)
             line = self.__format_line(
                 self.whitespace(level, 1), k, v, aligned_max_indent
             )
@@ -264,7 +264,7 @@ class PrettyPrinter:
             lines.append(f"{whitespace}{projection_comments.strip()}")
 
         if self.quoter.is_string(lst):
-            val = self.quoter.add_quotes(str(lst))
+            val = self.quoter.quote_value(str(lst))
             # the value has been manually set to a single string projection
             lines.append(f"{whitespace}{val}")
         elif len(lst) == 1 and lst[0].upper() == "AUTO":
@@ -272,7 +272,7 @@ class PrettyPrinter:
         else:
             for v in lst:
                 self.check_representation(key, v)
-                v = self.quoter.add_quotes(v)
+                v = self.quoter.quote_value(v)
                 lines.append(f"{whitespace}{v}")
 
         lines.append(self.add_end_line(level, 1, key))
@@ -425,7 +425,7 @@ class PrettyPrinter:
             if "enum" in option and value.lower() in option["enum"]:
                 if value.lower() == "end" or attr == "compop":
                     # in GEOTRANSFORM "end" is an attribute value
-                    return self.quoter.add_quotes(value)
+                    return self.quoter.quote_value(value)
                 return value.upper()  # value is from a set list, no need for quote
 
         has_expressions = any(self.is_expression(o) for o in options_list)
@@ -455,7 +455,7 @@ class PrettyPrinter:
             # TEXT expressions are often "[field1]-[field2]" so need to leave quotes for these
             return value
 
-        return self.quoter.escape_quotes(self.quoter.add_quotes(value))
+        return self.quoter.escape_quotes(self.quoter.quote_value(value))
 
     def format_value(self, attr: str, attr_props, value: Any) -> Any:
         """
@@ -477,7 +477,7 @@ class PrettyPrinter:
 
         if not attr_props:
             # the keyword is unknown so its type cannot be checked
-            return self.quoter.escape_quotes(self.quoter.add_quotes(value))
+            return self.quoter.escape_quotes(self.quoter.quote_value(value))
 
         return self.check_options_list(attr, self.get_options(attr_props), value)
 
@@ -493,7 +493,7 @@ class PrettyPrinter:
         if isinstance(value, numbers.Number) or self.is_binding(value):
             return value
 
-        return self.quoter.add_quotes(value)
+        return self.quoter.quote_value(value)
 
     # pylint: disable=too-many-arguments
     def process_attribute(
diff --git a/mappyfile/quoter.py b/mappyfile/quoter.py
index 3d2b690..5c833b9 100644
--- a/mappyfile/quoter.py
+++ b/mappyfile/quoter.py
@@ -59,6 +59,23 @@ class Quoter:
     def _add_quotes(self, val: str, quote: str) -> str:
         return f"{quote}{val}{quote}"
 
+    def quote_value(self, val: Any) -> str:
+        """
+        Add quotes to a value, using the alternative quotes
+        if the value itself contains the default quotes
+        """
+        text = str(val)
+
+        if self._is_enclosable(text, self.quote) or not self._is_enclosable(
+            text, self.altquote
+        ):
+            return self.add_quotes(text)
+
+        return self.add_altquotes(text)
+
+    def _is_enclosable(self, val: str, quote: str) -> bool:
+        return quote not in val.replace("\\" + quote, "")
+
     def in_quotes(self, val: str) -> bool:
         return self._in_quotes(val, self.quote) or self._in_quotes(val, self.altquote)
 
-- 
2.43.0


From 63e7d59aa3aee6f5d8c59f552703b493454da530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:46 +0000
Subject: [PATCH 20/24] fix: refuse lists that have no representation in a
 Mapfile

---
 mappyfile/pprint.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index b3eb65f..85a2ae5 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -192,7 +192,7 @@ class PrettyPrinter:
 
         for k, v in d.items():
             if not self.__is_metadata(k):
-                self.check_representation(k, v)
+                self.check_single_value(k, v)
                 qk = self.quoter.quote_value(k)
                 qv = self.quoter.quote_value(v)
                 line = self.__format_line(
@@ -211,7 +211,7 @@ class PrettyPrinter:
         if not isinstance(comments, dict):
             comments = {}
         for subkey, v in d.items():
-            self.check_representation(subkey, v)
+            self.check_single_value(subkey, v)
             cfg_val = self.quoter.quote_value(subkey.upper())
             k = f"CONFIG {cfg_val}"
             v = self.quoter.quote_value(v)
@@ -241,7 +241,7 @@ class PrettyPrinter:
             lst = [lst]
 
         for idx, v in enumerate(lst):
-            self.check_representation(key, v)
+            self.check_single_value(key, v)
             k = key.upper()
             v = self.quoter.quote_value(v)
             line = self.__format_line(
@@ -271,7 +271,7 @@ class PrettyPrinter:
             lines.append(f"{whitespace}AUTO")
         else:
             for v in lst:
-                self.check_representation(key, v)
+                self.check_single_value(key, v)
                 v = self.quoter.quote_value(v)
                 lines.append(f"{whitespace}{v}")
 
@@ -287,8 +287,11 @@ class PrettyPrinter:
         lines = [self.add_start_line(key, level)]
 
         list_spacer = self.spacer * (level + 2)
-        pairs = [f"{list_spacer}{p[0]} {p[1]}" for p in pair_list]
-        lines += pairs
+
+        for x, y in pair_list:
+            self.check_single_value(key, x)
+            self.check_single_value(key, y)
+            lines.append(f"{list_spacer}{x} {y}")
 
         lines.append(self.add_end_line(level, 1, key))
 
@@ -407,6 +410,15 @@ class PrettyPrinter:
         if value is None:
             raise ValueError(f"The property {attr} has no value")
 
+    def check_single_value(self, attr: str, value: Any) -> None:
+        """
+        Lists cannot be written where only a single value is allowed
+        """
+        self.check_representation(attr, value)
+
+        if isinstance(value, (list, tuple)):
+            raise ValueError(f"The property {attr} has a list as a single value")
+
     def is_binding(self, value: Any) -> bool:
         """
         Check for attribute bindings e.g. [FIELD]
@@ -467,6 +479,8 @@ class PrettyPrinter:
         self.check_representation(attr, value)
 
         if isinstance(value, (list, tuple)):
+            if not value:
+                raise ValueError(f"The property {attr} has an empty list as a value")
             return " ".join(str(self.format_list_value(attr, v)) for v in value)
 
         if attr_props.get("type") == "string" and "enum" not in attr_props:
@@ -488,7 +502,7 @@ class PrettyPrinter:
         if isinstance(value, bool):
             return str(value).upper()
 
-        self.check_representation(attr, value)
+        self.check_single_value(attr, value)
 
         if isinstance(value, numbers.Number) or self.is_binding(value):
             return value
-- 
2.43.0


From 89a05bb1f14516b688200ad350d7c52739a46775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:13 +0000
Subject: [PATCH 21/24] fix: describe the LAYER GEOMTRANSFORM expression in the
 schema so it is not quoted

---
 mappyfile/schemas/layer.json | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mappyfile/schemas/layer.json b/mappyfile/schemas/layer.json
index 6663450..4140c75 100644
--- a/mappyfile/schemas/layer.json
+++ b/mappyfile/schemas/layer.json
@@ -125,7 +125,8 @@
         },
         {
           "type": "string",
-          "pattern": "^\\((.*?)\\)$"
+          "pattern": "^\\((.*?)\\)$",
+          "description": "expression"
         }
       ],
       "metadata": {
-- 
2.43.0


From b358d572a2a4869ef9876c384a69c0745e161801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:03 +0000
Subject: [PATCH 22/24] fix: print MAP blocks within other blocks, and lists
 and booleans of repeated keys

---
 mappyfile/pprint.py | 14 ++++++++++++--
 mappyfile/tokens.py |  1 +
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index 85a2ae5..c559790 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -241,9 +241,8 @@ class PrettyPrinter:
             lst = [lst]
 
         for idx, v in enumerate(lst):
-            self.check_single_value(key, v)
             k = key.upper()
-            v = self.quoter.quote_value(v)
+            v = self.format_repeated_value(key, v)
             line = self.__format_line(
                 self.whitespace(level, 1), k, v, aligned_max_indent
             )
@@ -252,6 +251,17 @@ class PrettyPrinter:
 
         return lines
 
+    def format_repeated_value(self, key: str, value: Any) -> str:
+        """
+        Format one of the values of a repeated key, these are quoted strings other than
+        for booleans and lists of values
+        """
+        if isinstance(value, (bool, list, tuple)):
+            return self.format_value(key, {}, value)
+
+        self.check_representation(key, value)
+        return self.quoter.quote_value(value)
+
     def process_projection(
         self, key, lst: (str | list[str]), level: int, projection_comments: str
     ) -> list[str]:
diff --git a/mappyfile/tokens.py b/mappyfile/tokens.py
index 57a4ed6..d281f5e 100644
--- a/mappyfile/tokens.py
+++ b/mappyfile/tokens.py
@@ -421,5 +421,6 @@ features
 scaletokens
 composites
 joins
+maps
 """.split()
 )
-- 
2.43.0


From 91cfe85ffbac3b148decfdb097444c76bd1b60b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:36 +0000
Subject: [PATCH 23/24] fix: only print bracketed expressions unquoted, and
 treat unknown keywords the same way

---
 mappyfile/pprint.py | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/mappyfile/pprint.py b/mappyfile/pprint.py
index c559790..a6ddc04 100644
--- a/mappyfile/pprint.py
+++ b/mappyfile/pprint.py
@@ -51,6 +51,10 @@ REGULAR_EXPRESSION = re.compile(
     r"""(/(?!\*.*\*/)[^/\n]*/i?|\\\\.*\\\\i?|"(\\"|[^"])*"i|'(\\'|[^'])*'i)\Z"""
 )
 RUNTIME_VARIABLE = re.compile(r"%[^%\n]*%\Z")
+# brackets within strings and regular expressions are not part of an expression
+EXPRESSION_PART = re.compile(
+    r"""\"(?:\\"|[^"])*\"|'(?:\\'|[^'])*'|`[^`]*`|~\*?\s*/[^/\n]*/|.""", re.DOTALL
+)
 
 
 # pylint: disable=too-many-arguments
@@ -442,6 +446,27 @@ class PrettyPrinter:
         """
         return bool(REGULAR_EXPRESSION.match(value))
 
+    def is_parenthesised(self, value: str) -> bool:
+        """
+        Check for expressions where the first bracket is closed by the last bracket,
+        unlike "([a]) and ([b])"
+        """
+        if not self.quoter.in_parenthesis(value):
+            return False
+
+        value = value.strip()
+        depth = 0
+
+        for part in EXPRESSION_PART.finditer(value):
+            if part.group() == "(":
+                depth += 1
+            elif part.group() == ")":
+                depth -= 1
+                if depth == 0:
+                    return part.end() == len(value)
+
+        return True
+
     def check_options_list(self, attr, options_list, value):
         for option in options_list:
             if "enum" in option and value.lower() in option["enum"]:
@@ -460,10 +485,10 @@ class PrettyPrinter:
             return value
 
         if has_expressions or not has_strings:
-            if self.quoter.in_parenthesis(value):
+            if self.is_parenthesised(value):
                 return value
 
-            if value.startswith("NOT ") and self.quoter.in_parenthesis(value[4:]):
+            if value.startswith("NOT ") and self.is_parenthesised(value[4:]):
                 return value
 
         if not has_strings and RUNTIME_VARIABLE.match(value):
@@ -499,10 +524,6 @@ class PrettyPrinter:
         if not self.quoter.is_string(value):
             return value
 
-        if not attr_props:
-            # the keyword is unknown so its type cannot be checked
-            return self.quoter.escape_quotes(self.quoter.quote_value(value))
-
         return self.check_options_list(attr, self.get_options(attr_props), value)
 
     def format_list_value(self, attr: str, value: Any) -> Any:
-- 
2.43.0


From 0ee0ac4e803636a6c9eaf4d7009610fe9aa08fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:00 +0000
Subject: [PATCH 24/24] fix: hidden keys of LAYER and OUTPUTFORMAT are ignored
 by the schemas

---
 mappyfile/schemas/layer.json        | 6 ------
 mappyfile/schemas/outputformat.json | 6 ------
 2 files changed, 12 deletions(-)

diff --git a/mappyfile/schemas/layer.json b/mappyfile/schemas/layer.json
index 4140c75..22ff0c1 100644
--- a/mappyfile/schemas/layer.json
+++ b/mappyfile/schemas/layer.json
@@ -9,12 +9,6 @@
     "__type__": {
       "enum": [ "layer" ]
     },
-    "__comments__": {
-      "type": "object"
-    },
-    "__position__": {
-      "type": "object"
-    },
     "include": {
       "type": "array",
       "items": {
diff --git a/mappyfile/schemas/outputformat.json b/mappyfile/schemas/outputformat.json
index 6d867ee..fb09d4f 100644
--- a/mappyfile/schemas/outputformat.json
+++ b/mappyfile/schemas/outputformat.json
@@ -8,12 +8,6 @@
     "__type__": {
       "enum": [ "outputformat" ]
     },
-    "__comments__": {
-      "type": "object"
-    },
-    "__position__": {
-      "type": "object"
-    },
     "include": {
       "type": "array",
       "items": {
-- 
2.43.0

