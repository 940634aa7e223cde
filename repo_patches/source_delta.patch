From 9c6f6d176a097b0d8b375f3dd7e39367b57087cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:24 +0000
Subject: [PATCH 01/45] fix: contain arithmetic, stringification and datetime
 failures of operators

---
 src/bare_script/runtime.py | 48 ++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 316f2fe..036784e 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -7,6 +7,7 @@ The BareScript runtime
 
 import datetime
 import functools
+import operator
 
 from .library import DEFAULT_MAX_STATEMENTS, EXPRESSION_FUNCTIONS, SCRIPT_FUNCTIONS
 from .model import lint_script
@@ -270,7 +271,7 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
         if bin_op == '+':
             # number + number
             if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
-                return left_value + right_value
+                return _number_operation(operator.add, left_value, right_value)
 
             # string + string
             elif isinstance(left_value, str) and isinstance(right_value, str):
@@ -278,22 +279,24 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
 
             # string + <any>
             elif isinstance(left_value, str):
-                return left_value + value_string(right_value)
+                right_string = _operand_string(right_value)
+                return left_value + right_string if right_string is not None else None
             elif isinstance(right_value, str):
-                return value_string(left_value) + right_value
+                left_string = _operand_string(left_value)
+                return left_string + right_value if left_string is not None else None
 
             # datetime + number
             elif isinstance(left_value, datetime.date) and isinstance(right_value, (int, float)):
                 left_dt = value_normalize_datetime(left_value)
-                return left_dt + datetime.timedelta(milliseconds=right_value)
+                return _datetime_add(left_dt, right_value)
             elif isinstance(left_value, (int, float)) and isinstance(right_value, datetime.date):
                 right_dt = value_normalize_datetime(right_value)
-                return right_dt + datetime.timedelta(milliseconds=left_value)
+                return _datetime_add(right_dt, left_value)
 
         elif bin_op == '-':
             # number - number
             if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
-                return left_value - right_value
+                return _number_operation(operator.sub, left_value, right_value)
 
             # datetime - datetime
             elif isinstance(left_value, datetime.date) and isinstance(right_value, datetime.date):
@@ -304,12 +307,12 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
         elif bin_op == '*':
             # number * number
             if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
-                return left_value * right_value
+                return _number_operation(operator.mul, left_value, right_value)
 
         elif bin_op == '/':
             # number / number
             if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
-                return left_value / right_value
+                return _number_operation(operator.truediv, left_value, right_value)
 
         elif bin_op == '==':
             return value_compare(left_value, right_value) == 0
@@ -332,12 +335,12 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
         elif bin_op == '%':
             # number % number
             if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
-                return left_value % right_value
+                return _number_operation(operator.mod, left_value, right_value)
 
         else: # bin_op == '**'
             # number ** number
             if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
-                return left_value ** right_value
+                return _number_operation(operator.pow, left_value, right_value)
 
         # Invalid operation values
         return None
@@ -359,6 +362,31 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
     return evaluate_expression(expr['group'], options, locals_, builtins)
 
 
+# Helper to compute a number operator - returns None if the operation has no number value (e.g. division by zero, overflow)
+def _number_operation(operation, left_value, right_value):
+    try:
+        result = operation(left_value, right_value)
+        return result if not isinstance(result, complex) else None
+    except ArithmeticError:
+        return None
+
+
+# Helper to stringify a string concatenation operand - returns None if the operand can't be stringified (e.g. non-finite JSON number)
+def _operand_string(value):
+    try:
+        return value_string(value)
+    except (ArithmeticError, RecursionError, TypeError, ValueError):
+        return None
+
+
+# Helper to add milliseconds to a datetime - returns None if the result is not a valid datetime
+def _datetime_add(datetime_value, milliseconds):
+    try:
+        return datetime_value + datetime.timedelta(milliseconds=milliseconds)
+    except (ArithmeticError, ValueError):
+        return None
+
+
 class BareScriptRuntimeError(Exception):
     """
     A BareScript runtime error
-- 
2.43.0


From 6bbd3f9e5a05f321a633eaa3ef208a1495dda183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:48 +0000
Subject: [PATCH 02/45] fix: arithmetic operators do not treat booleans as
 numbers

---
 src/bare_script/runtime.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 036784e..727f103 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -351,7 +351,7 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
         value = evaluate_expression(expr['unary']['expr'], options, locals_, builtins)
         if unary_op == '!':
             return not value_boolean(value)
-        elif unary_op == '-' and isinstance(value, (int, float)):
+        elif unary_op == '-' and isinstance(value, (int, float)) and not isinstance(value, bool):
             return -value
 
         # Invalid operation value
@@ -364,6 +364,10 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
 
 # Helper to compute a number operator - returns None if the operation has no number value (e.g. division by zero, overflow)
 def _number_operation(operation, left_value, right_value):
+    # Booleans are not numbers
+    if isinstance(left_value, bool) or isinstance(right_value, bool):
+        return None
+
     try:
         result = operation(left_value, right_value)
         return result if not isinstance(result, complex) else None
@@ -381,6 +385,10 @@ def _operand_string(value):
 
 # Helper to add milliseconds to a datetime - returns None if the result is not a valid datetime
 def _datetime_add(datetime_value, milliseconds):
+    # Booleans are not numbers
+    if isinstance(milliseconds, bool):
+        return None
+
     try:
         return datetime_value + datetime.timedelta(milliseconds=milliseconds)
     except (ArithmeticError, ValueError):
-- 
2.43.0


From f44d5e1e6978cb5dcd64f6b6de5752b107e3d17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:52 +0000
Subject: [PATCH 03/45] fix: number arguments do not accept booleans

---
 src/bare_script/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 7d15158..fe38375 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -297,7 +297,7 @@ def value_args_validate(fn_args, args, error_return_value=None):
             continue
 
         # Invalid value?
-        if ((arg_type == 'number' and not isinstance(arg_value, (int, float))) or
+        if ((arg_type == 'number' and (not isinstance(arg_value, (int, float)) or isinstance(arg_value, bool))) or
             (arg_type == 'string' and not isinstance(arg_value, str)) or
             (arg_type == 'array' and not isinstance(arg_value, list)) or
             (arg_type == 'object' and not isinstance(arg_value, dict)) or
-- 
2.43.0


From 26482076444426dc4747968c443876e866ba1436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:06 +0000
Subject: [PATCH 04/45] fix: arithmetic does not depend on the int or float
 spelling of a number

---
 src/bare_script/runtime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 727f103..0556583 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -352,7 +352,7 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
         if unary_op == '!':
             return not value_boolean(value)
         elif unary_op == '-' and isinstance(value, (int, float)) and not isinstance(value, bool):
-            return -value
+            return _number_operation(operator.mul, -1, value)
 
         # Invalid operation value
         return None
@@ -369,7 +369,7 @@ def _number_operation(operation, left_value, right_value):
         return None
 
     try:
-        result = operation(left_value, right_value)
+        result = operation(float(left_value), float(right_value))
         return result if not isinstance(result, complex) else None
     except ArithmeticError:
         return None
-- 
2.43.0


From 5c7edd044eb53a0e6d55046a6c4b3d9f00c9e820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:47 +0000
Subject: [PATCH 05/45] fix: arraySet accepts integral float indexes

---
 src/bare_script/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/library.py b/src/bare_script/library.py
index 00eef30..9019870 100644
--- a/src/bare_script/library.py
+++ b/src/bare_script/library.py
@@ -266,7 +266,7 @@ def _array_set(args, unused_options):
     if index >= len(array):
         raise ValueArgsError('index', index)
 
-    array[index] = value
+    array[int(index)] = value
     return value
 
 _ARRAY_SET_ARGS = value_args_model([
-- 
2.43.0


From bf8614d3b1d368d0a88d50d0c69a8681e905e99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:50 +0000
Subject: [PATCH 06/45] fix: dataTop accepts integral float counts

---
 src/bare_script/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/data.py b/src/bare_script/data.py
index 40356d2..27a56fe 100644
--- a/src/bare_script/data.py
+++ b/src/bare_script/data.py
@@ -471,7 +471,7 @@ def top_data(data, count, category_fields=None):
     data_top = []
     for category_key in category_order:
         category_key_rows = category_rows[category_key]
-        for ix_row in range(min(count, len(category_key_rows))):
+        for ix_row in range(min(int(count), len(category_key_rows))):
             data_top.append(category_key_rows[ix_row])
 
     return data_top
-- 
2.43.0


From e2ef60aa23982635d0e0452ed1dcd7a5fb28ed5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:53 +0000
Subject: [PATCH 07/45] fix: rounding does not depend on the int or float
 spelling of the digit count

---
 src/bare_script/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index fe38375..7b9b3e0 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -440,7 +440,7 @@ def value_round_number(value, digits):
     :rtype: float
     """
 
-    multiplier = 10 ** digits
+    multiplier = 10.0 ** digits
     return int(value * multiplier + (0.5 if value >= 0 else -0.5)) / multiplier
 
 
-- 
2.43.0


From 015d34f42679a1b47d810191a180abe1d0eae7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:56 +0000
Subject: [PATCH 08/45] fix: datetimeMillisecond is always in the range 0-999

---
 src/bare_script/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/library.py b/src/bare_script/library.py
index 9019870..02e22fd 100644
--- a/src/bare_script/library.py
+++ b/src/bare_script/library.py
@@ -573,7 +573,7 @@ _DATETIMEISO_PARSE_ARGS = value_args_model([
 # $return: The millisecond
 def _datetime_millisecond(args, unused_options):
     datetime_, = value_args_validate(_DATETIME_MILLISECOND_ARGS, args)
-    return int(value_round_number(value_normalize_datetime(datetime_).microsecond / 1000, 0))
+    return value_normalize_datetime(datetime_).microsecond // 1000
 
 _DATETIME_MILLISECOND_ARGS = value_args_model([
     {'name': 'datetime', 'type': 'datetime'}
-- 
2.43.0


From b6dd4a9e7f714b745cd3b096a8b2ca84165ce484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:59 +0000
Subject: [PATCH 09/45] fix: dataParseCSV preserves line breaks within quoted
 fields

---
 src/bare_script/library.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/library.py b/src/bare_script/library.py
index 02e22fd..dbb5735 100644
--- a/src/bare_script/library.py
+++ b/src/bare_script/library.py
@@ -9,6 +9,7 @@ import calendar
 import csv
 import datetime
 import functools
+import io
 import json
 import math
 import random
@@ -437,7 +438,7 @@ def _data_parse_csv(args, unused_options):
             continue
         if value_type(arg) != 'string':
             return None
-        lines.extend(arg.splitlines())
+        lines.extend(io.StringIO(arg, newline=''))
 
     # Parse the CSV
     data = list(csv.DictReader(lines, skipinitialspace=True))
-- 
2.43.0


From 7f945aff61c0b558bdfbae0127d0e1705c628665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:02 +0000
Subject: [PATCH 10/45] fix: function calls without arguments pass an empty
 argument array

---
 src/bare_script/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 0556583..d4598d1 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -224,7 +224,7 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
 
         # Compute the function arguments
         func_args = [evaluate_expression(arg, options, locals_, builtins) for arg in expr['function']['args']] \
-            if 'args' in expr['function'] else None
+            if 'args' in expr['function'] else []
 
         # Global/local function?
         if locals_ is not None and func_name in locals_:
-- 
2.43.0


From 21d22edd90c722f92f910a904049268cbd87f030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:05 +0000
Subject: [PATCH 11/45] fix: text that is not a valid date or datetime parses
 to null

---
 src/bare_script/value.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 7b9b3e0..db75b36 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -501,9 +501,15 @@ def value_parse_datetime(text):
         year = int(m_date.group('year'))
         month = int(m_date.group('month'))
         day = int(m_date.group('day'))
-        return datetime.datetime(year, month, day)
+        try:
+            return datetime.datetime(year, month, day)
+        except ValueError:
+            return None
     elif _R_DATETIME.match(text):
-        result = datetime.datetime.fromisoformat(_R_DATETIME_ZULU.sub('+00:00', text)).astimezone().replace(tzinfo=None)
+        try:
+            result = datetime.datetime.fromisoformat(_R_DATETIME_ZULU.sub('+00:00', text)).astimezone().replace(tzinfo=None)
+        except (OverflowError, ValueError):
+            return None
         return result.replace(microsecond=(result.microsecond // 1000) * 1000)
 
     return None
-- 
2.43.0


From cf3a46cbe19dd73a09fd36c1238edc413418ab0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:46 +0000
Subject: [PATCH 12/45] fix: JSON serialization does not alter string contents

---
 src/bare_script/value.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index db75b36..cefd053 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -110,11 +110,21 @@ def value_json(value, indent=None):
     """
 
     if indent is not None and indent > 0:
-        result = _JSONEncoder(allow_nan=False, indent=indent, separators=(',', ': '), sort_keys=True).encode(value)
+        result = _JSONEncoder(allow_nan=False, indent=indent, separators=(',', ': '), sort_keys=True).encode(_json_numbers(value))
     else:
-        result = _JSON_ENCODER_DEFAULT.encode(value)
-    result = _R_VALUE_JSON_NUMBER_CLEANUP.sub(r'', result)
-    return _R_VALUE_JSON_NUMBER_CLEANUP2.sub(r'\1', result)
+        result = _JSON_ENCODER_DEFAULT.encode(_json_numbers(value))
+    return result
+
+
+# Helper to replace a JSON value's integral floats with integers, which have no fraction
+def _json_numbers(value):
+    if isinstance(value, float):
+        return int(value) if value.is_integer() else value
+    elif isinstance(value, list):
+        return [_json_numbers(item) for item in value]
+    elif isinstance(value, dict):
+        return {key: _json_numbers(item) for key, item in value.items()}
+    return value
 
 
 class _JSONEncoder(json.JSONEncoder):
@@ -130,9 +140,6 @@ class _JSONEncoder(json.JSONEncoder):
 
 _JSON_ENCODER_DEFAULT = _JSONEncoder(allow_nan=False, separators=(',', ':'), sort_keys=True)
 
-_R_VALUE_JSON_NUMBER_CLEANUP = re.compile(r'\.0*$', re.MULTILINE)
-_R_VALUE_JSON_NUMBER_CLEANUP2 = re.compile(r'\.0*([,}\]])')
-
 
 def value_boolean(value):
     """
-- 
2.43.0


From f790106cdfdc20a2f449e98659d5d715f17495e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:48 +0000
Subject: [PATCH 13/45] fix: large integral numbers are stringified without a
 decimal point

---
 src/bare_script/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index cefd053..350f2d4 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -67,7 +67,7 @@ def value_string(value):
     elif isinstance(value, int):
         return str(value)
     elif isinstance(value, float):
-        return R_NUMBER_CLEANUP.sub('', str(value))
+        return f'{value:.0f}' if value.is_integer() else str(value)
     elif isinstance(value, datetime.date):
         iso = value_normalize_datetime(value).astimezone().isoformat()
         match_microsecond = _R_DATETIME_MICROSECOND.search(iso)
-- 
2.43.0


From a2687e3e7cbb362e7eda0e31b20d1ab08d6e98d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:51 +0000
Subject: [PATCH 14/45] fix: ISO dates do not have trailing newlines or
 non-ASCII digits

---
 src/bare_script/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 350f2d4..4de4655 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -521,7 +521,7 @@ def value_parse_datetime(text):
 
     return None
 
-_R_DATE = re.compile(r'^(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})$')
+_R_DATE = re.compile(r'^(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})\Z', re.ASCII)
 _R_DATETIME = re.compile(r'^\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(?:\.\d{1,6})?(?:Z|[+-]\d{2}:\d{2})$')
 _R_DATETIME_ZULU = re.compile(r'Z$')
 
-- 
2.43.0


From 969eaa9c148c259f2c95fc475dadf0cacb0e71bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:54 +0000
Subject: [PATCH 15/45] fix: number text does not contain digit separators

---
 src/bare_script/value.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 4de4655..b7779d5 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -462,6 +462,10 @@ def value_parse_number(text):
     """
 
     try:
+        # Digit separators are not part of a number
+        if '_' in text:
+            return None
+
         value = float(text)
         if math.isnan(value) or math.isinf(value):
             return None
@@ -483,7 +487,8 @@ def value_parse_integer(text, radix=10):
     """
 
     try:
-        return int(text, radix)
+        # Digit separators are not part of a number
+        return int(text, radix) if '_' not in text else None
     except ValueError:
         return None
 
-- 
2.43.0


From 8eaa00862cc9b7034e1781a875299416a0bf1836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:25 +0000
Subject: [PATCH 16/45] fix: argument errors of values without a JSON form keep
 their failure value

---
 src/bare_script/value.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index b7779d5..0dde358 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -349,10 +349,15 @@ class ValueArgsError(Exception):
     """
 
     def __init__(self, arg_name, arg_value, return_value = None):
+        try:
+            arg_json = value_json(arg_value)
+        except (RecursionError, TypeError, ValueError):
+            # The value can't be serialized (e.g. circular reference, non-finite number)
+            arg_json = f'<{value_type(arg_value)}>'
         if arg_name is None:
-            message = f'Too many arguments ({value_json(arg_value)})'
+            message = f'Too many arguments ({arg_json})'
         else:
-            message = f'Invalid "{arg_name}" argument value, {value_json(arg_value)}'
+            message = f'Invalid "{arg_name}" argument value, {arg_json}'
         super().__init__(message)
         self.return_value = return_value
 
-- 
2.43.0


From d5956ca15d1ce18aaf52f1180f066931cd780092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 17/45] fix: a dangling line continuation is a parser error

---
 src/bare_script/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 4d0ccdd..1ca6ccb 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -393,6 +393,10 @@ def parse_script(script_text, start_line_number=1):
         except BareScriptParserError as error:
             raise BareScriptParserError(error.error, line, error.column_number, start_line_number + ix_line)
 
+    # Dangling line continuation?
+    if line_continuation:
+        raise BareScriptParserError('Unterminated line continuation', ' '.join(line_continuation), 1, start_line_number + ix_line)
+
     # Dangling label definitions?
     if label_defs:
         label_def = label_defs.pop()
-- 
2.43.0


From a1d622d296daffdcc88e2680819cd478817f33cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:31 +0000
Subject: [PATCH 18/45] fix: an unterminated function definition is a parser
 error

---
 src/bare_script/parser.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 1ca6ccb..ff465cd 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -35,6 +35,8 @@ def parse_script(script_text, start_line_number=1):
     line_continuation = []
     function_def = None
     function_label_def_depth = None
+    function_def_line = None
+    function_def_line_number = None
     label_defs = []
     label_index = 0
     for ix_line_part, line_part in enumerate(lines):
@@ -89,6 +91,8 @@ def parse_script(script_text, start_line_number=1):
 
             # Add the function definition statement
             function_label_def_depth = len(label_defs)
+            function_def_line = line
+            function_def_line_number = start_line_number + ix_line
             function_def = {
                 'function': {
                     'name': match_function_begin.group('name'),
@@ -404,6 +408,10 @@ def parse_script(script_text, start_line_number=1):
         def_ = label_def[def_key]
         raise BareScriptParserError(f"Missing end{def_key} statement", def_['line'], 1, def_['lineNumber'])
 
+    # Dangling function definition?
+    if function_def is not None:
+        raise BareScriptParserError('Missing endfunction statement', function_def_line, 1, function_def_line_number)
+
     return script
 
 
-- 
2.43.0


From 47b04ee62ccf1caaaaa4c396ed2aa2cde43444fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:04 +0000
Subject: [PATCH 19/45] fix: if, elif, while and for expression errors report
 the line and column

---
 src/bare_script/parser.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index ff465cd..a45f862 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -132,7 +132,7 @@ def parse_script(script_text, start_line_number=1):
             ifthen = {
                 'jump': {
                     'label': f"__bareScriptIf{label_index}",
-                    'expr': {'unary': {'op': '!', 'expr': parse_expression(match_if_begin.group('expr'))}}
+                    'expr': {'unary': {'op': '!', 'expr': _parse_match_expression(match_if_begin, 'expr', line, start_line_number + ix_line)}}
                 },
                 'done': f"__bareScriptDone{label_index}",
                 'hasElse': False,
@@ -163,7 +163,7 @@ def parse_script(script_text, start_line_number=1):
             prev_label = ifthen['jump']['label']
             ifthen['jump'] = {
                 'label': f"__bareScriptIf{label_index}",
-                'expr': {'unary': {'op': '!', 'expr': parse_expression(match_if_else_if.group('expr'))}}
+                'expr': {'unary': {'op': '!', 'expr': _parse_match_expression(match_if_else_if, 'expr', line, start_line_number + ix_line)}}
             }
             label_index += 1
 
@@ -221,7 +221,7 @@ def parse_script(script_text, start_line_number=1):
                 'loop': f'__bareScriptLoop{label_index}',
                 'continue': f'__bareScriptLoop{label_index}',
                 'done': f'__bareScriptDone{label_index}',
-                'expr': parse_expression(match_while_begin.group('expr')),
+                'expr': _parse_match_expression(match_while_begin, 'expr', line, start_line_number + ix_line),
                 'line': line,
                 'lineNumber': start_line_number + ix_line
             }
@@ -270,7 +270,7 @@ def parse_script(script_text, start_line_number=1):
 
             # Add the for-each header statements
             statements.extend([
-                {'expr': {'name': foreach['values'], 'expr': parse_expression(match_for_begin.group('values'))}},
+                {'expr': {'name': foreach['values'], 'expr': _parse_match_expression(match_for_begin, 'values', line, start_line_number + ix_line)}},
                 {'expr': {
                     'name': foreach['length'],
                     'expr': {'function': {'name': 'arrayLength', 'args': [{'variable': foreach['values']}]}}
@@ -443,6 +443,14 @@ _R_SCRIPT_BREAK = re.compile(r'^\s*break\s*$')
 _R_SCRIPT_CONTINUE = re.compile(r'^\s*continue\s*$')
 
 
+# Helper function to parse a line match's expression group
+def _parse_match_expression(match, group, line, line_number):
+    try:
+        return parse_expression(match.group(group))
+    except BareScriptParserError as error:
+        raise BareScriptParserError(error.error, line, match.start(group) + error.column_number, line_number)
+
+
 def parse_expression(expr_text):
     """
     Parse a BareScript expression
-- 
2.43.0


From f1c2914072513c8a858f59799556d6d60d2cd74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:07 +0000
Subject: [PATCH 20/45] fix: continue re-tests the condition of a while loop

---
 src/bare_script/parser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index a45f862..29ab345 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -217,11 +217,13 @@ def parse_script(script_text, start_line_number=1):
         match_while_begin = _R_SCRIPT_WHILE_BEGIN.match(line)
         if match_while_begin:
             # Add the while-do label
+            while_expr = _parse_match_expression(match_while_begin, 'expr', line, start_line_number + ix_line)
+            while_is_true = (while_expr == {'variable': 'true'})
             whiledo = {
                 'loop': f'__bareScriptLoop{label_index}',
-                'continue': f'__bareScriptLoop{label_index}',
+                'continue': f'__bareScript{"Loop" if while_is_true else "Continue"}{label_index}',
                 'done': f'__bareScriptDone{label_index}',
-                'expr': _parse_match_expression(match_while_begin, 'expr', line, start_line_number + ix_line),
+                'expr': while_expr,
                 'line': line,
                 'lineNumber': start_line_number + ix_line
             }
@@ -246,6 +248,8 @@ def parse_script(script_text, start_line_number=1):
                 raise BareScriptParserError('No matching while statement', line, 1, start_line_number + ix_line)
 
             # Add the while-do footer statements
+            if whiledo.get('hasContinue') and whiledo['continue'] != whiledo['loop']:
+                statements.append({'label': whiledo['continue']})
             statements.append({'jump': {'label': whiledo['loop'], 'expr': whiledo['expr']}})
             statements.append({'label': whiledo['done']})
             continue
-- 
2.43.0


From 0f5fdd3265c513921ab16943cc5074963e106164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:42 +0000
Subject: [PATCH 21/45] fix: included statements count toward the statement
 limit

---
 src/bare_script/runtime.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index d4598d1..360fc1f 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -140,7 +140,10 @@ def _execute_script_helper(statements, options, locals_):
                 # Execute the include script
                 include_options = options.copy()
                 include_options['urlFn'] = functools.partial(url_file_relative, url)
-                _execute_script_helper(script['statements'], include_options, None)
+                try:
+                    _execute_script_helper(script['statements'], include_options, None)
+                finally:
+                    options['statementCount'] = include_options['statementCount']
 
         # Increment the statement counter
         ix_statement += 1
-- 
2.43.0


From be519f5431730f81428a4685cc2fef5730ace8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:45 +0000
Subject: [PATCH 22/45] fix: statements executed by data expressions with
 variables count toward the statement limit

---
 src/bare_script/data.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/bare_script/data.py b/src/bare_script/data.py
index 27a56fe..05e650c 100644
--- a/src/bare_script/data.py
+++ b/src/bare_script/data.py
@@ -25,6 +25,12 @@ def _import_evaluate_expression():
 _EVALUATE_EXPRESSION = []
 
 
+# Helper to update the script's statement count with statements executed using a copy of the options
+def _update_statement_count(options, eval_options):
+    if options is not None and 'statementCount' in eval_options:
+        options['statementCount'] = eval_options['statementCount']
+
+
 def validate_data(data, csv=False):
     """
     Determine data field types and parse/validate field values
@@ -216,6 +222,7 @@ def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=Fa
         elif not is_left_join:
             data.append(dict(left_row))
 
+    _update_statement_count(options, eval_options)
     return data
 
 
@@ -255,6 +262,7 @@ def add_calculated_field(data, field_name, expr, variables=None, options=None):
     for row in data:
         row[field_name] = evaluate_expression(calc_expr, eval_options, row)
 
+    _update_statement_count(options, eval_options)
     return data
 
 
@@ -294,6 +302,7 @@ def filter_data(data, expr, variables=None, options=None):
         if value_boolean(evaluate_expression(filter_expr, eval_options, row)):
             result.append(row)
 
+    _update_statement_count(options, eval_options)
     return result
 
 
-- 
2.43.0


From 851fdee187c0fdf6245831170ce3b62b36585793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:48 +0000
Subject: [PATCH 23/45] fix: include parser errors are not swallowed by
 function calls

---
 src/bare_script/runtime.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 360fc1f..9b20cd6 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -126,7 +126,7 @@ def _execute_script_helper(statements, options, locals_):
                 try:
                     script = parse_script(script_text)
                 except BareScriptParserError as exc:
-                    raise BareScriptParserError(exc.error, exc.line, exc.column_number, exc.line_number, f'Included from "{url}"')
+                    raise _IncludeParserError(exc.error, exc.line, exc.column_number, exc.line_number, f'Included from "{url}"')
 
                 # Run the bare-script linter?
                 if log_fn is not None and options.get('debug'):
@@ -240,7 +240,7 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
             # Call the function
             try:
                 return func_value(func_args, options)
-            except BareScriptRuntimeError:
+            except (BareScriptRuntimeError, _IncludeParserError):
                 raise
             except Exception as error: # pylint: disable=broad-exception-caught
                 # Log and return null
@@ -398,6 +398,11 @@ def _datetime_add(datetime_value, milliseconds):
         return None
 
 
+# An include script's parser error - unlike expression parser errors, it is not contained by function calls
+class _IncludeParserError(BareScriptParserError):
+    pass
+
+
 class BareScriptRuntimeError(Exception):
     """
     A BareScript runtime error
-- 
2.43.0


From d061fbe79eb93b22292d8aa12f1b792de4bcb355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:26 +0000
Subject: [PATCH 24/45] fix: diffLines returns the identical blocks

---
 src/bare_script/include/diff.bare | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/include/diff.bare b/src/bare_script/include/diff.bare
index 39ba415..2d441c7 100644
--- a/src/bare_script/include/diff.bare
+++ b/src/bare_script/include/diff.bare
@@ -99,12 +99,12 @@ function diffLines(left, right):
             ixRight = ixRight + 1
         endwhile
         if identicalLines:
-            arrayPush(objectdiffs, objectNew('type', 'Identical', 'lines', identicalLines))
+            arrayPush(diffs, objectNew('type', 'Identical', 'lines', identicalLines))
             continue
         endif
 
         # Look ahead to find next matching point
-        foundMatch = False
+        foundMatch = false
         ixLeftTmp = ixLeft
         while ixLeftTmp < leftLength:
             ixRightTmp = ixRight
-- 
2.43.0


From a9d7a8598ba79108db699e3254d253c812eb03ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:28 +0000
Subject: [PATCH 25/45] fix: data functions bucket rows by value, not by JSON
 text

---
 src/bare_script/data.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/bare_script/data.py b/src/bare_script/data.py
index 05e650c..2d78ae5 100644
--- a/src/bare_script/data.py
+++ b/src/bare_script/data.py
@@ -13,7 +13,7 @@ import statistics
 from schema_markdown import parse_schema_markdown, validate_type
 
 from .parser import parse_expression
-from .value import value_boolean, value_compare, value_json, value_parse_datetime, value_parse_number
+from .value import value_boolean, value_compare, value_json, value_normalize_datetime, value_parse_datetime, value_parse_number, value_type
 
 
 # Helper to dynamically import evaluate_expression to avoid the circular dependency
@@ -25,6 +25,17 @@ def _import_evaluate_expression():
 _EVALUATE_EXPRESSION = []
 
 
+# Helper to compute a value's bucket key - unlike JSON text, keys are equal only if the values are equal
+def _value_key(value):
+    if isinstance(value, datetime.date):
+        return ('datetime', value_normalize_datetime(value))
+    elif isinstance(value, list):
+        return ('array', tuple(_value_key(item) for item in value))
+    elif isinstance(value, dict):
+        return ('object', tuple((key, _value_key(value[key])) for key in sorted(value)))
+    return (value_type(value), value_json(value))
+
+
 # Helper to update the script's statement count with statements executed using a copy of the options
 def _update_statement_count(options, eval_options):
     if options is not None and 'statementCount' in eval_options:
@@ -204,7 +215,7 @@ def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=Fa
     # Bucket the right rows by the right expression value
     right_category_rows = {}
     for right_row in right_data:
-        category_key = value_json(evaluate_expression(right_expression, eval_options, right_row))
+        category_key = _value_key(evaluate_expression(right_expression, eval_options, right_row))
         if category_key not in right_category_rows:
             right_category_rows[category_key] = []
         right_category_rows[category_key].append(right_row)
@@ -212,7 +223,7 @@ def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=Fa
     # Join the left with the right
     data = []
     for left_row in left_data:
-        category_key = value_json(evaluate_expression(left_expression, eval_options, left_row))
+        category_key = _value_key(evaluate_expression(left_expression, eval_options, left_row))
         if category_key in right_category_rows:
             for right_row in right_category_rows[category_key]:
                 join_row = dict(left_row)
@@ -329,7 +340,7 @@ def aggregate_data(data, aggregation):
         category_values = [row.get(category) for category in categories] if categories is not None else None
 
         # Get or create the aggregate row
-        row_key = value_json(category_values) if category_values is not None else ''
+        row_key = _value_key(category_values) if category_values is not None else ''
         if row_key in category_rows:
             aggregate_row = category_rows[row_key]
         else:
@@ -470,7 +481,7 @@ def top_data(data, count, category_fields=None):
     category_rows = {}
     category_order = []
     for row in data:
-        category_key = '' if category_fields is None else value_json([row.get(field) for field in category_fields])
+        category_key = '' if category_fields is None else _value_key([row.get(field) for field in category_fields])
         if category_key not in category_rows:
             category_rows[category_key] = []
             category_order.append(category_key)
-- 
2.43.0


From 8536d9adf3cd526ee07991ff09f7be8403488612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:10 +0000
Subject: [PATCH 26/45] fix: functions with single-character names can be
 called

---
 src/bare_script/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 29ab345..a9797c6 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -616,7 +616,7 @@ def _parse_unary_expression(expr_text):
 # BareScript expression regex
 _R_EXPR_BINARY_OP = re.compile(r'^\s*(\*\*|\*|\/|%|\+|-|<=|<|>=|>|==|!=|&&|\|\|)')
 _R_EXPR_UNARY_OP = re.compile(r'^\s*(!|-)')
-_R_EXPR_FUNCTION_OPEN = re.compile(r'^\s*([A-Za-z_]\w+)\s*\(')
+_R_EXPR_FUNCTION_OPEN = re.compile(r'^\s*([A-Za-z_]\w*)\s*\(')
 _R_EXPR_FUNCTION_SEPARATOR = re.compile(r'^\s*,')
 _R_EXPR_FUNCTION_CLOSE = re.compile(r'^\s*\)')
 _R_EXPR_GROUP_OPEN = re.compile(r'^\s*\(')
-- 
2.43.0


From a42d8882f8b44e15a70fa101a480e78266361678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:14 +0000
Subject: [PATCH 27/45] fix: accept trailing blanks after a bare return

---
 src/bare_script/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index a9797c6..72518bd 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -432,7 +432,7 @@ _R_SCRIPT_FUNCTION_ARG_SPLIT = re.compile(r'\s*,\s*')
 _R_SCRIPT_FUNCTION_END = re.compile(r'^\s*endfunction\s*$')
 _R_SCRIPT_LABEL = re.compile(r'^\s*(?P<name>[A-Za-z_]\w*)\s*:\s*$')
 _R_SCRIPT_JUMP = re.compile(r'^(?P<jump>\s*(?:jump|jumpif\s*\((?P<expr>.+)\)))\s+(?P<name>[A-Za-z_]\w*)\s*$')
-_R_SCRIPT_RETURN = re.compile(r'^(?P<return>\s*return(?:\s+(?P<expr>.+))?)\s*$')
+_R_SCRIPT_RETURN = re.compile(r'^(?P<return>\s*return(?:\s+(?P<expr>\S.*))?)\s*$')
 _R_SCRIPT_INCLUDE = re.compile(r'^\s*include\s+(?P<delim>\')(?P<url>(?:\\\'|[^\'])*)\'\s*$')
 _R_SCRIPT_INCLUDE_SYSTEM = re.compile(r'^\s*include\s+(?P<delim><)(?P<url>[^>]*)>\s*$')
 _R_SCRIPT_IF_BEGIN = re.compile(r'^\s*if\s+(?P<expr>.+)\s*:\s*$')
-- 
2.43.0


From cbc02c2309b5408ca99a830e4e8c0598067189b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:13 +0000
Subject: [PATCH 28/45] fix: do not collect the first argument when
 lastArgArray is false

---
 src/bare_script/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 9b20cd6..b4fc831 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -158,7 +158,7 @@ def _script_function(function, args, options):
     if func_args is not None:
         args_length = len(args)
         func_args_length = len(func_args)
-        ix_arg_last = function.get('lastArgArray', None) and (func_args_length - 1)
+        ix_arg_last = (func_args_length - 1) if function.get('lastArgArray') else None
         for ix_arg in range(func_args_length):
             arg_name = func_args[ix_arg]
             if ix_arg < args_length:
-- 
2.43.0


From 264327adfa9d13a92be58afe6b229004dfb046a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:25 +0000
Subject: [PATCH 29/45] fix: a null logFn option is no log function when
 reporting a failed call

---
 src/bare_script/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index b4fc831..07b8e78 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -244,7 +244,7 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
                 raise
             except Exception as error: # pylint: disable=broad-exception-caught
                 # Log and return null
-                if options is not None and 'logFn' in options and options.get('debug'):
+                if options is not None and options.get('logFn') is not None and options.get('debug'):
                     options['logFn'](f'BareScript: Function "{func_name}" failed with error: {error}')
                 if isinstance(error, ValueArgsError):
                     return error.return_value
-- 
2.43.0


From c6d06b7d98d107bba38a8855ee7e134b9e4b4668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:15 +0000
Subject: [PATCH 30/45] fix: dataAggregate sum gives the same total for int and
 float spellings of the measures

---
 src/bare_script/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/data.py b/src/bare_script/data.py
index 2d78ae5..5b4d46b 100644
--- a/src/bare_script/data.py
+++ b/src/bare_script/data.py
@@ -8,6 +8,7 @@ The BareScript data manipulation library
 import datetime
 import functools
 import importlib
+import math
 import statistics
 
 from schema_markdown import parse_schema_markdown, validate_type
@@ -375,7 +376,7 @@ def aggregate_data(data, aggregation):
             elif func == 'min':
                 aggregate_row[field] = min(measure_values)
             elif func == 'sum':
-                aggregate_row[field] = sum(measure_values)
+                aggregate_row[field] = math.fsum(measure_values)
             elif func == 'stddev':
                 aggregate_row[field] = statistics.pstdev(measure_values)
             else: # func == 'average'
-- 
2.43.0


From 9065cc4eaef61817d15a7d516081b59000a6edad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:24 +0000
Subject: [PATCH 31/45] fix: arraySort sorted in place, so the array was empty
 for the compare function and a failed sort could reorder it

---
 src/bare_script/library.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/library.py b/src/bare_script/library.py
index dbb5735..72e9af2 100644
--- a/src/bare_script/library.py
+++ b/src/bare_script/library.py
@@ -330,9 +330,9 @@ _ARRAY_SLICE_ARGS = value_args_model([
 def _array_sort(args, options):
     array, compare_fn = value_args_validate(_ARRAY_SORT_ARGS, args)
     if compare_fn is None:
-        array.sort(key=functools.cmp_to_key(value_compare))
+        array[:] = sorted(array, key=functools.cmp_to_key(value_compare))
     else:
-        array.sort(key=functools.cmp_to_key(lambda v1, v2: compare_fn([v1, v2], options)))
+        array[:] = sorted(array, key=functools.cmp_to_key(lambda v1, v2: compare_fn([v1, v2], options)))
     return array
 
 _ARRAY_SORT_ARGS = value_args_model([
-- 
2.43.0


From efdac3fe1b5e20c8b4c3d1de6ab0fbd8e618e420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:57 +0000
Subject: [PATCH 32/45] fix: resolve an include in a function body relative to
 the file that contains the function

---
 src/bare_script/runtime.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 07b8e78..bace914 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -42,10 +42,10 @@ def execute_script(script, options=None):
 
     # Execute the script
     options['statementCount'] = 0
-    return _execute_script_helper(script['statements'], options, None)
+    return _execute_script_helper(script['statements'], options, None, options.get('urlFn'))
 
 
-def _execute_script_helper(statements, options, locals_):
+def _execute_script_helper(statements, options, locals_, url_fn):
     globals_ = options['globals']
 
     # Iterate each script statement
@@ -97,14 +97,13 @@ def _execute_script_helper(statements, options, locals_):
 
         # Function?
         elif statement_key == 'function':
-            globals_[statement['function']['name']] = functools.partial(_script_function, statement['function'])
+            globals_[statement['function']['name']] = functools.partial(_script_function, statement['function'], url_fn)
 
         # Include?
         elif statement_key == 'include':
             system_prefix = options.get('systemPrefix')
             fetch_fn = options.get('fetchFn')
             log_fn = options.get('logFn')
-            url_fn = options.get('urlFn')
             for include in statement['include']['includes']:
                 url = include['url']
 
@@ -141,7 +140,7 @@ def _execute_script_helper(statements, options, locals_):
                 include_options = options.copy()
                 include_options['urlFn'] = functools.partial(url_file_relative, url)
                 try:
-                    _execute_script_helper(script['statements'], include_options, None)
+                    _execute_script_helper(script['statements'], include_options, None, include_options['urlFn'])
                 finally:
                     options['statementCount'] = include_options['statementCount']
 
@@ -151,8 +150,8 @@ def _execute_script_helper(statements, options, locals_):
     return None
 
 
-# Runtime script function implementation
-def _script_function(function, args, options):
+# Runtime script function implementation. The URL function is that of the file containing the function definition.
+def _script_function(function, url_fn, args, options):
     func_locals = {}
     func_args = function.get('args')
     if func_args is not None:
@@ -165,7 +164,7 @@ def _script_function(function, args, options):
                 func_locals[arg_name] = args[ix_arg] if ix_arg != ix_arg_last else args[ix_arg:]
             else:
                 func_locals[arg_name] = [] if ix_arg == ix_arg_last else None
-    return _execute_script_helper(function['statements'], options, func_locals)
+    return _execute_script_helper(function['statements'], options, func_locals, url_fn)
 
 
 def evaluate_expression(expr, options=None, locals_=None, builtins=True):
-- 
2.43.0


From da0942157869ee0ee2459bef5bea8601c46e197d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:28 +0000
Subject: [PATCH 33/45] fix: lint nested function statements

---
 src/bare_script/model.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/bare_script/model.py b/src/bare_script/model.py
index ca872d9..813b97c 100644
--- a/src/bare_script/model.py
+++ b/src/bare_script/model.py
@@ -5,6 +5,8 @@
 The BareScript runtime model and related utilities
 """
 
+from collections import deque
+
 from schema_markdown import parse_schema_markdown, validate_type
 
 
@@ -271,11 +273,13 @@ def lint_script(script):
                 f'Global variable "{var_name}" used (index {var_uses[var_name]}) before assignment (index {var_assigns[var_name]})'
             )
 
-    # Iterate global statements
-    functions_defined = {}
+    # Iterate global statements - nested function statements are added as they are found
     labels_defined = {}
     labels_used = {}
-    for ix_statement, statement in enumerate(script['statements']):
+    global_functions_defined = {}
+    statements = deque((ix_statement, statement, global_functions_defined) for ix_statement, statement in enumerate(script['statements']))
+    while statements:
+        ix_statement, statement, functions_defined = statements.popleft()
         statement_key = next(iter(statement.keys()))
 
         # Function definition checks
@@ -325,6 +329,7 @@ def lint_script(script):
                             warnings.append(f'Unused argument "{arg}" of function "{function_name}" (index {ix_statement})')
 
             # Iterate function statements
+            fn_functions_defined = {}
             fn_labels_defined = {}
             fn_labels_used = {}
             for ix_fn_statement, fn_statement in enumerate(statement['function']['statements']):
@@ -351,6 +356,10 @@ def lint_script(script):
                 elif fn_statement_key == 'jump':
                     fn_labels_used[fn_statement['jump']['label']] = ix_fn_statement
 
+                # Nested function definition
+                elif fn_statement_key == 'function':
+                    statements.append((ix_fn_statement, fn_statement, fn_functions_defined))
+
             # Unused function labels?
             for label in sorted(fn_labels_defined.keys()):
                 if label not in fn_labels_used:
-- 
2.43.0


From 8b86254da3c09c7c636ab0ec85ac18b2cfc292f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:23 +0000
Subject: [PATCH 34/45] fix: data functions bucket rows with infinite key
 values

---
 src/bare_script/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bare_script/data.py b/src/bare_script/data.py
index 5b4d46b..342fe1c 100644
--- a/src/bare_script/data.py
+++ b/src/bare_script/data.py
@@ -34,6 +34,8 @@ def _value_key(value):
         return ('array', tuple(_value_key(item) for item in value))
     elif isinstance(value, dict):
         return ('object', tuple((key, _value_key(value[key])) for key in sorted(value)))
+    elif isinstance(value, (int, float, str)):
+        return (value_type(value), value)
     return (value_type(value), value_json(value))
 
 
-- 
2.43.0


From 707c8c9bb79860dac5231499e50e103d567dd995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:26 +0000
Subject: [PATCH 35/45] fix: CSV text that merely resembles a date is kept as a
 string in a datetime column

---
 src/bare_script/data.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/data.py b/src/bare_script/data.py
index 342fe1c..5831240 100644
--- a/src/bare_script/data.py
+++ b/src/bare_script/data.py
@@ -9,6 +9,7 @@ import datetime
 import functools
 import importlib
 import math
+import re
 import statistics
 
 from schema_markdown import parse_schema_markdown, validate_type
@@ -129,7 +130,10 @@ def validate_data(data, csv=False):
                     else:
                         datetime_value = value_parse_datetime(value)
                         if datetime_value is None:
-                            throw_field_error(field, field_type, value)
+                            # Text that merely resembles a date is kept as a string
+                            if not _R_DATE_LIKE.match(value):
+                                throw_field_error(field, field_type, value)
+                            datetime_value = value
                     row[field] = datetime_value
                 elif value is not None and not isinstance(value, datetime.date):
                     throw_field_error(field, field_type, value)
@@ -154,6 +158,8 @@ def validate_data(data, csv=False):
 
     return types
 
+_R_DATE_LIKE = re.compile(r'^\d{4}-\d{2}-\d{2}(?:T\d{2}:\d{2}:\d{2}|$)')
+
 
 def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=False, variables=None, options=None):
     """
-- 
2.43.0


From ce763a451284717b368635cb50e2db5907d15916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:50 +0000
Subject: [PATCH 36/45] fix: dataAggregate computes each measure from its own
 values

---
 src/bare_script/data.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/bare_script/data.py b/src/bare_script/data.py
index 5831240..0c2b92e 100644
--- a/src/bare_script/data.py
+++ b/src/bare_script/data.py
@@ -344,6 +344,7 @@ def aggregate_data(data, aggregation):
 
     # Create the aggregate rows
     category_rows = {}
+    category_measures = {}
     for row in data:
         # Compute the category values
         category_values = [row.get(category) for category in categories] if categories is not None else None
@@ -360,21 +361,19 @@ def aggregate_data(data, aggregation):
                     aggregate_row[category] = category_values[ix_category_field]
 
         # Add to the aggregate measure values
-        for measure in aggregation['measures']:
-            field = measure.get('name', measure['field'])
+        row_measures = category_measures.setdefault(row_key, [[] for _ in aggregation['measures']])
+        for ix_measure, measure in enumerate(aggregation['measures']):
             value = row.get(measure['field'])
-            if field not in aggregate_row:
-                aggregate_row[field] = []
             if value is not None:
-                aggregate_row[field].append(value)
+                row_measures[ix_measure].append(value)
 
     # Compute the measure values aggregate function value
     aggregate_rows = list(category_rows.values())
-    for aggregate_row in aggregate_rows:
-        for measure in aggregation['measures']:
+    for row_key, aggregate_row in category_rows.items():
+        for ix_measure, measure in enumerate(aggregation['measures']):
             field = measure.get('name', measure['field'])
             func = measure['function']
-            measure_values = aggregate_row[field]
+            measure_values = category_measures[row_key][ix_measure]
             if len(measure_values) == 0:
                 aggregate_row[field] = None
             elif func == 'count':
-- 
2.43.0


From 12a89cad0e3ab4697135af5cf168dbd0de349c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:56 +0000
Subject: [PATCH 37/45] fix: dataAggregate min and max compare dates and
 datetimes

---
 src/bare_script/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/data.py b/src/bare_script/data.py
index 0c2b92e..13f0a68 100644
--- a/src/bare_script/data.py
+++ b/src/bare_script/data.py
@@ -379,9 +379,9 @@ def aggregate_data(data, aggregation):
             elif func == 'count':
                 aggregate_row[field] = len(measure_values)
             elif func == 'max':
-                aggregate_row[field] = max(measure_values)
+                aggregate_row[field] = max(measure_values, key=functools.cmp_to_key(value_compare))
             elif func == 'min':
-                aggregate_row[field] = min(measure_values)
+                aggregate_row[field] = min(measure_values, key=functools.cmp_to_key(value_compare))
             elif func == 'sum':
                 aggregate_row[field] = math.fsum(measure_values)
             elif func == 'stddev':
-- 
2.43.0


From bdaed1eddc206bb8622e7b6159dd94345154b0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:58 +0000
Subject: [PATCH 38/45] fix: dataAggregate sum of measures that overflow is
 infinite, not a failure

---
 src/bare_script/data.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/data.py b/src/bare_script/data.py
index 13f0a68..ffaf27e 100644
--- a/src/bare_script/data.py
+++ b/src/bare_script/data.py
@@ -383,7 +383,7 @@ def aggregate_data(data, aggregation):
             elif func == 'min':
                 aggregate_row[field] = min(measure_values, key=functools.cmp_to_key(value_compare))
             elif func == 'sum':
-                aggregate_row[field] = math.fsum(measure_values)
+                aggregate_row[field] = _sum_values(measure_values)
             elif func == 'stddev':
                 aggregate_row[field] = statistics.pstdev(measure_values)
             else: # func == 'average'
@@ -392,6 +392,14 @@ def aggregate_data(data, aggregation):
     return aggregate_rows
 
 
+# Helper to sum measure values - a total outside the range of finite numbers is not an error
+def _sum_values(values):
+    try:
+        return math.fsum(values)
+    except (OverflowError, ValueError):
+        return sum(float(value) for value in values)
+
+
 # The aggregation model
 AGGREGATION_TYPES = parse_schema_markdown('''\
 group "Aggregation"
-- 
2.43.0


From fe112b25723b0dcbf5e5d0b4a4bcf4da2060dd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:04 +0000
Subject: [PATCH 39/45] fix: ISO text of datetimes within a day of the datetime
 range limits

---
 src/bare_script/value.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 0dde358..f1a1459 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -69,7 +69,7 @@ def value_string(value):
     elif isinstance(value, float):
         return f'{value:.0f}' if value.is_integer() else str(value)
     elif isinstance(value, datetime.date):
-        iso = value_normalize_datetime(value).astimezone().isoformat()
+        iso = _datetime_local(value_normalize_datetime(value)).isoformat()
         match_microsecond = _R_DATETIME_MICROSECOND.search(iso)
         if match_microsecond is not None:
             microsecond_begin, microsecond_end = match_microsecond.span()
@@ -524,7 +524,7 @@ def value_parse_datetime(text):
             return None
     elif _R_DATETIME.match(text):
         try:
-            result = datetime.datetime.fromisoformat(_R_DATETIME_ZULU.sub('+00:00', text)).astimezone().replace(tzinfo=None)
+            result = _datetime_local(datetime.datetime.fromisoformat(_R_DATETIME_ZULU.sub('+00:00', text))).replace(tzinfo=None)
         except (OverflowError, ValueError):
             return None
         return result.replace(microsecond=(result.microsecond // 1000) * 1000)
@@ -536,6 +536,16 @@ _R_DATETIME = re.compile(r'^\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(?:\.\d{1,6})?(?:
 _R_DATETIME_ZULU = re.compile(r'Z$')
 
 
+# Helper to get the local-timezone-aware datetime. Python can't determine the UTC offset of a datetime within a day of the
+# limits of the datetime range - in that case, use the UTC offset of the nearest datetime whose offset can be determined.
+def _datetime_local(value):
+    try:
+        return value.astimezone()
+    except (OverflowError, ValueError):
+        offset_delta = datetime.timedelta(days=2 if value.year == datetime.MINYEAR else -2)
+        return (value + offset_delta).astimezone() - offset_delta
+
+
 def value_normalize_datetime(value):
     """
     Normalize a datetime value
-- 
2.43.0


From 630eb74ef2e51aa8948f74891b53c470af93e491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:07 +0000
Subject: [PATCH 40/45] fix: OverflowError normalizing an aware datetime that
 is out of range in the local time zone

---
 src/bare_script/value.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index f1a1459..d332e9d 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -558,6 +558,10 @@ def value_normalize_datetime(value):
 
     if isinstance(value, datetime.datetime):
         if value.tzinfo is not None:
-            return value.astimezone().replace(tzinfo=None)
+            try:
+                return _datetime_local(value).replace(tzinfo=None)
+            except (OverflowError, ValueError):
+                # The local datetime is out of range - use the nearest datetime
+                return datetime.datetime.min if value.year == datetime.MINYEAR else datetime.datetime.max
         return value
     return datetime.datetime(value.year, value.month, value.day)
-- 
2.43.0


From aac3160b937549606e034f38ab688a931a078c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:12 +0000
Subject: [PATCH 41/45] fix: RecursionError parsing a deeply nested expression

---
 src/bare_script/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 72518bd..4a55af3 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -473,6 +473,8 @@ def parse_expression(expr_text):
     except BareScriptParserError as error:
         column_number = len(expr_text) - len(error.line) + 1
         raise BareScriptParserError(error.error, expr_text, column_number)
+    except RecursionError:
+        raise BareScriptParserError('Expression too deeply nested', expr_text)
 
 
 # Helper function to parse a binary operator expression chain
-- 
2.43.0


From cec210e8590c023cd788084823f359785f330762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:23 +0000
Subject: [PATCH 42/45] fix: RecursionError comparing circular values

---
 src/bare_script/runtime.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index bace914..ff1dc42 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -317,22 +317,22 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
                 return _number_operation(operator.truediv, left_value, right_value)
 
         elif bin_op == '==':
-            return value_compare(left_value, right_value) == 0
+            return _compare_operation(operator.eq, left_value, right_value)
 
         elif bin_op == '!=':
-            return value_compare(left_value, right_value) != 0
+            return _compare_operation(operator.ne, left_value, right_value)
 
         elif bin_op == '<=':
-            return value_compare(left_value, right_value) <= 0
+            return _compare_operation(operator.le, left_value, right_value)
 
         elif bin_op == '<':
-            return value_compare(left_value, right_value) < 0
+            return _compare_operation(operator.lt, left_value, right_value)
 
         elif bin_op == '>=':
-            return value_compare(left_value, right_value) >= 0
+            return _compare_operation(operator.ge, left_value, right_value)
 
         elif bin_op == '>':
-            return value_compare(left_value, right_value) > 0
+            return _compare_operation(operator.gt, left_value, right_value)
 
         elif bin_op == '%':
             # number % number
@@ -377,6 +377,14 @@ def _number_operation(operation, left_value, right_value):
         return None
 
 
+# Helper to compute a comparison operator - returns None if the operands can't be compared (e.g. circular reference)
+def _compare_operation(operation, left_value, right_value):
+    try:
+        return operation(value_compare(left_value, right_value), 0)
+    except RecursionError:
+        return None
+
+
 # Helper to stringify a string concatenation operand - returns None if the operand can't be stringified (e.g. non-finite JSON number)
 def _operand_string(value):
     try:
-- 
2.43.0


From ec66ee75e981322138878dfc660b169dd9362bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:36 +0000
Subject: [PATCH 43/45] fix: RecursionError of a script that includes itself

---
 src/bare_script/runtime.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index ff1dc42..a1fe4bd 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -141,6 +141,9 @@ def _execute_script_helper(statements, options, locals_, url_fn):
                 include_options['urlFn'] = functools.partial(url_file_relative, url)
                 try:
                     _execute_script_helper(script['statements'], include_options, None, include_options['urlFn'])
+                except RecursionError:
+                    # Includes nested too deeply (e.g. a script that includes itself)
+                    raise BareScriptRuntimeError(f'Include of "{url}" failed') # pylint: disable=raise-missing-from
                 finally:
                     options['statementCount'] = include_options['statementCount']
 
-- 
2.43.0


From 33d0803b8034380d3f5e00be4bad59a95cc9b5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:09 +0000
Subject: [PATCH 44/45] fix: dataJoin gives two colliding right fields the same
 new name

---
 src/bare_script/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/data.py b/src/bare_script/data.py
index ffaf27e..78019d8 100644
--- a/src/bare_script/data.py
+++ b/src/bare_script/data.py
@@ -203,7 +203,7 @@ def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=Fa
         else:
             ix_unique = 2
             unique_name = f'{field_name}{ix_unique}'
-            while unique_name in left_names or unique_name in right_names or unique_name in right_names_raw:
+            while unique_name in left_names or unique_name in right_names.values() or unique_name in right_names_raw:
                 ix_unique += 1
                 unique_name = f'{field_name}{ix_unique}'
             right_names[field_name] = unique_name
-- 
2.43.0


From 2ad25601dd5cc90ae7f58abb3a45dd1a5cf8390b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:02 +0000
Subject: [PATCH 45/45] fix: TypeError comparing objects with mixed-type keys

---
 src/bare_script/runtime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index a1fe4bd..ab0dfdc 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -380,11 +380,11 @@ def _number_operation(operation, left_value, right_value):
         return None
 
 
-# Helper to compute a comparison operator - returns None if the operands can't be compared (e.g. circular reference)
+# Helper to compute a comparison operator - returns None if the operands can't be compared (e.g. circular reference, mixed-type keys)
 def _compare_operation(operation, left_value, right_value):
     try:
         return operation(value_compare(left_value, right_value), 0)
-    except RecursionError:
+    except (RecursionError, TypeError):
         return None
 
 
-- 
2.43.0

