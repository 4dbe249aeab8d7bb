From 8d69b502712535fdbe21b80e26f85e80c56afe69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:00 +0000
Subject: [PATCH 1/5] fix: numeric out-styles no longer fail for queries
 without parameters

Converting to a numeric out-style computed the row size from the last
parameter conversion and raised IndexError when there was none (a query
without placeholders, or with only empty tuples).
---
 sqlparams/_converting.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index 1a79717..fc26c23 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -478,8 +478,7 @@ class NamedToNumericConverter(NamedConverter):
 		Returns the many out-style parameters (:class:`list` of :class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = sum(len(__conv[2]) if __conv[0] else 1 for __conv in param_conversions)
 
 		many_out_params = []
 		for i, in_params in enumerate(many_in_params):
@@ -532,8 +531,7 @@ class NamedToNumericConverter(NamedConverter):
 		Returns the out-style parameters (:class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = sum(len(__conv[2]) if __conv[0] else 1 for __conv in param_conversions)
 
 		out_params: List[Any] = [None] * size
 		for expand_tuple, in_name, out_index in param_conversions:
@@ -1258,8 +1256,7 @@ class NumericToNumericConverter(NumericConverter):
 		Returns the many out-style parameters (:class:`list` of :class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = sum(len(__conv[2]) if __conv[0] else 1 for __conv in param_conversions)
 
 		many_out_params = []
 		for i, in_params in enumerate(many_in_params):
@@ -1317,8 +1314,7 @@ class NumericToNumericConverter(NumericConverter):
 		Returns the out-style parameters (:class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = sum(len(__conv[2]) if __conv[0] else 1 for __conv in param_conversions)
 
 		out_params: List[Any] = [None] * size
 		for expand_tuple, in_index, out_index in param_conversions:
@@ -2027,8 +2023,7 @@ class OrdinalToNumericConverter(OrdinalConverter):
 		Returns the many out-style parameters (:class:`list` of :class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = sum(len(__conv[2]) if __conv[0] else 1 for __conv in param_conversions)
 
 		many_out_params = []
 		for i, in_params in enumerate(many_in_params):
@@ -2086,8 +2081,7 @@ class OrdinalToNumericConverter(OrdinalConverter):
 		Returns the out-style parameters (:class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = sum(len(__conv[2]) if __conv[0] else 1 for __conv in param_conversions)
 
 		out_params: List[Any] = [None] * size
 		for expand_tuple, in_index, out_index in param_conversions:
-- 
2.43.0


From da3541652ff8a6fbeacd73e11dc687e18abaf7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:36 +0000
Subject: [PATCH 2/5] fix: formatmany no longer ignores rows when the first
 row's tuple is empty

An empty tuple in the first parameter set expands to (NULL) without being
recorded as a tuple conversion, so non-empty tuples (or non-tuples) for the
same parameter in later sets were silently dropped instead of being rejected
like any other size mismatch.
---
 sqlparams/_converting.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index fc26c23..87b86e8 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -338,6 +338,7 @@ class NamedToNamedConverter(NamedConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_name_param, []))
 					return "(NULL)"
 
 				# Convert named parameter by flattening tuple values.
@@ -599,6 +600,7 @@ class NamedToNumericConverter(NamedConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_name_param, []))
 					return "(NULL)"
 
 				# Convert named parameter by flattening tuple values.
@@ -851,6 +853,7 @@ class NamedToOrdinalConverter(NamedConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_name_param, 0))
 					return "(NULL)"
 
 				# Convert named parameter by flattening tuple values.
@@ -1111,6 +1114,7 @@ class NumericToNamedConverter(NumericConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, []))
 					return "(NULL)"
 
 				# Convert numeric parameter by flattening tuple values.
@@ -1371,6 +1375,7 @@ class NumericToNumericConverter(NumericConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, []))
 					return "(NULL)"
 
 				# Convert numeric parameter by flattening tuple values.
@@ -1626,6 +1631,7 @@ class NumericToOrdinalConverter(NumericConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, 0))
 					return "(NULL)"
 
 				# Convert numeric parameter by flattening tuple values.
@@ -1877,6 +1883,7 @@ class OrdinalToNamedConverter(OrdinalConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, []))
 					return "(NULL)"
 
 				# Convert ordinal parameter by flattening tuple values.
@@ -2139,6 +2146,7 @@ class OrdinalToNumericConverter(OrdinalConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, []))
 					return "(NULL)"
 
 				# Convert ordinal parameter by flattening tuple values.
@@ -2382,6 +2390,7 @@ class OrdinalToOrdinalConverter(OrdinalConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, 0))
 					return "(NULL)"
 
 				# Convert ordinal parameter by flattening tuple values.
-- 
2.43.0


From 21ba3ee1f2f443db50e52a26d2d85556dba41c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:38 +0000
Subject: [PATCH 3/5] fix: number 0 no longer binds the last element of a
 sequence

Numeric styles start at 1, but ":0" produced index -1, which silently
selected the last element of a parameter sequence. Raise IndexError.
---
 sqlparams/_converting.py | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index 87b86e8..b3ae0a6 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -886,6 +886,28 @@ class NumericConverter(Converter):
 		the specified number.
 		"""
 
+	@staticmethod
+	def _get_param(
+		in_params: Union[Sequence[Any], Dict[int, Any]],
+		in_index: int,
+	) -> Any:
+		"""
+		Get the in-parameter.
+
+		*in_params* (:class:`~collections.abc.Sequence` or :class:`~collections.abc.Mapping`)
+		contains the in-style parameters.
+
+		*in_index* (:class:`int`) is the in-index.
+
+		Returns the value.
+		"""
+		if in_index < 0 and is_sequence(in_params):
+			# NOTE: Do not let a number before the first one (e.g., ":0") count from
+			# the end of the sequence.
+			raise IndexError(f"{in_index=!r} is out of range.")
+
+		return in_params[in_index]
+
 	def _mapping_as_sequence(
 		self,
 		in_params: Dict[Union[int, str], Any],
@@ -1021,7 +1043,7 @@ class NumericToNamedConverter(NumericConverter):
 				if expand_tuple:
 					# Tuple conversion.
 					out_names = out_name
-					values = in_params[in_index]
+					values = self._get_param(in_params, in_index)
 					if not isinstance(values, tuple):
 						raise TypeError(f"many_params[{i}][{in_index!r}]={values!r} was expected to be a tuple.")
 					elif len(values) != len(out_names):
@@ -1032,7 +1054,7 @@ class NumericToNamedConverter(NumericConverter):
 
 				else:
 					# Simple conversion.
-					out_params[out_name] = in_params[in_index]
+					out_params[out_name] = self._get_param(in_params, in_index)
 
 			many_out_params.append(out_params)
 
@@ -1110,7 +1132,7 @@ class NumericToNamedConverter(NumericConverter):
 			in_num_str = result['param']
 			in_index = int(in_num_str) - self._in_start
 
-			value = in_params[in_index]
+			value = self._get_param(in_params, in_index)
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
@@ -1277,7 +1299,7 @@ class NumericToNumericConverter(NumericConverter):
 			for expand_tuple, in_index, out_index in param_conversions:
 				if expand_tuple:
 					# Tuple conversion.
-					values = in_params[in_index]
+					values = self._get_param(in_params, in_index)
 					out_indices = out_index
 					if not isinstance(values, tuple):
 						raise TypeError(f"many_params[{i}][{in_index!r}]={values!r} was expected to be a tuple.")
@@ -1289,7 +1311,7 @@ class NumericToNumericConverter(NumericConverter):
 
 				else:
 					# Simple conversion.
-					out_params[out_index] = in_params[in_index]
+					out_params[out_index] = self._get_param(in_params, in_index)
 
 			many_out_params.append(out_params)
 
@@ -1371,7 +1393,7 @@ class NumericToNumericConverter(NumericConverter):
 			# Numeric parameter matched, return numeric out-style parameter.
 			in_index = int(result['param']) - self._in_start
 
-			value = in_params[in_index]
+			value = self._get_param(in_params, in_index)
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
@@ -1537,7 +1559,7 @@ class NumericToOrdinalConverter(NumericConverter):
 			for expand_tuple, in_index, out_count in param_conversions:
 				if expand_tuple:
 					# Tuple conversion.
-					values = in_params[in_index]
+					values = self._get_param(in_params, in_index)
 					if not isinstance(values, tuple):
 						raise TypeError(f"many_params[{i}][{in_index!r}]={values!r} was expected to be a tuple.")
 					elif len(values) != out_count:
@@ -1548,7 +1570,7 @@ class NumericToOrdinalConverter(NumericConverter):
 
 				else:
 					# Simple conversion.
-					out_params.append(in_params[in_index])
+					out_params.append(self._get_param(in_params, in_index))
 
 			many_out_params.append(out_params)
 
@@ -1627,7 +1649,7 @@ class NumericToOrdinalConverter(NumericConverter):
 			# Numeric parameter matched, return ordinal out-style parameter.
 			in_index = int(result['param']) - self._in_start
 
-			value = in_params[in_index]
+			value = self._get_param(in_params, in_index)
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
-- 
2.43.0


From bc438ddcf62e5d5ffd2d6a15e4afa936f5478101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:40 +0000
Subject: [PATCH 4/5] =?UTF-8?q?fix:=20ignore=20mapping=20keys=20like=20'?=
 =?UTF-8?q?=C2=B2'=20that=20int()=20cannot=20parse?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

str.isdigit() also accepts superscript and other digits int() rejects, so an
unrelated key made every numeric/ordinal conversion raise ValueError.
---
 sqlparams/_converting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index b3ae0a6..0f5b0f5 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -923,7 +923,7 @@ class NumericConverter(Converter):
 		return {
 			int(__key) - start: __value
 			for __key, __value in in_params.items()
-			if isinstance(__key, int) or (isinstance(__key, (str, bytes)) and __key.isdigit())
+			if isinstance(__key, int) or (isinstance(__key, str) and __key.isdecimal()) or (isinstance(__key, bytes) and __key.isdigit())
 		}
 
 
@@ -1686,7 +1686,7 @@ class OrdinalConverter(Converter):
 		return {
 			int(__key): __value
 			for __key, __value in in_params.items()
-			if isinstance(__key, int) or (isinstance(__key, (str, bytes)) and __key.isdigit())
+			if isinstance(__key, int) or (isinstance(__key, str) and __key.isdecimal()) or (isinstance(__key, bytes) and __key.isdigit())
 		}
 
 
-- 
2.43.0


From 17af89411c0d6e19e6775d26fcb6dcab3098c0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:26 +0000
Subject: [PATCH 5/5] fix: escape character '%' no longer hidden by the
 doubling of '%'

When converting to 'format' or 'pyformat' the out_percent alternative was tried
before the escape sequence, so an escape sequence using '%' was never matched
and the parameter it should protect was replaced.
---
 sqlparams/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sqlparams/__init__.py b/sqlparams/__init__.py
index 4281063..de71c2e 100644
--- a/sqlparams/__init__.py
+++ b/sqlparams/__init__.py
@@ -402,14 +402,16 @@ class SQLParams(object):
 		"""
 		regex_parts = []
 
-		if in_obj.escape_char != "%" and out_obj.escape_char == "%":
-			regex_parts.append("(?P<out_percent>%)")
-
 		if escape_char:
 			# Escaping is enabled.
 			escape = in_obj.escape_regex.format(char=re.escape(escape_char))
 			regex_parts.append(escape)
 
+		if in_obj.escape_char != "%" and out_obj.escape_char == "%":
+			# NOTE: This must not hide an escape sequence (i.e., when the escape
+			# character is "%").
+			regex_parts.append("(?P<out_percent>%)")
+
 		regex_parts.append(in_obj.param_regex)
 
 		return re.compile("|".join(regex_parts))
-- 
2.43.0

