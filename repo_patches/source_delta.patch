From cc74f4ec6b08aafd9662ade5be12cc5177fea304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 01/64] fix: lex names that merely start with True or False as
 names

---
 datashape/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/lexer.py b/datashape/lexer.py
index b3e1935..d88704d 100644
--- a/datashape/lexer.py
+++ b/datashape/lexer.py
@@ -21,7 +21,7 @@ def _str_val(s):
 
 # A list of the token names, corresponding regex, and value extraction function
 _tokens = [
-    ('BOOLEAN',    r'True|False', ast.literal_eval),
+    ('BOOLEAN',    r'(?:True|False)(?![a-zA-Z0-9_])', ast.literal_eval),
     ('NAME_LOWER', r'[a-z][a-zA-Z0-9_]*', lambda x : x),
     ('NAME_UPPER', r'[A-Z][a-zA-Z0-9_]*', lambda x : x),
     ('NAME_OTHER', r'_[a-zA-Z0-9_]*', lambda x : x),
-- 
2.43.0


From 2dfd56b8f37450b27c1c94972c52082adad885fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 02/64] fix: decode every string literal the lexer accepts

---
 datashape/lexer.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/datashape/lexer.py b/datashape/lexer.py
index d88704d..8aac5d4 100644
--- a/datashape/lexer.py
+++ b/datashape/lexer.py
@@ -14,10 +14,21 @@ from . import error
 # where e.g. _tokens[NAME_LOWER-1] is the entry for NAME_LOWER
 __all__ = ['lex', 'Token']
 
+try:
+    _unichr = unichr
+except NameError:
+    _unichr = chr
+
+_str_escapes = {'b': u'\b', 'f': u'\f', 'n': u'\n', 'r': u'\r', 't': u'\t'}
+
 def _str_val(s):
-    # Use the Python parser via the ast module to parse the string,
-    # since the string_escape and unicode_escape codecs do the wrong thing
-    return ast.parse('u' + s).body[0].value.s
+    # The Python parser rejects some literals the STRING token allows (with
+    # NULs or lone surrogates in them), so decode the escapes explicitly
+    def unescape(m):
+        if m.group(1):
+            return _unichr(int(m.group(1), 16))
+        return _str_escapes.get(m.group(2), m.group(2))
+    return re.sub(r'\\(?:u([0-9a-fA-F]{4})|(.))', unescape, s[1:-1])
 
 # A list of the token names, corresponding regex, and value extraction function
 _tokens = [
-- 
2.43.0


From d29d884e545bdfbe82ccdb9c2be644a146686ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 03/64] fix: print names and strings as literals the parser
 reads back

---
 datashape/coretypes.py      | 15 ++++++++-------
 datashape/internal_utils.py | 37 ++++++++++++++++++++++++++++++++++---
 2 files changed, 42 insertions(+), 10 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index ea28b82..6754ffa 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -25,7 +25,7 @@ from .py2help import (
     unicode,
     with_metaclass,
 )
-from .internal_utils import IndexCallable, isidentifier
+from .internal_utils import IndexCallable, isidentifier, quote
 
 
 # Classes of unit types.
@@ -238,7 +238,7 @@ class Time(Unit):
         if self.tz is None:
             return basename
         else:
-            return '%s[tz=%r]' % (basename, str(self.tz))
+            return '%s[tz=%s]' % (basename, quote(self.tz))
 
 
 class DateTime(Unit):
@@ -259,7 +259,7 @@ class DateTime(Unit):
         if self.tz is None:
             return basename
         else:
-            return '%s[tz=%r]' % (basename, str(self.tz))
+            return '%s[tz=%s]' % (basename, quote(self.tz))
 
     def to_numpy_dtype(self):
         return np.dtype('datetime64[us]')
@@ -338,9 +338,9 @@ class Units(Unit):
 
     def __str__(self):
         if self.tp == DataShape(float64):
-            return 'units[%r]' % (self.unit)
+            return 'units[%s]' % quote(self.unit)
         else:
-            return 'units[%r, %s]' % (self.unit, self.tp)
+            return 'units[%s, %s]' % (quote(self.unit), self.tp)
 
 
 class Bytes(Unit):
@@ -1095,7 +1095,8 @@ R = Record  # Alias for record literals
 
 def _format_categories(cats, n=10):
     return '[%s%s]' % (
-        ', '.join(map(repr, cats[:n])),
+        ', '.join(quote(c) if isinstance(c, _strtypes) else repr(c)
+                  for c in cats[:n]),
         ', ...' if len(cats) > n else ''
     )
 
@@ -1421,7 +1422,7 @@ def pprint(ds, width=80):
 
     if isinstance(ds, Record):
         pairs = ['%s: %s' % (name if isidentifier(name) else
-                             repr(print_unicode_string(name)),
+                             quote(print_unicode_string(name)),
                              pprint(typ, width - len(result) - len(name)))
                  for name, typ in zip(ds.names, ds.types)]
         short = '{%s}' % ', '.join(pairs)
diff --git a/datashape/internal_utils.py b/datashape/internal_utils.py
index 701d2a9..4d70f13 100644
--- a/datashape/internal_utils.py
+++ b/datashape/internal_utils.py
@@ -6,7 +6,6 @@ Do not import datashape modules into this module.  See util.py in that case
 
 from __future__ import print_function, division, absolute_import
 
-import keyword
 import re
 
 
@@ -119,5 +118,37 @@ def groupby(func, seq):
 
 
 def isidentifier(s):
-    return (keyword.iskeyword(s) or
-            re.match(r'^[_a-zA-Z][_a-zA-Z0-9]*$', s) is not None)
+    # True and False are boolean tokens, not names, in the grammar
+    return (s not in ('True', 'False') and
+            re.match(r'^[_a-zA-Z][_a-zA-Z0-9]*\Z', s) is not None)
+
+
+_escapes = {'\b': '\\b', '\f': '\\f', '\n': '\\n', '\r': '\\r', '\t': '\\t'}
+
+
+def quote(s):
+    """Format a string as a string literal of the datashape grammar.
+
+    The grammar knows fewer escapes than Python, in particular there is no
+    escape for the backslash but its code point.
+
+    >>> print(quote('Unique Key'))
+    'Unique Key'
+    >>> print(quote("it's"))
+    "it's"
+    >>> print(quote('C:\\\\'))
+    'C:\\u005c'
+    """
+    mark = '"' if "'" in s and '"' not in s else "'"
+
+    def escape(c):
+        if c in _escapes:
+            return _escapes[c]
+        if c == mark:
+            return '\\' + c
+        n = ord(c)
+        if c == '\\' or n < 0x20 or 0x7f <= n < 0xa0 or 0xd800 <= n < 0xe000:
+            return '\\u%04x' % n
+        return c
+
+    return mark + ''.join(map(escape, s)) + mark
-- 
2.43.0


From fa52d25849e4961bcdc3a8924ddf34e92c50b82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 04/64] fix: escape quotes and backslashes in the repr of
 datashapes

---
 datashape/coretypes.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 6754ffa..391c2ac 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -575,11 +575,7 @@ class DataShape(Mono):
         return self.name or ' * '.join(map(str, self.parameters))
 
     def __repr__(self):
-        s = pprint(self)
-        if '\n' in s:
-            return 'dshape("""%s""")' % s
-        else:
-            return 'dshape("%s")' % s
+        return _dshape_repr(pprint(self))
 
     @property
     def shape(self):
@@ -938,12 +934,20 @@ def _launder(x):
     raise TypeError("Received unsupported type {}".format(x))
 
 
+def _dshape_repr(s):
+    """The expression that parses the datashape text ``s``
+
+    >>> print(_dshape_repr('2 * int32'))
+    dshape("2 * int32")
+    """
+    s = s.replace('\\', '\\\\').replace('"', '\\"')
+    return ('dshape("""%s""")' if '\n' in s else 'dshape("%s")') % s
+
+
 class CollectionPrinter(object):
 
     def __repr__(self):
-        s = str(self)
-        strs = ('"""%s"""' if '\n' in s else '"%s"') % s
-        return 'dshape(%s)' % strs
+        return _dshape_repr(str(self))
 
 
 class RecordMeta(Type):
-- 
2.43.0


From fe2d01d201ada9db117fadbcc3906604c8d338b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 05/64] fix: let null survive pickling at protocols 0 and 1

---
 datashape/coretypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 391c2ac..94d5c39 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -208,7 +208,7 @@ class Ellipsis(Mono):
 class Null(Unit):
 
     """The null datashape."""
-    pass
+    __slots__ = ()
 
 
 class Date(Unit):
-- 
2.43.0


From 90021792237e71a3a01e1049eb3970a74c3f24a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 06/64] fix: give slices of a dimension the number of elements
 they select

---
 datashape/coretypes.py | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 94d5c39..6b80081 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -11,8 +11,6 @@ import sys
 import ctypes
 import operator
 
-from math import ceil
-
 import datashape
 
 import numpy as np
@@ -668,28 +666,22 @@ class DataShape(Mono):
         if isinstance(index, list) and isdimension(self[0]):
             return len(index) * self.subarray(1)
         if isinstance(index, slice):
+            start, stop = index.start, index.stop
+            if start is None and (index.step is None or index.step > 0):
+                start = 0
             if isinstance(self[0], Fixed):
                 n = int(self[0])
-                start = index.start or 0
-                stop = index.stop or n
-                if start < 0:
-                    start = n + start
-                if stop < 0:
-                    stop = n + stop
-                count = stop - start
+            elif (start is not None and stop is not None and
+                    start >= 0 and stop >= 0):
+                n = max(start, stop) + 1  # the bounds are nominal
+            else:
+                n = None
+
+            if n is None:
+                count = var
             else:
-                start = index.start or 0
-                stop = index.stop
-                if not stop:
-                    count = -start if start < 0 else var
-                if (stop is not None and start is not None and stop >= 0 and
-                        start >= 0):
-                    count = stop - start
-                else:
-                    count = var
-
-            if count != var and index.step is not None:
-                count = int(ceil(count / index.step))
+                start, stop, step = index.indices(n)
+                count = max(0, -((start - stop) // step))
 
             return count * self.subarray(1)
         if isinstance(index, tuple):
-- 
2.43.0


From 0dc34e9728d6d2f301b2462a33de929e0aafb1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 07/64] fix: unite records with the same names only, and give
 up on columns without a common type

---
 datashape/discovery.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/datashape/discovery.py b/datashape/discovery.py
index 602cffa..96331c2 100644
--- a/datashape/discovery.py
+++ b/datashape/discovery.py
@@ -294,10 +294,14 @@ def unite_base(dshapes):
         good_dshapes = bynull[False]
     except KeyError:
         return len(dshapes) * null
+    base = None
     if all(isinstance(ds, Unit) for ds in good_dshapes):
-        base = lowest_common_dshape(good_dshapes)
+        try:
+            base = lowest_common_dshape(good_dshapes)
+        except ValueError:  # no common dshape
+            return None
     elif (all(isinstance(ds, Record) for ds in good_dshapes) and
-          ds.names == dshapes[0].names for ds in good_dshapes):
+          all(ds.names == good_dshapes[0].names for ds in good_dshapes)):
         names = good_dshapes[0].names
         base = Record([[name,
                         unite_base([ds.dict.get(name, null) for ds in good_dshapes]).subshape[0]]
-- 
2.43.0


From 5e444d43684cccbd80e18b32b18a267ef3fc80d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 08/64] fix: refuse time units without a name with ValueError

---
 datashape/coretypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 6b80081..db3121a 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -297,7 +297,7 @@ def normalize_time_unit(s):
         return s
     if s in _unit_aliases:
         return _unit_aliases[s]
-    if s[-1] == 's' and len(s) > 2:
+    if len(s) > 2 and s[-1] == 's':
         return normalize_time_unit(s.rstrip('s'))
 
     raise ValueError("Do not understand time unit %s" % s)
-- 
2.43.0


From 560f8b6a3774fe9aadcf11be86f804977fa93da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 09/64] fix: discover text that spells an enormous time delta

---
 datashape/discovery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/discovery.py b/datashape/discovery.py
index 96331c2..cdb43e1 100644
--- a/datashape/discovery.py
+++ b/datashape/discovery.py
@@ -180,7 +180,7 @@ def discover(s):
     for f in string_coercions:
         try:
             return discover(f(s))
-        except (ValueError, KeyError):
+        except (ValueError, KeyError, OverflowError):
             pass
 
     # don't let dateutil parse things like sunday, monday etc into dates
-- 
2.43.0


From c8186b024822d6f3fde94cd3ae46a8a3c81b35d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:54 +0000
Subject: [PATCH 10/64] fix: discover text whose numbers are too large for a
 date

---
 datashape/discovery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/discovery.py b/datashape/discovery.py
index cdb43e1..a071853 100644
--- a/datashape/discovery.py
+++ b/datashape/discovery.py
@@ -189,7 +189,7 @@ def discover(s):
 
     try:
         d = dateparse(s)
-    except (ValueError, OverflowError):  # OverflowError for stuff like 'INF...'
+    except (ValueError, ArithmeticError):  # e.g. OverflowError for 'INF...'
         pass
     else:
         return date_ if is_zero_time(d.time()) else datetime_
-- 
2.43.0


From c0834ab1dbf415e77e998587750ac0210701ce81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 11/64] fix: a sequence has to have one item for every field of
 a record

---
 datashape/user.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datashape/user.py b/datashape/user.py
index c6b42be..1481975 100644
--- a/datashape/user.py
+++ b/datashape/user.py
@@ -45,8 +45,9 @@ def validate(schema, d):
 
 @dispatch(Record, (tuple, list))
 def validate(schema, seq):
-    return all(validate(sch, item) for (k, sch), item
-                                    in zip(schema.parameters[0], seq))
+    fields = schema.parameters[0]
+    return (len(fields) == len(seq) and
+            all(validate(sch, item) for (k, sch), item in zip(fields, seq)))
 
 
 @dispatch(str, object)
-- 
2.43.0


From 102f3972af16deeae937d7116459d19efd0fd90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 12/64] fix: assert that the numbers of dimensions are equal

---
 datashape/util/testing.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/datashape/util/testing.py b/datashape/util/testing.py
index f8fc5ea..5f0ae85 100644
--- a/datashape/util/testing.py
+++ b/datashape/util/testing.py
@@ -89,6 +89,11 @@ def assert_dshape_equal(a, b, check_dim=True, path=None, **kwargs):
                     ),
                 )
 
+        assert len(ashape) == len(bshape), \
+            'numbers of dimensions do not match: %d != %d\n%s' % (
+                len(ashape), len(bshape), _fmt_path(path + ('.shape',)),
+            )
+
     path += '.measure',
     assert_dshape_equal(
         a.measure,
-- 
2.43.0


From 250860f966e90780b150c3259423af7897d72c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 13/64] fix: assert about strings without a fixed length

---
 datashape/util/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/util/testing.py b/datashape/util/testing.py
index 5f0ae85..7bfe67b 100644
--- a/datashape/util/testing.py
+++ b/datashape/util/testing.py
@@ -180,7 +180,7 @@ def assert_dshape_equal(a,
 
     if check_str_fixlen:
         assert a.fixlen == b.fixlen, \
-            'string fixlens do not match: %d != %d\n%s' % (
+            'string fixlens do not match: %r != %r\n%s' % (
                 a.fixlen, b.fixlen, _fmt_path(path + ('.fixlen',)),
             )
 
-- 
2.43.0


From bbbddc1f7b1a8b49a6ed0aac63b3020601f549db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 14/64] fix: assert about units types

---
 datashape/util/testing.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/datashape/util/testing.py b/datashape/util/testing.py
index 7bfe67b..49b1713 100644
--- a/datashape/util/testing.py
+++ b/datashape/util/testing.py
@@ -159,8 +159,7 @@ def assert_dshape_equal(a, b, path=None, **kwargs):
         type(a).__name__.lower(), a.unit, b.unit, _fmt_path(path + ('.unit',)),
     )
 
-    path.append('.tp')
-    assert_dshape_equal(a.tp, b.tp, **kwargs)
+    assert_dshape_equal(a.tp, b.tp, path=path + ('.tp',), **kwargs)
 
 
 @dispatch(String, String)
-- 
2.43.0


From 491852a35963ccff6591f28186e5fa7503d28854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 15/64] fix: name the path to a time compared with a datetime

---
 datashape/util/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/util/testing.py b/datashape/util/testing.py
index 49b1713..03d9131 100644
--- a/datashape/util/testing.py
+++ b/datashape/util/testing.py
@@ -139,7 +139,7 @@ def _base_case(a, b, path=None, **kwargs):
 @dispatch((DateTime, Time), (DateTime, Time))
 def assert_dshape_equal(a, b, path=None, check_tz=True, **kwargs):
     if type(a) != type(b):
-        return _base_case(a, b)
+        return _base_case(a, b, path=path)
     if check_tz:
         _check_slots(a, b, path)
 
-- 
2.43.0


From dd4130d12ca17c45aa7a79e38a9ab67d8e1e4155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 16/64] fix: honour the flags of assert_dshape_equal inside
 maps

---
 datashape/util/testing.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/datashape/util/testing.py b/datashape/util/testing.py
index 03d9131..84eeb04 100644
--- a/datashape/util/testing.py
+++ b/datashape/util/testing.py
@@ -5,6 +5,7 @@ from ..coretypes import (
     DataShape,
     DateTime,
     Function,
+    Map,
     Option,
     Record,
     String,
@@ -192,6 +193,14 @@ def assert_dshape_equal(a, b, path=None, **kwargs):
     return assert_dshape_equal(a.ty, b.ty, path=path, **kwargs)
 
 
+@dispatch(Map, Map)
+def assert_dshape_equal(a, b, path=None, **kwargs):
+    if path is None:
+        path = ()
+    assert_dshape_equal(a.key, b.key, path=path + ('.key',), **kwargs)
+    assert_dshape_equal(a.value, b.value, path=path + ('.value',), **kwargs)
+
+
 @dispatch(Record, Record)
 def assert_dshape_equal(a, b, check_record_order=True, path=None, **kwargs):
     afields = a.fields
-- 
2.43.0


From 9b715c76ddef4b4b601c46f4698a1011321413e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:47 +0000
Subject: [PATCH 17/64] fix: validate the datashapes nested in a type, and
 those built by hand

---
 datashape/util/__init__.py | 4 ++--
 datashape/validation.py    | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/datashape/util/__init__.py b/datashape/util/__init__.py
index 9af40a8..9979f1a 100644
--- a/datashape/util/__init__.py
+++ b/datashape/util/__init__.py
@@ -38,8 +38,8 @@ def dshape(o):
     ctype("int32")
     """
     if isinstance(o, coretypes.DataShape):
-        return o
-    if isinstance(o, py2help._strtypes):
+        ds = o
+    elif isinstance(o, py2help._strtypes):
         ds = parser.parse(o, type_symbol_table.sym)
     elif isinstance(o, (coretypes.CType, coretypes.String,
                         coretypes.Record, coretypes.JSON,
diff --git a/datashape/validation.py b/datashape/validation.py
index 4339b40..63b6984 100644
--- a/datashape/validation.py
+++ b/datashape/validation.py
@@ -21,8 +21,11 @@ def traverse(f, t):
     -------
     DataShape
     """
-    if isinstance(t, T.Mono) and not isinstance(t, T.Unit):
+    if isinstance(t, T.Units) or (isinstance(t, T.Mono) and
+                                  not isinstance(t, T.Unit)):
         return f(t, [traverse(f, p) for p in t.parameters])
+    if isinstance(t, (list, tuple)):  # the fields of a record, for example
+        return [traverse(f, p) for p in t]
     return t
 
 
-- 
2.43.0


From a3d2842666aa69ae3b4b3fd6589623dbb3976be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 18/64] fix: refuse dimensions where a type has to stand, and
 the other way round

---
 datashape/coretypes.py | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index db3121a..301118a 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -191,6 +191,7 @@ class Ellipsis(Mono):
         A... * float32   # float32 array w/ any number of dimensions,
                         # associated with type variable A
     """
+    cls = DIMENSION
     __slots__ = 'typevar',
 
     def __init__(self, typevar=None):
@@ -206,6 +207,7 @@ class Ellipsis(Mono):
 class Null(Unit):
 
     """The null datashape."""
+    cls = MEASURE
     __slots__ = ()
 
 
@@ -712,10 +714,11 @@ class Option(Mono):
     Measure types which may or may not hold data. Makes no
     indication of how this is implemented in memory.
     """
+    cls = MEASURE
     __slots__ = 'ty',
 
     def __init__(self, ds):
-        self.ty = _launder(ds)
+        self.ty = _launder_measure(ds)
 
     @property
     def shape(self):
@@ -871,6 +874,13 @@ class TypeVar(Unit):
 class Function(Mono):
     """Function signature type
     """
+    cls = MEASURE
+
+    def __init__(self, *params):
+        for param in params:
+            _launder_measure(param)
+        super(Function, self).__init__(*params)
+
     @property
     def restype(self):
         return self.parameters[-1]
@@ -886,11 +896,12 @@ class Function(Mono):
 
 
 class Map(Mono):
+    cls = MEASURE
     __slots__ = 'key', 'value'
 
     def __init__(self, key, value):
-        self.key = _launder(key)
-        self.value = _launder(value)
+        self.key = _launder_measure(key)
+        self.value = _launder_measure(value)
 
     def __str__(self):
         return '%s[%s, %s]' % (type(self).__name__.lower(),
@@ -926,6 +937,23 @@ def _launder(x):
     raise TypeError("Received unsupported type {}".format(x))
 
 
+def _launder_measure(x):
+    """ Clean up types prior to use on their own, where a lone dimension is not
+    a type
+
+    >>> _launder_measure('int32')
+    ctype("int32")
+    >>> _launder_measure(5)
+    Traceback (most recent call last):
+        ...
+    TypeError: Expected a datashape, not the dimension Fixed(val=5)
+    """
+    x = _launder(x)
+    if getattr(x, 'cls', MEASURE) != MEASURE:
+        raise TypeError('Expected a datashape, not the dimension %r' % x)
+    return x
+
+
 def _dshape_repr(s):
     """The expression that parses the datashape text ``s``
 
@@ -1047,7 +1075,7 @@ class Record(with_metaclass(RecordMeta, CollectionPrinter, Mono)):
             str(name) if not isinstance(name, _strtypes) else name
             for name, _ in fields
         ])
-        types = [_launder(v) for _, v in fields]
+        types = [_launder_measure(v) for _, v in fields]
 
         if len(set(names)) != len(names):
             for name in set(names):
-- 
2.43.0


From 1d89623baeec1d952ee8d2821c0b75528341634c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 19/64] fix: refuse type variables without a name with
 ValueError

---
 datashape/coretypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 301118a..83978c4 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -862,7 +862,7 @@ class TypeVar(Unit):
     __slots__ = 'symbol',
 
     def __init__(self, symbol):
-        if not symbol[0].isupper():
+        if not symbol[:1].isupper():
             raise ValueError(('TypeVar symbol %r does not '
                               'begin with a capital') % symbol)
         self.symbol = symbol
-- 
2.43.0


From e30e72a47bd88f652b6776e1cac96cb5619b74af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 20/64] fix: promote options wrapped in a datashape

---
 datashape/promote.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datashape/promote.py b/datashape/promote.py
index 798aba7..d53f799 100644
--- a/datashape/promote.py
+++ b/datashape/promote.py
@@ -41,7 +41,8 @@ def promote(lhs, rhs, promote_option=True):
     """
     if lhs == rhs:
         return lhs
-    left, right = getattr(lhs, 'ty', lhs), getattr(rhs, 'ty', rhs)
+    left, right = lhs.measure, rhs.measure
+    left, right = getattr(left, 'ty', left), getattr(right, 'ty', right)
     if left == right == datashape.string:
         # Special case string promotion, since numpy promotes to `object`.
         dtype = datashape.string
@@ -73,6 +74,6 @@ def optionify(lhs, rhs, dshape):
     """
     if hasattr(dshape.measure, 'ty'):
         return dshape
-    if hasattr(lhs, 'ty') or hasattr(rhs, 'ty'):
+    if hasattr(lhs.measure, 'ty') or hasattr(rhs.measure, 'ty'):
         return datashape.Option(dshape)
     return dshape
-- 
2.43.0


From 0fb0f02d74f2a5703b2e7ccdfaa884a7d4b6203b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 21/64] fix: print nested options in the grammar's terms

---
 datashape/coretypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 83978c4..3e30932 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -729,6 +729,8 @@ class Option(Mono):
         return self.ty.itemsize
 
     def __str__(self):
+        if isinstance(self.ty, Option):  # the grammar has no '??'
+            return '?option[%s]' % self.ty.ty
         return '?%s' % self.ty
 
     def to_numpy_dtype(self):
-- 
2.43.0


From c03bd03f9cb6dc55f4d112c3090951a0645f0a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 22/64] fix: parse the bytes and char types

---
 datashape/type_symbol_table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datashape/type_symbol_table.py b/datashape/type_symbol_table.py
index 1032100..4244138 100644
--- a/datashape/type_symbol_table.py
+++ b/datashape/type_symbol_table.py
@@ -71,7 +71,9 @@ no_constructor_types = [
     ('complex128', ct.complex128),
     ('real', ct.float64),
     ('complex', ct.complex_float64),
+    ('char', ct.char),
     ('string', ct.string),
+    ('bytes', ct.bytes_),
     ('json', ct.json),
     ('date', ct.date_),
     ('time', ct.time_),
-- 
2.43.0


From 4485882e8cf97bddffc52d17bca77a1463fbe788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:55 +0000
Subject: [PATCH 23/64] fix: keep the dimensions of record and tuple fields in
 NumPy dtypes

---
 datashape/coretypes.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 3e30932..fb488d6 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -1106,7 +1106,7 @@ class Record(with_metaclass(RecordMeta, CollectionPrinter, Mono)):
         """
         To Numpy record dtype.
         """
-        return np.dtype([(str(name), to_numpy_dtype(typ))
+        return np.dtype([(str(name), _field_dtype(typ))
                          for name, typ in self.fields])
 
     def __getitem__(self, key):
@@ -1182,7 +1182,7 @@ class Tuple(CollectionPrinter, Mono):
         """
         To Numpy record dtype.
         """
-        return np.dtype([('f%d' % i, to_numpy_dtype(typ))
+        return np.dtype([('f%d' % i, _field_dtype(typ))
                          for i, typ in enumerate(self.parameters[0])])
 
 
@@ -1308,6 +1308,23 @@ Type.register('string', String())
 var = Var()
 
 
+def _field_dtype(ds):
+    """ The NumPy dtype of a field, a sub-array dtype if the field has
+    dimensions
+
+    >>> from datashape import dshape
+    >>> _field_dtype(dshape('2 * int32'))
+    dtype(('<i4', (2,)))
+    """
+    shape, dtype = to_numpy(ds)
+    if not shape:
+        return dtype
+    try:
+        return np.dtype((dtype, shape))
+    except ValueError:  # type variables, or sizes NumPy has no room for
+        raise TypeError('DataShape %s is not NumPy-compatible' % ds)
+
+
 def to_numpy_dtype(ds):
     """ Throw away the shape information and just return the
     measure as NumPy dtype instance."""
-- 
2.43.0


From 65e717c6b6e01afeac9d0aaf103785f284d24e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 24/64] fix: strings of length zero have a fixed length

---
 datashape/coretypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index fb488d6..2af2306 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -429,7 +429,7 @@ class String(Unit):
         >>> String(30, 'A').to_numpy_dtype()
         dtype('S30')
         """
-        if self.fixlen:
+        if self.fixlen is not None:
             if self.encoding == 'A':
                 return np.dtype('S%d' % self.fixlen)
             else:
-- 
2.43.0


From 52603ca6696fa4d7847c3929f07755be5c5cb945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:18 +0000
Subject: [PATCH 25/64] fix: refuse string lengths that are no integers with
 TypeError

---
 datashape/coretypes.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 2af2306..feefadf 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -383,13 +383,19 @@ class String(Unit):
     def __init__(self, *args):
         if len(args) == 0:
             fixlen, encoding = None, None
-        if len(args) == 1:
-            if isinstance(args[0], _strtypes):
-                fixlen, encoding = None, args[0]
-            if isinstance(args[0], _inttypes):
-                fixlen, encoding = args[0], None
-        if len(args) == 2:
+        elif len(args) == 1 and isinstance(args[0], _strtypes):
+            fixlen, encoding = None, args[0]
+        elif len(args) == 1:
+            fixlen, encoding = args[0], None
+        elif len(args) == 2:
             fixlen, encoding = args
+        else:
+            raise TypeError('string takes a length and an encoding, got %r' %
+                            (args,))
+        if fixlen is not None:
+            fixlen = operator.index(fixlen)
+            if fixlen < 0:
+                raise ValueError('string length must not be negative')
 
         encoding = encoding or 'U8'
         if isinstance(encoding, str):
-- 
2.43.0


From b68d834d484f157f60cef05cec518d734c58076d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:19 +0000
Subject: [PATCH 26/64] fix: refuse category types that are no datashapes with
 TypeError

---
 datashape/coretypes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index feefadf..d4b28f6 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -1142,7 +1142,12 @@ class Categorical(Mono):
 
     def __init__(self, categories, type=None, ordered=False):
         self.categories = tuple(categories)
-        self.type = (type or datashape.discover(self.categories)).measure
+        if type is None:
+            type = datashape.discover(self.categories)
+        elif not isinstance(type, Mono):
+            raise TypeError('type parameter to categorical datashape must be '
+                            'a datashape, not %r' % (type,))
+        self.type = type.measure
         self.ordered = ordered
 
     def __str__(self):
-- 
2.43.0


From 76d85bfb5681a94d5cf97f0a5f22e6747e0a915d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 27/64] fix: refuse structs with more names than types, or the
 other way round

---
 datashape/type_symbol_table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datashape/type_symbol_table.py b/datashape/type_symbol_table.py
index 4244138..3f4a14b 100644
--- a/datashape/type_symbol_table.py
+++ b/datashape/type_symbol_table.py
@@ -27,6 +27,8 @@ def _complex(tp):
 
 def _struct(names, dshapes):
     """Simple temporary type constructor for struct"""
+    if len(names) != len(dshapes):
+        raise ValueError('struct needs one datashape for each name')
     return ct.Record(list(zip(names, dshapes)))
 
 
-- 
2.43.0


From 55d687781de85d93275b75c29feed4d384ec4046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 28/64] fix: refuse dims that are not followed by an asterisk

---
 datashape/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datashape/parser.py b/datashape/parser.py
index 2cd5080..eea4bf1 100644
--- a/datashape/parser.py
+++ b/datashape/parser.py
@@ -166,6 +166,8 @@ class DataShapeParser(object):
                     self.pos = saved_pos
                     self.raise_error('Expected a dim or a dtype')
                 return coretypes.DataShape(dim, *dshape.parameters)
+            # A dim not followed by an asterisk isn't one
+            self.pos = saved_pos
         # Try dtype
         dtype = self.parse_dtype()
         if dtype:
-- 
2.43.0


From 57a3c98c226bf946c75c26c810f225fd00ab0a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 29/64] fix: refuse a question mark that no datashape follows

---
 datashape/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datashape/parser.py b/datashape/parser.py
index eea4bf1..af15694 100644
--- a/datashape/parser.py
+++ b/datashape/parser.py
@@ -143,6 +143,7 @@ class DataShapeParser(object):
                                               constructors[tok.id],
                                               saved_pos - 1)
                 return coretypes.DataShape(option(ds))
+            self.raise_error('Expected a datashape after the "?"')
         else:
             return self.parse_datashape_nooption()
 
-- 
2.43.0


From 009d5967664e27becbbbf0498661fc7f501bba21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 30/64] fix: refuse a trailing comma in type constructor
 arguments

---
 datashape/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datashape/parser.py b/datashape/parser.py
index af15694..a7bf97c 100644
--- a/datashape/parser.py
+++ b/datashape/parser.py
@@ -352,6 +352,8 @@ class DataShapeParser(object):
                                            'Expected another keyword argument, ' +
                                            'positional arguments cannot follow ' +
                                            'keyword arguments')
+        if args and not kwargs:
+            self.raise_error('Expected another type constructor argument')
         return (args, dict(kwargs) if kwargs else {})
 
     def parse_type_arg(self):
-- 
2.43.0


From 42d27083a8276cd17b50d19a545184ece9e3c6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 31/64] fix: refuse repeated keyword arguments of type
 constructors

---
 datashape/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datashape/parser.py b/datashape/parser.py
index a7bf97c..28f22b1 100644
--- a/datashape/parser.py
+++ b/datashape/parser.py
@@ -354,6 +354,9 @@ class DataShapeParser(object):
                                            'keyword arguments')
         if args and not kwargs:
             self.raise_error('Expected another type constructor argument')
+        names = [name for name, _ in kwargs or ()]
+        if len(set(names)) != len(names):
+            raise TypeError('Repeated keyword argument in %s' % (names,))
         return (args, dict(kwargs) if kwargs else {})
 
     def parse_type_arg(self):
-- 
2.43.0


From 3b709fd6367d80bdaeb84215b3ef6034f2cb1510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 32/64] fix: collect nothing from the plain parameters of a
 type

---
 datashape/util/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datashape/util/__init__.py b/datashape/util/__init__.py
index 9979f1a..a91f796 100644
--- a/datashape/util/__init__.py
+++ b/datashape/util/__init__.py
@@ -108,6 +108,7 @@ def collect(pred, expr):
         return chain.from_iterable(collect(pred, typ) for typ in expr.parameters)
     if isinstance(expr, (list, tuple)):
         return chain.from_iterable(collect(pred, item) for item in expr)
+    return []
 
 
 def has_var_dim(ds):
-- 
2.43.0


From 3cc69b4215912ca49e464519a4ebe4c52db777b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 33/64] fix: tell homogeneous types from dimensions that are
 type variables or ellipses

---
 datashape/predicates.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/datashape/predicates.py b/datashape/predicates.py
index 8d99b04..cd7dea0 100644
--- a/datashape/predicates.py
+++ b/datashape/predicates.py
@@ -1,7 +1,8 @@
+from itertools import chain
+
 import numpy as np
 
 from .util import collect, dshape
-from .internal_utils import remove
 from .coretypes import (DataShape, Fixed, Var, Ellipsis, Record, Tuple, Unit,
                         date_, datetime_, TypeVar, to_numpy_dtype, Map,
                         Option, Categorical)
@@ -76,7 +77,17 @@ def ishomogeneous(ds):
     False
     """
     ds = dshape(ds)
-    return len(set(remove(isdimension, collect(isscalar, ds)))) == 1
+    return len(set(_scalars(ds))) == 1
+
+
+def _scalars(ds):
+    """The scalar types in a datashape, leaving out its dimensions
+    """
+    if isinstance(ds, DataShape):
+        return _scalars(ds.measure)
+    arrays = lambda x: isinstance(x, DataShape) or isscalar(x)
+    return chain.from_iterable([x] if isscalar(x) else _scalars(x)
+                               for x in collect(arrays, ds))
 
 
 def _dimensions(ds):
-- 
2.43.0


From 9033b0bb2075bae603eaa1c3fada3450cb64afcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:43 +0000
Subject: [PATCH 34/64] fix: find variable dimensions in tuples, options and
 maps, and take ellipses for ones

---
 datashape/predicates.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/datashape/predicates.py b/datashape/predicates.py
index cd7dea0..81d67fc 100644
--- a/datashape/predicates.py
+++ b/datashape/predicates.py
@@ -111,10 +111,14 @@ def isfixed(ds):
     ds = dshape(ds)
     if isinstance(ds[0], TypeVar):
         return None  # don't know
-    if isinstance(ds[0], Var):
+    if isinstance(ds[0], (Var, Ellipsis)):
         return False
     if isinstance(ds[0], Record):
         return all(map(isfixed, ds[0].types))
+    if isinstance(ds[0], Tuple):
+        return all(map(isfixed, ds[0].dshapes))
+    if isinstance(ds[0], (Option, Map)):
+        return all(map(isfixed, ds[0].parameters))
     if len(ds) > 1:
         return isfixed(ds.subarray(1))
     return True
-- 
2.43.0


From bcbf64a51d2de6b90cf351d726909a7bce891dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 35/64] fix: tell collections whose dimension is a type
 variable, and bare records

---
 datashape/predicates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/predicates.py b/datashape/predicates.py
index 81d67fc..c1c5a3b 100644
--- a/datashape/predicates.py
+++ b/datashape/predicates.py
@@ -150,7 +150,7 @@ def iscollection(ds):
     """
     if isinstance(ds, str):
         ds = dshape(ds)
-    return isdimension(ds[0])
+    return isdimension(ds) or isinstance(ds, DataShape) and len(ds) > 1
 
 
 def isnumeric(ds):
-- 
2.43.0


From 9e8f8cf98ab89930810c544d55c91282d19961e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 36/64] fix: a datetime with a time zone is datelike

---
 datashape/predicates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datashape/predicates.py b/datashape/predicates.py
index c1c5a3b..2480626 100644
--- a/datashape/predicates.py
+++ b/datashape/predicates.py
@@ -4,7 +4,7 @@ import numpy as np
 
 from .util import collect, dshape
 from .coretypes import (DataShape, Fixed, Var, Ellipsis, Record, Tuple, Unit,
-                        date_, datetime_, TypeVar, to_numpy_dtype, Map,
+                        Date, DateTime, TypeVar, to_numpy_dtype, Map,
                         Option, Categorical)
 from .typesets import floating, boolean
 
@@ -221,4 +221,4 @@ def isdatelike(ds):
     True
     """
     ds = launder(ds)
-    return ds == date_ or ds == datetime_
+    return isinstance(ds, (Date, DateTime))
-- 
2.43.0


From d0a51da7dd11aa9bcfc4d00b9099e2bd58ea75fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 37/64] fix: import NumPy fields that have titles

---
 datashape/coretypes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index d4b28f6..e1a4419 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -1397,8 +1397,9 @@ def from_numpy(shape, dt):
         measure = String(dtype.itemsize // 4, 'U32')
     elif dtype.fields:
         fields = [(name, dtype.fields[name]) for name in dtype.names]
-        rec = [(name, from_numpy(t.shape, t.base))  # recurse into nested dtype
-               for name, (t, _) in fields]  # _ is the byte offset: ignore it
+        # f[0] is the nested dtype to recurse into, ignore the byte offset f[1]
+        # and the title, if any
+        rec = [(name, from_numpy(f[0].shape, f[0].base)) for name, f in fields]
         measure = Record(rec)
     else:
         measure = CType.from_numpy_dtype(dtype)
-- 
2.43.0


From d97ac8a7fbd38199b585507e3bef388f8acd52d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 38/64] fix: float16 belongs to the floating types

---
 datashape/typesets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/typesets.py b/datashape/typesets.py
index bfcec97..b74a138 100644
--- a/datashape/typesets.py
+++ b/datashape/typesets.py
@@ -112,7 +112,7 @@ signed = TypeSet(int8, int16, int32, int64, name='signed')
 unsigned = TypeSet(uint8, uint16, uint32, uint64, name='unsigned')
 integral = TypeSet(*[x for t in zip(signed, unsigned) for x in t],
                    name='integral')
-floating = TypeSet(float32, float64, name='floating')
+floating = TypeSet(float16, float32, float64, name='floating')
 complexes = TypeSet(complex64, complex128, name='complexes')
 boolean = TypeSet(bool_, name='boolean')
 
-- 
2.43.0


From d3f1c539400ac04011b1595006b2301bce123ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 39/64] fix: arrays are no dimensions, and arrays of arrays
 have the dimensions of both

---
 datashape/coretypes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index e1a4419..b4325e3 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -543,6 +543,7 @@ class DataShape(Mono):
     --------
     datashape.dshape
     """
+    cls = MEASURE
     composite = False
 
     def __init__(self, *parameters, **kwds):
@@ -553,6 +554,10 @@ class DataShape(Mono):
                             % parameters[0])
         if len(parameters) > 0:
             self._parameters = tuple(map(_launder, parameters))
+            if isinstance(self._parameters[-1], DataShape):
+                # its dimensions are dimensions of this datashape
+                self._parameters = (self._parameters[:-1] +
+                                    self._parameters[-1].parameters)
             if getattr(self._parameters[-1], 'cls', MEASURE) != MEASURE:
                 raise TypeError(('Only a measure can appear on the'
                                  ' last position of a datashape, not %s') %
-- 
2.43.0


From 79702389829636932384a4c7a02b0ec2ca4f1049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 40/64] fix: an optional array equals the datashape that holds
 it

---
 datashape/coretypes.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index b4325e3..c094d2d 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -86,7 +86,7 @@ class Mono(with_metaclass(Type, object)):
 
     def __eq__(self, other):
         return (isinstance(other, Mono) and
-                self.shape == other.shape and
+                self._dims == other._dims and
                 self.measure.info() == other.measure.info())
 
     def __ne__(self, other):
@@ -96,13 +96,16 @@ class Mono(with_metaclass(Type, object)):
         try:
             h = self._hash
         except AttributeError:
-            h = self._hash = hash(self.shape) ^ hash(self.measure.info())
+            h = self._hash = hash(self._dims) ^ hash(self.measure.info())
         return h
 
     @property
     def shape(self):
         return ()
 
+    # The dimensions in front of the measure
+    _dims = ()
+
     def __len__(self):
         return 1
 
@@ -592,6 +595,8 @@ class DataShape(Mono):
     def shape(self):
         return self.parameters[:-1]
 
+    _dims = shape
+
     @property
     def measure(self):
         return self.parameters[-1]
-- 
2.43.0


From e05952604520a895eefa32c2d94e007e3fc07d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 41/64] fix: refuse decimals whose precision or scale is no
 integer with TypeError

---
 datashape/coretypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index c094d2d..3dea4c8 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -477,8 +477,8 @@ class Decimal(Unit):
     __slots__ = 'precision', 'scale'
 
     def __init__(self, precision, scale=0):
-        self.precision = precision
-        self.scale = scale
+        self.precision = operator.index(precision)
+        self.scale = operator.index(scale)
 
     def __str__(self):
         return 'decimal[precision={precision}, scale={scale}]'.format(
-- 
2.43.0


From 973a0bdb71bf9228c693b1552447b53885251a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:41 +0000
Subject: [PATCH 42/64] fix: unite values of any one type with missing ones

---
 datashape/discovery.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datashape/discovery.py b/datashape/discovery.py
index a071853..d404192 100644
--- a/datashape/discovery.py
+++ b/datashape/discovery.py
@@ -295,7 +295,10 @@ def unite_base(dshapes):
     except KeyError:
         return len(dshapes) * null
     base = None
-    if all(isinstance(ds, Unit) for ds in good_dshapes):
+    if (all(isinstance(ds, Unit) for ds in good_dshapes) and
+            len(set(good_dshapes)) == 1):
+        base = good_dshapes[0]
+    elif all(isinstance(ds, Unit) for ds in good_dshapes):
         try:
             base = lowest_common_dshape(good_dshapes)
         except ValueError:  # no common dshape
-- 
2.43.0


From 9ee4e73ad7db33dcfa476555b0689360bcbc155c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 43/64] fix: import the NumPy record without fields as a record

---
 datashape/coretypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 3dea4c8..6f7936e 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -1405,7 +1405,7 @@ def from_numpy(shape, dt):
         measure = String(dtype.itemsize, 'A')
     elif dtype.kind == 'U':
         measure = String(dtype.itemsize // 4, 'U32')
-    elif dtype.fields:
+    elif dtype.names is not None:
         fields = [(name, dtype.fields[name]) for name in dtype.names]
         # f[0] is the nested dtype to recurse into, ignore the byte offset f[1]
         # and the title, if any
-- 
2.43.0


From bc466124d6cc128d72546d7e60ee6befec3a3de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 44/64] fix: refuse NumPy time deltas that count multiples of a
 unit

---
 datashape/coretypes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 6f7936e..7658f9c 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -794,8 +794,9 @@ class CType(Unit):
             defaults = {'D': date_, 'Y': date_, 'M': date_, 'W': date_}
             return defaults.get(unit, datetime_)
         elif np.issubdtype(dt, np.timedelta64):
-            unit, _ = np.datetime_data(dt)
-            return TimeDelta(unit=unit)
+            unit, count = np.datetime_data(dt)
+            if count == 1:
+                return TimeDelta(unit=unit)
         elif np.issubdtype(dt, np.unicode_):
             return String(dt.itemsize // 4, 'U32')
         elif np.issubdtype(dt, np.str_) or np.issubdtype(dt, np.bytes_):
-- 
2.43.0


From 010c90d7f1def8ffbf6582a1bf4cb0c658911c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:22 +0000
Subject: [PATCH 45/64] fix: refuse to export strings too long for NumPy

---
 datashape/coretypes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 7658f9c..6a2dfe2 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -439,6 +439,9 @@ class String(Unit):
         dtype('S30')
         """
         if self.fixlen is not None:
+            charsize = 1 if self.encoding == 'A' else 4
+            if self.fixlen * charsize > np.iinfo(np.intc).max:
+                raise TypeError('DataShape %s is not NumPy-compatible' % self)
             if self.encoding == 'A':
                 return np.dtype('S%d' % self.fixlen)
             else:
-- 
2.43.0


From 30ceb48d8b98988fc2d32a3c05e4fbe52e3a3053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 46/64] fix: refuse dimensions as the type of a categorical

---
 datashape/coretypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 6a2dfe2..2002a98 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -1161,7 +1161,7 @@ class Categorical(Mono):
         elif not isinstance(type, Mono):
             raise TypeError('type parameter to categorical datashape must be '
                             'a datashape, not %r' % (type,))
-        self.type = type.measure
+        self.type = _launder_measure(type).measure
         self.ordered = ordered
 
     def __str__(self):
-- 
2.43.0


From e47511a59751698e1ab6eff2701e677a5ebc3d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:06 +0000
Subject: [PATCH 47/64] fix: import the empty NumPy string as a string, not as
 bytes

---
 datashape/coretypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 2002a98..88887f3 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -788,6 +788,8 @@ class CType(Unit):
         >>> CType.from_numpy_dtype(dtype('U30'))
         ctype("string[30, 'U32']")
         """
+        if dt.kind == 'S':  # an empty one would be found as bytes
+            return String(dt.itemsize, 'ascii')
         try:
             return Type.lookup_type(dt.name)
         except KeyError:
-- 
2.43.0


From 43700a1475d8d5eec897291b1e16c7889c1f34f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:38 +0000
Subject: [PATCH 48/64] fix: isnumeric of records whose names NumPy refuses

---
 datashape/predicates.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datashape/predicates.py b/datashape/predicates.py
index 2480626..bfbbd65 100644
--- a/datashape/predicates.py
+++ b/datashape/predicates.py
@@ -166,13 +166,15 @@ def isnumeric(ds):
     False
     """
     ds = launder(ds)
+    if not isinstance(ds, Unit):  # a record may not even have a dtype
+        return False
 
     try:
         npdtype = to_numpy_dtype(ds)
     except TypeError:
         return False
     else:
-        return isinstance(ds, Unit) and np.issubdtype(npdtype, np.number)
+        return np.issubdtype(npdtype, np.number)
 
 
 def launder(ds):
-- 
2.43.0


From 0bb2e216ae79794c9b28eca533b0ca905a2015bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:40 +0000
Subject: [PATCH 49/64] fix: keep empty field names in NumPy dtypes

---
 datashape/coretypes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 88887f3..43fa387 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -1128,8 +1128,11 @@ class Record(with_metaclass(RecordMeta, CollectionPrinter, Mono)):
         """
         To Numpy record dtype.
         """
-        return np.dtype([(str(name), _field_dtype(typ))
-                         for name, typ in self.fields])
+        # names and formats, as NumPy takes an empty name in a list of fields
+        # for a missing one
+        return np.dtype({'names': [str(name) for name in self.names],
+                         'formats': [_field_dtype(typ)
+                                     for typ in self.types]})
 
     def __getitem__(self, key):
         return self.dict[key]
-- 
2.43.0


From 275c0d3ce75a2320f98cebb1511d78dce2edadd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:16 +0000
Subject: [PATCH 50/64] fix: validate complex values against complex types

---
 datashape/user.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/user.py b/datashape/user.py
index 1481975..012d905 100644
--- a/datashape/user.py
+++ b/datashape/user.py
@@ -10,7 +10,7 @@ from datetime import date, time, datetime
 __all__ = ['validate', 'issubschema']
 
 
-basetypes = np.generic, int, float, str, date, time, datetime
+basetypes = np.generic, int, float, complex, str, date, time, datetime
 
 
 @dispatch(np.dtype, basetypes)
-- 
2.43.0


From 7712e915d2be53fbb629aa591a3dee4570ca611a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:18 +0000
Subject: [PATCH 51/64] fix: refuse records in maxtype and supertype like other
 non-numeric types

---
 datashape/typesets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datashape/typesets.py b/datashape/typesets.py
index b74a138..df02903 100644
--- a/datashape/typesets.py
+++ b/datashape/typesets.py
@@ -161,7 +161,7 @@ def supertype(measure):
     """
     if isinstance(measure, Option):
         measure = measure.ty
-    assert matches_typeset(measure, scalar), 'measure must be numeric'
+    assert measure in scalar, 'measure must be numeric'
     return supertype_map[measure]
 
 
@@ -195,7 +195,7 @@ def maxtype(measure):
     isoption = isinstance(measure, Option)
     if isoption:
         measure = measure.ty
-    if (not matches_typeset(measure, scalar) and
+    if (measure not in scalar and
         not isinstance(measure, (Decimal, TimeDelta))):
 
         raise TypeError('measure must be numeric')
-- 
2.43.0


From 54f0bd0458a9b61a545fd9e9e79586159f1417ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:45 +0000
Subject: [PATCH 52/64] fix: records match no type set instead of raising
 KeyError

---
 datashape/typesets.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datashape/typesets.py b/datashape/typesets.py
index df02903..b8e9e6b 100644
--- a/datashape/typesets.py
+++ b/datashape/typesets.py
@@ -6,7 +6,8 @@ from itertools import chain
 
 from .coretypes import (Unit, int8, int16, int32, int64, uint8, uint16, uint32,
                         uint64, float16, float32, float64, complex64,
-                        complex128, bool_, Decimal, TimeDelta, Option)
+                        complex128, bool_, Decimal, TimeDelta, Option,
+                        Record)
 
 
 __all__ = ['TypeSet', 'matches_typeset', 'signed', 'unsigned', 'integral',
@@ -73,6 +74,8 @@ def matches_typeset(types, signature):
     """
     if types in signature:
         return True
+    if isinstance(types, Record) and isinstance(signature, TypeSet):
+        return False    # indexed by name, so not a sequence of types
     match = True
     for a, b in zip(types, signature):
         check = isinstance(b, TypeSet)
-- 
2.43.0


From 0863c8bf33df0c703fb2a43e87d1e00e412905cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:55 +0000
Subject: [PATCH 53/64] fix: assert_dshape_equal applies its flags inside
 categoricals

---
 datashape/util/testing.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/datashape/util/testing.py b/datashape/util/testing.py
index 84eeb04..7a59e0c 100644
--- a/datashape/util/testing.py
+++ b/datashape/util/testing.py
@@ -2,6 +2,7 @@ from abc import ABCMeta
 
 from ..py2help import with_metaclass
 from ..coretypes import (
+    Categorical,
     DataShape,
     DateTime,
     Function,
@@ -201,6 +202,21 @@ def assert_dshape_equal(a, b, path=None, **kwargs):
     assert_dshape_equal(a.value, b.value, path=path + ('.value',), **kwargs)
 
 
+@dispatch(Categorical, Categorical)
+def assert_dshape_equal(a, b, path=None, **kwargs):
+    if path is None:
+        path = ()
+    for slot in 'categories', 'ordered':
+        assert getattr(a, slot) == getattr(b, slot), \
+            "categorical %s do not match: %r != %r\n%s" % (
+                slot,
+                getattr(a, slot),
+                getattr(b, slot),
+                _fmt_path(path + ('.' + slot,)),
+            )
+    assert_dshape_equal(a.type, b.type, path=path + ('.type',), **kwargs)
+
+
 @dispatch(Record, Record)
 def assert_dshape_equal(a, b, check_record_order=True, path=None, **kwargs):
     afields = a.fields
-- 
2.43.0


From 18830ee929a4683bc17dd0315faeeda1a776015e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:30 +0000
Subject: [PATCH 54/64] fix: assert_dshape_equal compares a type with its
 datashape, flags included

---
 datashape/util/testing.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/datashape/util/testing.py b/datashape/util/testing.py
index 7a59e0c..bb5d46b 100644
--- a/datashape/util/testing.py
+++ b/datashape/util/testing.py
@@ -5,8 +5,11 @@ from ..coretypes import (
     Categorical,
     DataShape,
     DateTime,
+    Ellipsis,
+    Fixed,
     Function,
     Map,
+    Mono,
     Option,
     Record,
     String,
@@ -14,6 +17,7 @@ from ..coretypes import (
     TimeDelta,
     Tuple,
     Units,
+    Var,
 )
 from ..dispatch import dispatch
 
@@ -106,6 +110,21 @@ def assert_dshape_equal(a, b, check_dim=True, path=None, **kwargs):
     )
 
 
+@dispatch(DataShape, Mono)
+def assert_dshape_equal(a, b, **kwargs):
+    # a type on its own is the same as its datashape
+    if isinstance(b, (Fixed, Var, Ellipsis)):
+        return _base_case(a, b, **kwargs)
+    assert_dshape_equal(a, DataShape(b), **kwargs)
+
+
+@dispatch(Mono, DataShape)
+def assert_dshape_equal(a, b, **kwargs):
+    if isinstance(a, (Fixed, Var, Ellipsis)):
+        return _base_case(a, b, **kwargs)
+    assert_dshape_equal(DataShape(a), b, **kwargs)
+
+
 class Slotted(with_metaclass(ABCMeta)):
     @classmethod
     def __subclasshook__(cls, subcls):
-- 
2.43.0


From 935e43274d6f43bd254749e6d4e157cb38faa8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:57 +0000
Subject: [PATCH 55/64] fix: the type of a mixed set does not depend on its
 iteration order

---
 datashape/discovery.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datashape/discovery.py b/datashape/discovery.py
index d404192..c749e84 100644
--- a/datashape/discovery.py
+++ b/datashape/discovery.py
@@ -226,6 +226,8 @@ def discover(seq):
             pass
 
     types = list(map(discover, seq))
+    if isinstance(seq, (set, frozenset)):
+        types.sort(key=str)  # sets have no order of their own
     return do_one([unite_identical, unite_merge_dimensions, Tuple])(types)
 
 
-- 
2.43.0


From 3051987ba7ec4d902b2baf36a6154bff26e87bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:50 +0000
Subject: [PATCH 56/64] fix: naming a datashape does not rebind a registered
 name

---
 datashape/coretypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 43fa387..8291712 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -580,7 +580,7 @@ class DataShape(Mono):
         self.name = kwds.get('name')
 
         if self.name:
-            type(type(self))._registry[self.name] = self
+            Type.register(self.name, self)
 
     def __len__(self):
         return len(self.parameters)
-- 
2.43.0


From 67cd71f401ad9274d82b7e50d33344b9c73d0821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:29 +0000
Subject: [PATCH 57/64] fix: print the members of an unnamed type set in their
 order, not that of a hash table

---
 datashape/typesets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datashape/typesets.py b/datashape/typesets.py
index b8e9e6b..0c0ca19 100644
--- a/datashape/typesets.py
+++ b/datashape/typesets.py
@@ -49,8 +49,10 @@ class TypeSet(Unit):
     def __repr__(self):
         if self.name:
             return '{%s}' % (self.name,)
-        return "%s(%s, name=%s)" % (self.__class__.__name__, self._set,
-                                    self.name)
+        members = sorted(self._set, key=self._order.index)
+        return "%s({%s}, name=%s)" % (self.__class__.__name__,
+                                      ', '.join(map(repr, members)),
+                                      self.name)
 
     def __or__(self, other):
         return TypeSet(*chain(self, other))
-- 
2.43.0


From 53fa95b8fb8f1ba6d1f51d92f419d1f933a9f2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:48 +0000
Subject: [PATCH 58/64] fix: refuse records too large for a NumPy dtype

---
 datashape/coretypes.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 8291712..c016155 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -1131,8 +1131,7 @@ class Record(with_metaclass(RecordMeta, CollectionPrinter, Mono)):
         # names and formats, as NumPy takes an empty name in a list of fields
         # for a missing one
         return np.dtype({'names': [str(name) for name in self.names],
-                         'formats': [_field_dtype(typ)
-                                     for typ in self.types]})
+                         'formats': _field_dtypes(self, self.types)})
 
     def __getitem__(self, key):
         return self.dict[key]
@@ -1212,8 +1211,9 @@ class Tuple(CollectionPrinter, Mono):
         """
         To Numpy record dtype.
         """
-        return np.dtype([('f%d' % i, _field_dtype(typ))
-                         for i, typ in enumerate(self.parameters[0])])
+        dtypes = _field_dtypes(self, self.parameters[0])
+        return np.dtype([('f%d' % i, dtype)
+                         for i, dtype in enumerate(dtypes)])
 
 
 class JSON(Mono):
@@ -1355,6 +1355,15 @@ def _field_dtype(ds):
         raise TypeError('DataShape %s is not NumPy-compatible' % ds)
 
 
+def _field_dtypes(ds, types):
+    """ The NumPy dtypes of the fields of a record or tuple """
+    dtypes = [_field_dtype(typ) for typ in types]
+    # NumPy does not notice when the sizes add up to more than it can hold
+    if sum(dtype.itemsize for dtype in dtypes) > np.iinfo(np.intc).max:
+        raise TypeError('DataShape %s is not NumPy-compatible' % ds)
+    return dtypes
+
+
 def to_numpy_dtype(ds):
     """ Throw away the shape information and just return the
     measure as NumPy dtype instance."""
-- 
2.43.0


From 6836d4cec3eb331c729c1e7743d607db81df5689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:14 +0000
Subject: [PATCH 59/64] fix: find the text in a matrix of Python objects

---
 datashape/discovery.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datashape/discovery.py b/datashape/discovery.py
index c749e84..fe801fc 100644
--- a/datashape/discovery.py
+++ b/datashape/discovery.py
@@ -401,6 +401,8 @@ def is_string_array(x):
     >>> is_string_array(np.array(['Hello', None], dtype='O'))
     False
     """
+    if isinstance(x, np.matrix):  # whose slices never get flat
+        x = np.asarray(x)
     return all(isinstance(i, _strtypes) for i in x.flat[:5].tolist())
 
 
-- 
2.43.0


From e1a23665a2d2d4c93df46279c4ba65a90cef976e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:54 +0000
Subject: [PATCH 60/64] fix: restore types without slots or parameters when
 unpickling

---
 datashape/coretypes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index c016155..e5c5b98 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -66,6 +66,7 @@ class Mono(with_metaclass(Type, object)):
     """
 
     composite = False
+    _parameters = ()  # also once unpickled: an empty state is not restored
 
     def __init__(self, *params):
         self._parameters = params
-- 
2.43.0


From 8ad3b98320e5f3e32d9a4d7d15b1f15c14862bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:19 +0000
Subject: [PATCH 61/64] fix: compare instances of classes derived from Fixed

---
 datashape/coretypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index e5c5b98..ad1fb8d 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -862,7 +862,7 @@ class Fixed(Unit):
         return self.val
 
     def __eq__(self, other):
-        return (type(other) is Fixed and self.val == other.val or
+        return (type(other) is type(self) and self.val == other.val or
                 isinstance(other, _inttypes) and self.val == other)
 
     __hash__ = Mono.__hash__
-- 
2.43.0


From b4de34ca1f670e71d43ad461cb81eca1fc7328f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:26 +0000
Subject: [PATCH 62/64] fix: assert_dshape_equal tells types of derived classes
 apart

---
 datashape/util/testing.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/datashape/util/testing.py b/datashape/util/testing.py
index bb5d46b..8333f61 100644
--- a/datashape/util/testing.py
+++ b/datashape/util/testing.py
@@ -40,6 +40,14 @@ def _fmt_path(path):
     return 'path: _' + ''.join(path)
 
 
+def _check_type(a, b, path):
+    """Check that neither type is of a class derived from the other's.
+    """
+    assert type(a) == type(b), 'types do not match: %s != %s\n%s' % (
+        type(a).__name__, type(b).__name__, _fmt_path(path),
+    )
+
+
 @dispatch(DataShape, DataShape)
 def assert_dshape_equal(a, b, check_dim=True, path=None, **kwargs):
     """Assert that two dshapes are equal, providing an informative error
@@ -167,6 +175,7 @@ def assert_dshape_equal(a, b, path=None, check_tz=True, **kwargs):
 
 @dispatch(TimeDelta, TimeDelta)
 def assert_dshape_equal(a, b, path=None, check_timedelta_unit=True, **kwargs):
+    _check_type(a, b, path)
     if check_timedelta_unit:
         _check_slots(a, b, path)
 
@@ -175,6 +184,7 @@ def assert_dshape_equal(a, b, path=None, check_timedelta_unit=True, **kwargs):
 def assert_dshape_equal(a, b, path=None, **kwargs):
     if path is None:
         path = ()
+    _check_type(a, b, path)
 
     assert a.unit == b.unit, '%s units do not match: %r != %s\n%s' % (
         type(a).__name__.lower(), a.unit, b.unit, _fmt_path(path + ('.unit',)),
@@ -192,6 +202,7 @@ def assert_dshape_equal(a,
                         **kwargs):
     if path is None:
         path = ()
+    _check_type(a, b, path)
     if check_str_encoding:
         assert a.encoding == b.encoding, \
             'string encodings do not match: %r != %r\n%s' % (
@@ -209,6 +220,7 @@ def assert_dshape_equal(a,
 def assert_dshape_equal(a, b, path=None, **kwargs):
     if path is None:
         path = ()
+    _check_type(a, b, path)
     path += '.ty',
     return assert_dshape_equal(a.ty, b.ty, path=path, **kwargs)
 
@@ -217,6 +229,7 @@ def assert_dshape_equal(a, b, path=None, **kwargs):
 def assert_dshape_equal(a, b, path=None, **kwargs):
     if path is None:
         path = ()
+    _check_type(a, b, path)
     assert_dshape_equal(a.key, b.key, path=path + ('.key',), **kwargs)
     assert_dshape_equal(a.value, b.value, path=path + ('.value',), **kwargs)
 
@@ -225,6 +238,7 @@ def assert_dshape_equal(a, b, path=None, **kwargs):
 def assert_dshape_equal(a, b, path=None, **kwargs):
     if path is None:
         path = ()
+    _check_type(a, b, path)
     for slot in 'categories', 'ordered':
         assert getattr(a, slot) == getattr(b, slot), \
             "categorical %s do not match: %r != %r\n%s" % (
@@ -238,6 +252,7 @@ def assert_dshape_equal(a, b, path=None, **kwargs):
 
 @dispatch(Record, Record)
 def assert_dshape_equal(a, b, check_record_order=True, path=None, **kwargs):
+    _check_type(a, b, path)
     afields = a.fields
     bfields = b.fields
 
@@ -271,6 +286,7 @@ def assert_dshape_equal(a, b, check_record_order=True, path=None, **kwargs):
 
 @dispatch(Tuple, Tuple)
 def assert_dshape_equal(a, b, path=None, **kwargs):
+    _check_type(a, b, path)
     assert len(a.dshapes) == len(b.dshapes), \
         'tuples have mismatched field counts: %d != %d\n%r != %r\n%s' % (
             len(a.dshapes), len(b.dshapes), a, b, _fmt_path(path),
@@ -290,6 +306,7 @@ def assert_dshape_equal(a, b, path=None, **kwargs):
 
 @dispatch(Function, Function)
 def assert_dshape_equal(a, b, path=None, **kwargs):
+    _check_type(a, b, path)
     assert len(a.argtypes) == len(b.argtypes),\
         'functions have different arities: %d != %d\n%r != %r\n%s' % (
             len(a.argtypes), len(b.argtypes), a, b, _fmt_path(path),
-- 
2.43.0


From 07599573ee7ee0a84106057d87da021168a6cdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:59 +0000
Subject: [PATCH 63/64] fix: issubschema takes options, tuples, maps and
 functions on their own

---
 datashape/user.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datashape/user.py b/datashape/user.py
index 012d905..adc1f1c 100644
--- a/datashape/user.py
+++ b/datashape/user.py
@@ -85,7 +85,10 @@ def validate(schema, value):
 
 @dispatch(object, object)
 def issubschema(a, b):
-    return issubschema(dshape(a), dshape(b))
+    a, b = dshape(a), dshape(b)
+    # dshape leaves some types as they are, e.g. options
+    return issubschema(a if isinstance(a, DataShape) else DataShape(a),
+                       b if isinstance(b, DataShape) else DataShape(b))
 
 
 @dispatch(DataShape, DataShape)
-- 
2.43.0


From 84cdd914b3dd0a089c884ee722cdbe9d4611f326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:38 +0000
Subject: [PATCH 64/64] fix: types that count as false are types: test for None
 when parsing and uniting

---
 datashape/discovery.py | 2 +-
 datashape/parser.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/datashape/discovery.py b/datashape/discovery.py
index fe801fc..fb438cf 100644
--- a/datashape/discovery.py
+++ b/datashape/discovery.py
@@ -311,7 +311,7 @@ def unite_base(dshapes):
         base = Record([[name,
                         unite_base([ds.dict.get(name, null) for ds in good_dshapes]).subshape[0]]
                        for name in names])
-    if base:
+    if base is not None:
         if bynull.get(True):
             base = Option(base)
         return len(dshapes) * base
diff --git a/datashape/parser.py b/datashape/parser.py
index 28f22b1..6b3778f 100644
--- a/datashape/parser.py
+++ b/datashape/parser.py
@@ -171,7 +171,7 @@ class DataShapeParser(object):
             self.pos = saved_pos
         # Try dtype
         dtype = self.parse_dtype()
-        if dtype:
+        if dtype is not None:
             return coretypes.DataShape(dtype)
         else:
             return None
-- 
2.43.0

