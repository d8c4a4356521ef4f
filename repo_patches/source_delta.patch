From f317df38d2c57bde3a547e6f4d4d415b2ef0a2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 001/203] fix: // is exact for integers beyond 2**53 and
 reports overflow instead of leaving the integer range

---
 titus/lib/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/titus/lib/core.py b/titus/lib/core.py
index f1c0c2c..ee4453a 100644
--- a/titus/lib/core.py
+++ b/titus/lib/core.py
@@ -99,7 +99,11 @@ class FloorDivide(LibFcn):
         if y == 0:
             raise PFARuntimeException("integer division by zero", self.errcodeBase + 0, self.name, pos)
         else:
-            return int(x / float(y))
+            # exact integer arithmetic, truncating toward zero (floating point would lose precision beyond 2**53)
+            out = abs(x) // abs(y)
+            if (x < 0) != (y < 0):
+                out = -out
+            return checkForOverflow(paramTypes[0], out, self.errcodeBase + 1, self.errcodeBase + 2, self.name, pos)
 provide(FloorDivide())
 
 class Negative(LibFcn):
-- 
2.43.0


From 0c06d7470571cc674395df8e2b4f230ae0070d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:54 +0000
Subject: [PATCH 002/203] fix: %% on floating point numbers is exact (no
 rounding through Python's modulo)

---
 titus/lib/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/titus/lib/core.py b/titus/lib/core.py
index ee4453a..e95567e 100644
--- a/titus/lib/core.py
+++ b/titus/lib/core.py
@@ -141,6 +141,11 @@ class Remainder(LibFcn):
         else:
             if not math.isnan(x) and not math.isinf(x) and math.isinf(y):
                 return x
+            elif isinstance(x, float) or isinstance(y, float):
+                # fmod is exact; going through Python's % would round when abs(x) is much less than abs(y)
+                if math.isinf(x):
+                    return float("nan")
+                return math.fmod(x, y)
             else:
                 out = x % y
                 if x < 0 and out > 0:
-- 
2.43.0


From 679b39fb4450e871c5f18b413972b8e59ef13b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:11 +0000
Subject: [PATCH 003/203] fix: m.exp, m.expm1, m.cosh, m.sinh and m.hypot give
 infinity instead of raising a Python OverflowError

---
 titus/lib/pfamath.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/titus/lib/pfamath.py b/titus/lib/pfamath.py
index b9e051d..2eedfd2 100644
--- a/titus/lib/pfamath.py
+++ b/titus/lib/pfamath.py
@@ -146,30 +146,33 @@ class CosH(LibFcn):
     name = prefix + "cosh"
     sig = Sig([{"x": P.Double()}], P.Double())
     errcodeBase = 27100
-    def genpy(self, paramTypes, args, pos):
-        return "math.cosh({0})".format(*args)
     def __call__(self, state, scope, pos, paramTypes, x):
-        return math.cosh(x)
+        try:
+            return math.cosh(x)
+        except OverflowError:
+            return float("inf")
 provide(CosH())
 
 class Exp(LibFcn):
     name = prefix + "exp"
     sig = Sig([{"x": P.Double()}], P.Double())
     errcodeBase = 27110
-    def genpy(self, paramTypes, args, pos):
-        return "math.exp({0})".format(*args)
     def __call__(self, state, scope, pos, paramTypes, x):
-        return math.exp(x)
+        try:
+            return math.exp(x)
+        except OverflowError:
+            return float("inf")
 provide(Exp())
 
 class ExpM1(LibFcn):
     name = prefix + "expm1"
     sig = Sig([{"x": P.Double()}], P.Double())
     errcodeBase = 27120
-    def genpy(self, paramTypes, args, pos):
-        return "(math.exp({0}) - 1.0)".format(*args)
     def __call__(self, state, scope, pos, paramTypes, x):
-        return math.exp(x) - 1.0
+        try:
+            return math.exp(x) - 1.0
+        except OverflowError:
+            return float("inf")
 provide(ExpM1())
 
 class Floor(LibFcn):
@@ -193,7 +196,7 @@ class Hypot(LibFcn):
         if math.isinf(x) or math.isinf(y):
             return float("inf")
         else:
-            return math.sqrt(x**2 + y**2)
+            return math.hypot(x, y)
 provide(Hypot())
 
 class Ln(LibFcn):
@@ -322,10 +325,11 @@ class SinH(LibFcn):
     name = prefix + "sinh"
     sig = Sig([{"x": P.Double()}], P.Double())
     errcodeBase = 27230
-    def genpy(self, paramTypes, args, pos):
-        return "math.sinh({0})".format(*args)
     def __call__(self, state, scope, pos, paramTypes, x):
-        return math.sinh(x)
+        try:
+            return math.sinh(x)
+        except OverflowError:
+            return float("inf") if x > 0 else float("-inf")
 provide(SinH())
 
 class Sqrt(LibFcn):
-- 
2.43.0


From 0b5e738c414835c5f0ea84cfd0d232f9fe4e6d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:20 +0000
Subject: [PATCH 004/203] fix: m.copysign reports integer overflow instead of
 returning a value outside its type

---
 titus/lib/pfamath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/lib/pfamath.py b/titus/lib/pfamath.py
index 2eedfd2..4e6ae8f 100644
--- a/titus/lib/pfamath.py
+++ b/titus/lib/pfamath.py
@@ -128,7 +128,7 @@ class CopySign(LibFcn):
     sig = Sig([{"mag": P.Wildcard("A", anyNumber)}, {"sign": P.Wildcard("A")}], P.Wildcard("A"))
     errcodeBase = 27080
     def __call__(self, state, scope, pos, paramTypes, mag, sign):
-        return abs(mag) * (-1 if sign < 0 else 1)
+        return checkForOverflow(paramTypes[-1], abs(mag) * (-1 if sign < 0 else 1), self.errcodeBase + 0, self.errcodeBase + 1, self.name, pos)
 provide(CopySign())
 
 class Cos(LibFcn):
-- 
2.43.0


From 770bdddf0d800cb0d9bc2f082346a9d1960344ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:28 +0000
Subject: [PATCH 005/203] fix: bytes.isXXX work on bytes computed by other
 functions

---
 titus/lib/bytes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/titus/lib/bytes.py b/titus/lib/bytes.py
index 92799e8..8d6763a 100644
--- a/titus/lib/bytes.py
+++ b/titus/lib/bytes.py
@@ -82,6 +82,8 @@ class Tester(LibFcn):
     codec = None
     def __call__(self, state, scope, pos, paramTypes, x):
         if paramTypes[0] == "bytes" or paramTypes[0] == {"type": "bytes"}:
+            if isinstance(x, str):
+                x = stringToBytes(x)
             try:
                 codecs.decode(x, self.codec, "strict")
             except UnicodeDecodeError:
-- 
2.43.0


From 9d1c92224cc5273a340917ab61abe6a460273924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:28 +0000
Subject: [PATCH 006/203] fix: bytes.fromBase64 reports badly padded text as
 invalid base64

---
 titus/lib/bytes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/titus/lib/bytes.py b/titus/lib/bytes.py
index 8d6763a..6c52dd8 100644
--- a/titus/lib/bytes.py
+++ b/titus/lib/bytes.py
@@ -18,6 +18,7 @@
 # limitations under the License.
 
 import base64
+import binascii
 import codecs
 import re
 
@@ -253,6 +254,6 @@ class FromBase64(LibFcn):
                 raise TypeError
             out = base64.b64decode(s)
             return bytesToString(out)
-        except TypeError:
+        except (TypeError, binascii.Error):
             raise PFARuntimeException("invalid base64", self.errcodeBase + 0, self.name, pos)
 provide(FromBase64())
-- 
2.43.0


From 4a68a12aa75ebe17e534f7bc37ea9fe7c2e5d703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:38 +0000
Subject: [PATCH 007/203] fix: jsonEncoder accepts bytes and keeps the branch
 named by a union tag

---
 titus/datatype.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 34f3989..7b7463e 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -25,7 +25,7 @@ import avro.schema
 
 import titus.errors
 import titus.util
-from titus.util import ts, stringToBytes
+from titus.util import ts, stringToBytes, bytesToString
 
 ######################################################### the most general types
 
@@ -977,11 +977,11 @@ def jsonEncoder(avroType, value, tagged=True):
         return float(value)
     elif isinstance(avroType, AvroDouble) and isinstance(value, (int, float)) and value is not True and value is not False:
         return float(value)
-    elif isinstance(avroType, AvroBytes) and isinstance(value, str):
-        return value
-    elif isinstance(avroType, AvroFixed) and isinstance(value, str):
+    elif isinstance(avroType, AvroBytes) and isinstance(value, (str, bytes)):
+        return bytesToString(value) if isinstance(value, bytes) else value
+    elif isinstance(avroType, AvroFixed) and isinstance(value, (str, bytes)):
         if len(value) == avroType.size:
-            return value
+            return bytesToString(value) if isinstance(value, bytes) else value
     elif isinstance(avroType, AvroString) and isinstance(value, str):
         return value
     elif isinstance(avroType, AvroEnum) and isinstance(value, str) and value in avroType.symbols:
@@ -998,23 +998,24 @@ def jsonEncoder(avroType, value, tagged=True):
             elif field.default is not None:
                 pass
             else:
-                raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value), ts(avroType)))
+                raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value, default=repr), ts(avroType)))
         return out
     elif isinstance(avroType, AvroUnion) and any(isinstance(t, AvroNull) for t in avroType.types) and value is None:
         return None
     elif isinstance(avroType, AvroUnion):
         if isinstance(value, dict) and len(value) == 1:
-            val, = list(value.values())
+            (tag, val), = list(value.items())
             for t in avroType.types:
-                try:
-                    out = jsonEncoder(t, val, tagged)
-                except titus.errors.AvroException:
-                    pass
-                else:
-                    if tagged:
-                        return {t.name: out}
+                if t.name == tag or getattr(t, "fullName", None) == tag:
+                    try:
+                        out = jsonEncoder(t, val, tagged)
+                    except titus.errors.AvroException:
+                        pass
                     else:
-                        return out
+                        if tagged:
+                            return {t.name: out}
+                        else:
+                            return out
         for t in avroType.types:
             try:
                 out = jsonEncoder(t, value, tagged)
@@ -1025,7 +1026,7 @@ def jsonEncoder(avroType, value, tagged=True):
                     return {t.name: out}
                 else:
                     return out
-    raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value), ts(avroType)))
+    raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value, default=repr), ts(avroType)))
 
 def compare(avroType, x, y):
     """Returns -1, 0, or 1 depending on whether x is less than, equal to, or greater than y, according to the schema.
-- 
2.43.0


From c756eea00f125bee02f55cc8998d83c61fb53a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:13 +0000
Subject: [PATCH 008/203] fix: cast.avro and set keys encode bytes, nested
 unions and maps; impute.*OnNull only untag unions

---
 titus/datatype.py   | 81 +++++++++++++++++++++++++++++++++++++++++++++
 titus/lib/cast.py   | 15 ++-------
 titus/lib/impute.py | 15 +++------
 titus/lib/map.py    |  9 ++---
 4 files changed, 91 insertions(+), 29 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 7b7463e..6cf12b2 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -17,6 +17,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import io
 import json
 import math
 
@@ -1026,8 +1027,88 @@ def jsonEncoder(avroType, value, tagged=True):
                     return {t.name: out}
                 else:
                     return out
+        if isinstance(value, dict) and len(value) == 1:
+            # the tag may be a numeric type that has been widened
+            for t in avroType.types:
+                if isinstance(t, AvroNumber):
+                    try:
+                        out = jsonEncoder(t, val, tagged)
+                    except titus.errors.AvroException:
+                        pass
+                    else:
+                        if tagged:
+                            return {t.name: out}
+                        else:
+                            return out
     raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value, default=repr), ts(avroType)))
 
+def avroEncoder(avroType, value):
+    """Encode an object in the Avro binary format (without a header), given titus.datatype.AvroType.
+
+    Map items are written in the order of their keys, so that equal values have equal encodings.
+
+    :type avroType: titus.datatype.AvroType
+    :param avroType: type of this object
+    :type value: dicts, lists, strings, numbers, ``True``, ``False``, ``None``
+    :param value: the object, in which unions may be tagged and bytes may be strings
+    :rtype: bytes
+    :return: the encoded object
+    """
+
+    output = io.BytesIO()
+    encoder = avro.io.BinaryEncoder(output)
+
+    def write(avroType, value):
+        if isinstance(avroType, AvroNull):
+            encoder.write_null(value)
+        elif isinstance(avroType, AvroBoolean):
+            encoder.write_boolean(value)
+        elif isinstance(avroType, AvroInt):
+            encoder.write_int(value)
+        elif isinstance(avroType, AvroLong):
+            encoder.write_long(value)
+        elif isinstance(avroType, AvroFloat):
+            encoder.write_float(value)
+        elif isinstance(avroType, AvroDouble):
+            encoder.write_double(value)
+        elif isinstance(avroType, AvroBytes):
+            encoder.write_bytes(stringToBytes(value))
+        elif isinstance(avroType, AvroFixed):
+            encoder.write(stringToBytes(value))
+        elif isinstance(avroType, AvroString):
+            encoder.write_utf8(value)
+        elif isinstance(avroType, AvroEnum):
+            encoder.write_int(avroType.symbols.index(value))
+        elif isinstance(avroType, AvroArray):
+            if len(value) > 0:
+                encoder.write_long(len(value))
+                for x in value:
+                    write(avroType.items, x)
+            encoder.write_long(0)
+        elif isinstance(avroType, AvroMap):
+            if len(value) > 0:
+                encoder.write_long(len(value))
+                for k in sorted(value):
+                    encoder.write_utf8(k)
+                    write(avroType.values, value[k])
+            encoder.write_long(0)
+        elif isinstance(avroType, AvroRecord):
+            for field in avroType.fields:
+                write(field.avroType, value[field.name])
+        elif isinstance(avroType, AvroUnion):
+            if value is None:
+                tag, value = "null", None
+            else:
+                (tag, value), = list(value.items())
+            for i, t in enumerate(avroType.types):
+                if t.name == tag:
+                    encoder.write_long(i)
+                    write(t, value)
+                    break
+
+    write(avroType, jsonEncoder(avroType, value))
+    return output.getvalue()
+
 def compare(avroType, x, y):
     """Returns -1, 0, or 1 depending on whether x is less than, equal to, or greater than y, according to the schema.
 
diff --git a/titus/lib/cast.py b/titus/lib/cast.py
index 5910d7d..bfe03a5 100644
--- a/titus/lib/cast.py
+++ b/titus/lib/cast.py
@@ -18,13 +18,10 @@
 # limitations under the License.
 
 import math
-import io
 import json
 
-import avro.schema
-from avro.io import BinaryEncoder, DatumWriter
 
-from titus.util import untagUnion, bytesToString
+from titus.util import bytesToString
 from titus.datatype import schemaToAvroType
 from titus.datatype import jsonNodeToAvroType
 from titus.fcn import Fcn
@@ -41,7 +38,7 @@ from titus.lib.core import FLOAT_MIN_VALUE
 from titus.lib.core import FLOAT_MAX_VALUE
 from titus.lib.core import DOUBLE_MIN_VALUE
 from titus.lib.core import DOUBLE_MAX_VALUE
-from titus.datatype import jsonEncoder
+from titus.datatype import avroEncoder, jsonEncoder
 import titus.P as P
 
 provides = {}
@@ -274,13 +271,7 @@ class CastAvro(LibFcn):
     sig = Sig([{"x": P.Wildcard("A")}], P.Bytes())
     errcodeBase = 17110
     def __call__(self, state, scope, pos, paramTypes, x):
-        schema = avro.schema.Parse(json.dumps(paramTypes[0]))
-        x = untagUnion(x, paramTypes[0])
-        bytes_io = io.BytesIO()
-        writer = DatumWriter(schema)
-        writer.write(x, BinaryEncoder(bytes_io))
-        bytes_io.flush()
-        return bytesToString(bytes_io.getvalue())
+        return bytesToString(avroEncoder(jsonNodeToAvroType(paramTypes[0]), x))
 provide(CastAvro())
 
 class CastJson(LibFcn):
diff --git a/titus/lib/impute.py b/titus/lib/impute.py
index 99acfca..46441e8 100644
--- a/titus/lib/impute.py
+++ b/titus/lib/impute.py
@@ -25,6 +25,7 @@ from titus.signature import Sig
 from titus.signature import Sigs
 from titus.datatype import *
 from titus.errors import *
+from titus.util import untagUnion
 import titus.P as P
 
 provides = {}
@@ -41,13 +42,10 @@ class ErrorOnNull(LibFcn):
         if x is None:
             raise PFARuntimeException("encountered null", self.errcodeBase + 0, self.name, pos)
         else:
-            if isinstance(paramTypes[-1], (list, tuple)):
+            if isinstance(paramTypes[-1], (list, tuple)) or not isinstance(paramTypes[0], (list, tuple)):
                 return x
             else:
-                if isinstance(x, dict):
-                    return list(x.values())[0]
-                else:
-                    return x
+                return untagUnion(x, paramTypes[0])
 provide(ErrorOnNull())
 
 class DefaultOnNull(LibFcn):
@@ -58,13 +56,10 @@ class DefaultOnNull(LibFcn):
         if x is None:
             return default
         else:
-            if isinstance(paramTypes[-1], (list, tuple)):
+            if isinstance(paramTypes[-1], (list, tuple)) or not isinstance(paramTypes[0], (list, tuple)):
                 return x
             else:
-                if isinstance(x, dict):
-                    return list(x.values())[0]
-                else:
-                    return x
+                return untagUnion(x, paramTypes[0])
 provide(DefaultOnNull())
 
 class IsNan(LibFcn):
diff --git a/titus/lib/map.py b/titus/lib/map.py
index ce02b54..87a5dd5 100644
--- a/titus/lib/map.py
+++ b/titus/lib/map.py
@@ -22,7 +22,7 @@ import io
 import json
 
 import avro.schema
-from avro.io import BinaryEncoder, BinaryDecoder, DatumReader, DatumWriter
+from avro.io import BinaryDecoder, DatumReader
 
 from titus.fcn import Fcn
 from titus.fcn import LibFcn
@@ -41,12 +41,7 @@ prefix = "map."
 
 class ObjKey(object):
     def toKey(self, x, avroType):
-        x = jsonEncoder(avroType, x, False)
-        bytes = io.BytesIO()
-        writer = DatumWriter(avroType.schema)
-        writer.write(x, BinaryEncoder(bytes))
-        bytes.flush()
-        return (base64.b64encode(bytes.getvalue())).decode()
+        return (base64.b64encode(avroEncoder(avroType, x))).decode()
 
     def fromKey(self, key, avroType):
         bytes = io.BytesIO(base64.b64decode(key))
-- 
2.43.0


From 1212b3b19337c50a8d809bd0eb0fdf7ac7438c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:59 +0000
Subject: [PATCH 009/203] fix: a.median and a.ntile compare the item type by
 value, not by string identity

---
 titus/lib/array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/lib/array.py b/titus/lib/array.py
index d98ae0e..56d9719 100644
--- a/titus/lib/array.py
+++ b/titus/lib/array.py
@@ -760,7 +760,7 @@ class Median(LibFcn):
 
         if len(sa) % 2:
             return sa[half]
-        if (dataType is "float") or (dataType is "double"):
+        if dataType == "float" or dataType == "double":
             return (sa[half - 1] + sa[half])/2.0
         else:
             return sa[half - 1]
@@ -807,7 +807,7 @@ class NTile(LibFcn):
         k = (len(a) - 1.0)*p
         f = math.floor(k)
         dataType = paramTypes[-1]
-        if (dataType is "float") or (dataType is "double"):
+        if dataType == "float" or dataType == "double":
             c = math.ceil(k)
             if f == c:
                 return sa[int(k)]
-- 
2.43.0


From 52fc208276c000501c3007a324d503a1f0ff463d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 010/203] fix: comparison handles bytes values, NaN floats and
 untagged union members

---
 titus/datatype.py | 68 +++++++++++++++++++++++------------------------
 1 file changed, 33 insertions(+), 35 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 6cf12b2..e7b14aa 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -1109,6 +1109,31 @@ def avroEncoder(avroType, value):
     write(avroType, jsonEncoder(avroType, value))
     return output.getvalue()
 
+def findBranch(avroType, x):
+    """Find the type in a union to which a (tagged or untagged) value belongs.
+
+    :type avroType: titus.datatype.AvroUnion
+    :param avroType: the union
+    :type x: dicts, lists, strings, numbers, ``True``, ``False``, ``None``
+    :param x: value of the union
+    :rtype: (int, titus.datatype.AvroType, value)
+    :return: position of the type in the union, the type, and the untagged value
+    """
+
+    if isinstance(x, dict) and len(x) == 1:
+        (tag, value), = list(x.items())
+        for i, t in enumerate(avroType.types):
+            if t.name == tag:
+                return i, t, value
+    for i, t in enumerate(avroType.types):
+        try:
+            jsonEncoder(t, x)
+        except titus.errors.AvroException:
+            pass
+        else:
+            return i, t, x
+    raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(x, default=repr), ts(avroType)))
+
 def compare(avroType, x, y):
     """Returns -1, 0, or 1 depending on whether x is less than, equal to, or greater than y, according to the schema.
 
@@ -1133,7 +1158,6 @@ def compare(avroType, x, y):
     elif isinstance(avroType, AvroLong) and isinstance(x, int) and x is not True and x is not False and isinstance(y, int) and y is not True and y is not False:
         return (x > y) - (x < y)
     elif isinstance(avroType, AvroFloat) and isinstance(x, (int, float)) and x is not True and x is not False and isinstance(y, (int, float)) and y is not True and y is not False:
-        return (x > y) - (x < y)
         if math.isnan(x):
             if math.isnan(y):
                 return 0
@@ -1155,9 +1179,11 @@ def compare(avroType, x, y):
                 return -1
             else:
                 return (x > y) - (x < y)
-    elif isinstance(avroType, AvroBytes) and isinstance(x, str) and isinstance(y, str):
-        return (x > y) - (x < y)
-    elif isinstance(avroType, AvroFixed) and isinstance(x, str) and isinstance(y, str):
+    elif isinstance(avroType, (AvroBytes, AvroFixed)) and isinstance(x, (str, bytes)) and isinstance(y, (str, bytes)):
+        if isinstance(x, bytes):
+            x = bytesToString(x)
+        if isinstance(y, bytes):
+            y = bytesToString(y)
         return (x > y) - (x < y)
     elif isinstance(avroType, AvroString) and isinstance(x, str) and isinstance(y, str):
         return (x > y) - (x < y)
@@ -1194,36 +1220,8 @@ def compare(avroType, x, y):
                     return comparison
         return 0
     elif isinstance(avroType, AvroUnion):
-        if isinstance(x, dict) and len(x) == 1:
-            (xtag, x), = list(x.items())
-            xtypei, xtype = [(ti, t) for ti, t in enumerate(avroType.types) if t.name == xtag][0]
-        else:
-            xtypei = None
-            for ti, t in enumerate(avroType.types):
-                try:
-                    jsonEncoder(t, x)
-                except titus.errors.AvroException:
-                    pass
-                else:
-                    xtypei = ti
-                    xtype = t
-            if xtypei is None:
-                raise titus.errors.AvroException()
-        if isinstance(y, dict) and len(y) == 1:
-            (ytag, y), = list(y.items())
-            ytypei, ytype = [(ti, t) for ti, t in enumerate(avroType.types) if t.name == ytag][0]
-        else:
-            ytypei = None
-            for ti, t in enumerate(avroType.types):
-                try:
-                    jsonEncoder(t, y)
-                except titus.errors.AvroException:
-                    pass
-                else:
-                    ytypei = ti
-                    ytype = t
-            if ytypei is None:
-                raise titus.errors.AvroException()
+        xtypei, xtype, x = findBranch(avroType, x)
+        ytypei, ytype, y = findBranch(avroType, y)
         if xtypei == ytypei:
             return compare(xtype, x, y)
         else:
@@ -1235,7 +1233,7 @@ def compare(avroType, x, y):
             else:
                 return 0
     else:
-        raise titus.errors.AvroException("{0} or {1} does not match schema {2}".format(json.dumps(x), json.dumps(y), ts(avroType)))
+        raise titus.errors.AvroException("{0} or {1} does not match schema {2}".format(json.dumps(x, default=repr), json.dumps(y, default=repr), ts(avroType)))
 
 ########################### check data value against type
 
-- 
2.43.0


From dfe759620cb241aeebde3523a81ee5a16e2591da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:52 +0000
Subject: [PATCH 011/203] fix: assigning variables of several scopes in one set
 expression

---
 titus/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/util.py b/titus/util.py
index f249227..7d30c59 100644
--- a/titus/util.py
+++ b/titus/util.py
@@ -148,7 +148,7 @@ class DynamicScope(object):
             if symbol in self.symbols:
                 self.symbols[symbol] = value
             elif self.parent is not None:
-                self.parent.set(nameExpr)
+                self.parent.set({symbol: value})
             else:
                 raise RuntimeError()
 
-- 
2.43.0


From b926a55730866cfd3e23823b7f7eaeb5db72b357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:52 +0000
Subject: [PATCH 012/203] fix: map.zipmap and map.zipmapWithKey do not depend
 on the order of map keys

---
 titus/lib/map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/lib/map.py b/titus/lib/map.py
index 87a5dd5..36d90ee 100644
--- a/titus/lib/map.py
+++ b/titus/lib/map.py
@@ -499,7 +499,7 @@ class ZipMap(LibFcn):
         maps = args[:-1]
         keys = list(maps[0].keys())
         for m in maps:
-            if keys != list(m.keys()):
+            if set(keys) != set(m.keys()):
                 raise PFARuntimeException("misaligned maps", self.errcodeBase + 0, self.name, pos)
         out = {}
         for k in keys:
@@ -518,7 +518,7 @@ class ZipMapWithKey(LibFcn):
         maps = args[:-1]
         keys = list(maps[0].keys())
         for m in maps:
-            if keys != list(m.keys()):
+            if set(keys) != set(m.keys()):
                 raise PFARuntimeException("misaligned maps", self.errcodeBase + 0, self.name, pos)
         out = {}
         for k in keys:
-- 
2.43.0


From 575f1744ca33efae41d052b89ce37347e7e39338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 013/203] fix: filterMap accepts callbacks that return a plain
 type or a previously declared named type

---
 titus/lib/array.py |  6 +++---
 titus/lib/map.py   |  6 +++---
 titus/util.py      | 20 ++++++++++++++++++++
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/titus/lib/array.py b/titus/lib/array.py
index 56d9719..49fa423 100644
--- a/titus/lib/array.py
+++ b/titus/lib/array.py
@@ -27,7 +27,7 @@ from titus.signature import Sig
 from titus.signature import Sigs
 from titus.datatype import *
 from titus.errors import *
-from titus.util import callfcn, negativeIndex, startEnd
+from titus.util import callfcn, unionTags, negativeIndex, startEnd
 from titus.lib.core import INT_MIN_VALUE
 from titus.lib.core import INT_MAX_VALUE
 from titus.lib.core import LONG_MIN_VALUE
@@ -955,7 +955,7 @@ class FilterMap(LibFcn):
     sig = Sig([{"a": P.Array(P.Wildcard("A"))}, {"fcn": P.Fcn([P.Wildcard("A")], P.Union([P.Wildcard("B"), P.Null()]))}], P.Array(P.Wildcard("B")))
     errcodeBase = 15610
     def __call__(self, state, scope, pos, paramTypes, a, fcn):
-        typeNames = [jsonNodeToAvroType(t).name for t in paramTypes[1]["ret"] if t != "null"]
+        typeNames = unionTags(paramTypes[1])
         out = []
         for x in a:
             y = callfcn(state, scope, fcn, [x])
@@ -973,7 +973,7 @@ class FilterMapWithIndex(LibFcn):
     sig = Sig([{"a": P.Array(P.Wildcard("A"))}, {"fcn": P.Fcn([P.Int(), P.Wildcard("A")], P.Union([P.Wildcard("B"), P.Null()]))}], P.Array(P.Wildcard("B")))
     errcodeBase = 15620
     def __call__(self, state, scope, pos, paramTypes, a, fcn):
-        typeNames = [jsonNodeToAvroType(t).name for t in paramTypes[1]["ret"] if t != "null"]
+        typeNames = unionTags(paramTypes[1])
         out = []
         for i, x in enumerate(a):
             y = callfcn(state, scope, fcn, [i, x])
diff --git a/titus/lib/map.py b/titus/lib/map.py
index 36d90ee..b640271 100644
--- a/titus/lib/map.py
+++ b/titus/lib/map.py
@@ -29,7 +29,7 @@ from titus.fcn import LibFcn
 from titus.signature import Sig
 from titus.signature import Sigs
 from titus.datatype import *
-from titus.util import callfcn
+from titus.util import callfcn, unionTags
 from titus.errors import PFARuntimeException
 import titus.P as P
 
@@ -433,7 +433,7 @@ class FilterMap(LibFcn):
     sig = Sig([{"m": P.Map(P.Wildcard("A"))}, {"fcn": P.Fcn([P.Wildcard("A")], P.Union([P.Wildcard("B"), P.Null()]))}], P.Map(P.Wildcard("B")))
     errcodeBase = 26330
     def __call__(self, state, scope, pos, paramTypes, m, fcn):
-        typeNames = [jsonNodeToAvroType(t).name for t in paramTypes[1]["ret"] if t != "null"]
+        typeNames = unionTags(paramTypes[1])
         out = {}
         for k, v in list(m.items()):
             vv = callfcn(state, scope, fcn, [v])
@@ -451,7 +451,7 @@ class FilterMapWithKey(LibFcn):
     sig = Sig([{"m": P.Map(P.Wildcard("A"))}, {"fcn": P.Fcn([P.String(), P.Wildcard("A")], P.Union([P.Wildcard("B"), P.Null()]))}], P.Map(P.Wildcard("B")))
     errcodeBase = 26340
     def __call__(self, state, scope, pos, paramTypes, m, fcn):
-        typeNames = [jsonNodeToAvroType(t).name for t in paramTypes[1]["ret"] if t != "null"]
+        typeNames = unionTags(paramTypes[1])
         out = {}
         for k, v in list(m.items()):
             vv = callfcn(state, scope, fcn, [k, v])
diff --git a/titus/util.py b/titus/util.py
index 7d30c59..c510b96 100644
--- a/titus/util.py
+++ b/titus/util.py
@@ -178,6 +178,26 @@ def callfcn(state, scope, fcn, args):
     else:
         return fcn(state, scope, pos, None, *args)
 
+def unionTags(fcnType):
+    """Tags of the non-null values that a callback may return.
+
+    :type fcnType: Pythonized JSON
+    :param fcnType: type of the callback, in which ``"ret"`` may be a union, a single type, or a reference to a named type
+    :rtype: list of strings
+    :return: names used as keys of tagged unions; empty if the return type is not a union
+    """
+
+    ret = fcnType["ret"]
+    if not isinstance(ret, (list, tuple)):
+        return []
+    out = []
+    for t in ret:
+        if isinstance(t, dict):
+            t = t["name"] if t["type"] in ("record", "enum", "fixed") else t["type"]
+        if t != "null":
+            out.append(t.split(".")[-1])
+    return out
+
 def negativeIndex(length, index):
     """Helper function for interpreting negative array indexes as counting from the end of the array (just like Python).
 
-- 
2.43.0


From 5d64d5677ad55b70cfa4a5a1308e89639e9fd878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:17 +0000
Subject: [PATCH 014/203] fix: a.mode recognizes equal values independently of
 their representation

---
 titus/lib/array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/titus/lib/array.py b/titus/lib/array.py
index 49fa423..ed1ece8 100644
--- a/titus/lib/array.py
+++ b/titus/lib/array.py
@@ -776,8 +776,9 @@ class Mode(LibFcn):
         else:
             counter = {}
             lookup = {}
+            itemType = jsonNodeToAvroType(paramTypes[0]).items
             for x in a:
-                xx = json.dumps(x)
+                xx = avroEncoder(itemType, x)
                 if xx not in counter:
                     counter[xx] = 0
                     lookup[xx] = x
-- 
2.43.0


From c00fbbb308a8708ce6f19bfea5fa2ef6fab8f35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:17 +0000
Subject: [PATCH 015/203] fix: a.geomean of a negative product is NaN, not a
 complex number

---
 titus/lib/array.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/titus/lib/array.py b/titus/lib/array.py
index ed1ece8..5d98aab 100644
--- a/titus/lib/array.py
+++ b/titus/lib/array.py
@@ -744,7 +744,10 @@ class GeoMean(LibFcn):
         if len(a) == 0:
             return float("nan")
         else:
-            return reduce(lambda a, b: a * b, a, 1.0)**(1.0/len(a))
+            product = reduce(lambda a, b: a * b, a, 1.0)
+            if product < 0.0 and len(a) > 1:
+                return float("nan")
+            return product**(1.0/len(a))
 provide(GeoMean())
 
 class Median(LibFcn):
-- 
2.43.0


From 9f62239f5ff621301eeb6ef11d0153685d807faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:17 +0000
Subject: [PATCH 016/203] fix: &&& and ||| can be called by reference

---
 titus/lib/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/titus/lib/core.py b/titus/lib/core.py
index e95567e..d09fa57 100644
--- a/titus/lib/core.py
+++ b/titus/lib/core.py
@@ -354,10 +354,10 @@ class KleeneAnd(LibFcn):
     def genpy(self, paramTypes, args, pos):
         return """self.f["&&&"](state, scope, {0}, {1}, lambda: ({2}), lambda: ({3}))""".format(*([repr(pos), repr(paramTypes)] + args))
     def __call__(self, state, scope, pos, paramTypes, x, y):
-        xval = x()
+        xval = x() if callable(x) else x    # not a thunk if called by reference
         if xval is False or xval == {"boolean": False}:
             return {"boolean": False}
-        yval = y()
+        yval = y() if callable(y) else y
         if yval is False or yval == {"boolean": False}:
             return {"boolean": False}
         elif (xval is True or xval == {"boolean": True}) and (yval is True or yval == {"boolean": True}):
@@ -373,10 +373,10 @@ class KleeneOr(LibFcn):
     def genpy(self, paramTypes, args, pos):
         return """self.f["|||"](state, scope, {0}, {1}, lambda: ({2}), lambda: ({3}))""".format(*([repr(pos), repr(paramTypes)] + args))
     def __call__(self, state, scope, pos, paramTypes, x, y):
-        xval = x()
+        xval = x() if callable(x) else x    # not a thunk if called by reference
         if xval is True or xval == {"boolean": True}:
             return {"boolean": True}
-        yval = y()
+        yval = y() if callable(y) else y
         if yval is True or yval == {"boolean": True}:
             return {"boolean": True}
         elif (xval is False or xval == {"boolean": False}) and (yval is False or yval == {"boolean": False}):
-- 
2.43.0


From 2604620683872fbe95fcded88fe5c67c3b893a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 017/203] fix: record types keep recursion, field orders and
 defaults through function signatures

---
 titus/P.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/titus/P.py b/titus/P.py
index 5e534aa..52004f4 100644
--- a/titus/P.py
+++ b/titus/P.py
@@ -175,14 +175,20 @@ class Record(Pattern):
     
     Note: not used for any PFA patterns, and probably shouldn't be, even in the future. titus.P.WildRecord is used instead.
     """
-    def __init__(self, fields, fullName=None):
+    def __init__(self, fields, fullName=None, avroType=None):
         """:type fields: dict from field names to titus.P
         :param fields: patterns for the record fields
         :type fullName: string or ``None``
         :param fullName: optional name of the record pattern (if not provided, record types of any name would match)
+        :type avroType: titus.datatype.AvroRecord or ``None``
+        :param avroType: the record type this pattern was made from, if any (it also has field orders, defaults and recursive references)
         """
         self._fields = fields
         self._fullName = fullName
+        self._avroType = avroType
+    @property
+    def avroType(self):
+        return self._avroType
     @property
     def fields(self):
         return self._fields
@@ -349,6 +355,9 @@ def toType(pat):
     elif isinstance(pat, Enum):
         return AvroEnum(pat.symbols)
 
+    elif isinstance(pat, Record) and pat.avroType is not None:
+        return pat.avroType
+
     elif isinstance(pat, Record) and pat.fullName is not None:
         namebits = pat.fullName.split(".")
         if len(namebits) == 1:
@@ -394,14 +403,14 @@ def fromType(t, memo=None):
     elif isinstance(t, AvroRecord) and t.namespace is not None and t.namespace != "":
         name = t.namespace + "." + t.name
         if name in memo:
-            return Record({}, name)
+            return Record({}, name, t)
         else:
-            return Record(dict((f.name, fromType(f.avroType, memo.union(set([name])))) for f in t.fields), name)
+            return Record(dict((f.name, fromType(f.avroType, memo.union(set([name])))) for f in t.fields), name, t)
     elif isinstance(t, AvroRecord):
         if t.name in memo:
-            return Record({}, t.name)
+            return Record({}, t.name, t)
         else:
-            return Record(dict((f.name, fromType(f.avroType, memo.union(set([t.name])))) for f in t.fields), t.name)
+            return Record(dict((f.name, fromType(f.avroType, memo.union(set([t.name])))) for f in t.fields), t.name, t)
     elif isinstance(t, FcnType): return Fcn([fromType(x, memo) for x in t.params()], fromType(t.ret(), memo))
     elif isinstance(t, ExceptionType): raise IncompatibleTypes("exception type cannot be used in argument patterns")
 
-- 
2.43.0


From c2361002b9404333a521d9e2b051f1f98cbc32b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 018/203] fix: malformed documents are refused with syntax
 errors instead of internal exceptions

---
 titus/reader.py | 54 +++++++++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/titus/reader.py b/titus/reader.py
index 881e38a..85948eb 100644
--- a/titus/reader.py
+++ b/titus/reader.py
@@ -292,10 +292,10 @@ def _stripAtSigns(data):
         return data
 
 def _readEngineConfig(data, avroTypeBuilder):
-    at = data.get("@")
-
     if not isinstance(data, dict):
-        raise PFASyntaxException("PFA engine must be a JSON object, not " + _trunc(repr(data)), at)
+        raise PFASyntaxException("PFA engine must be a JSON object, not " + _trunc(repr(data)), "")
+
+    at = data.get("@")
 
     keys = set(x for x in list(data.keys()) if x != "@")
 
@@ -397,7 +397,7 @@ def _readBoolean(data, dot):
         raise PFASyntaxException("expected boolean, not " + _trunc(repr(data)), dot)
 
 def _readInt(data, dot):
-    if isinstance(data, int):
+    if isinstance(data, int) and not isinstance(data, bool):
         if -2147483648 <= data <= 2147483647:
             return data
         else:
@@ -406,7 +406,7 @@ def _readInt(data, dot):
         raise PFASyntaxException("expected int, not " + _trunc(repr(data)), dot)
 
 def _readLong(data, dot):
-    if isinstance(data, int):
+    if isinstance(data, int) and not isinstance(data, bool):
         if -9223372036854775808 <= data <= 9223372036854775807:
             return data
         else:
@@ -415,13 +415,13 @@ def _readLong(data, dot):
         raise PFASyntaxException("expected long, not " + _trunc(repr(data)), dot)
 
 def _readFloat(data, dot):
-    if isinstance(data, (int, float)):
+    if isinstance(data, (int, float)) and not isinstance(data, bool):
         return float(data)
     else:
         raise PFASyntaxException("expected float, not " + _trunc(repr(data)), dot)
 
 def _readDouble(data, dot):
-    if isinstance(data, (int, float)):
+    if isinstance(data, (int, float)) and not isinstance(data, bool):
         return float(data)
     else:
         raise PFASyntaxException("expected double, not " + _trunc(repr(data)), dot)
@@ -440,7 +440,7 @@ def _readStringExpressionPairs(data, dot, avroTypeBuilder):
             out.extend(list(pair.items()))
         return out
     else:
-        return PFASyntaxException("expected array of {string: expression} pairs, found " + _trunc(repr(data)), dot)
+        raise PFASyntaxException("expected array of {string: expression} pairs, found " + _trunc(repr(data)), dot)
 
 def _readStringPairs(data, dot):
     if isinstance(data, (list, tuple)):
@@ -487,14 +487,17 @@ def _readString(data, dot):
         raise PFASyntaxException("expected string, not " + _trunc(repr(data)), dot)
 
 def _readStringOrInt(data, dot):
-    if isinstance(data, (str, int)):
+    if isinstance(data, (str, int)) and not isinstance(data, bool):
         return data
     else:
         raise PFASyntaxException("expected string or int, not " + _trunc(repr(data)), dot)
 
 def _readBase64(data, dot):
     if isinstance(data, str):
-        return bytesToString(base64.b64decode(data))
+        try:
+            return bytesToString(base64.b64decode(data))
+        except ValueError:
+            raise PFASyntaxException("expected base64 data, not " + _trunc(repr(data)), dot)
     else:
         raise PFASyntaxException("expected base64 data, not " + _trunc(repr(data)), dot)
 
@@ -533,6 +536,9 @@ def _readCastCase(data, dot, avroTypeBuilder):
             else:
                 raise PFASyntaxException("unexpected field in cast-case: {0}".format(key), pos(dot, at))
 
+    else:
+        raise PFASyntaxException("expected cast-case, not " + _trunc(repr(data)), dot)
+
     if "named" in keys and not validSymbolName(_named):
         raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(_named), pos(dot, at))
 
@@ -669,7 +675,7 @@ def _readArgument(data, dot, avroTypeBuilder):
 
             elif key == "cond":
                 _cond = _readExpressionArray(data[key], dot + " -> " + key, avroTypeBuilder)
-                if any(x.elseClause is not None for x in _cond):
+                if any(not isinstance(x, If) or x.elseClause is not None for x in _cond):
                     raise PFASyntaxException("cond expression must only contain else-less if expressions", pos(dot, at))
 
             elif key == "cases": _cases = _readCastCaseArray(data[key], dot + " -> " + key, avroTypeBuilder)
@@ -724,13 +730,13 @@ def _readArgument(data, dot, avroTypeBuilder):
                     _callArgs = [_readArgument(data[key], dot + " -> " + key, avroTypeBuilder)]
 
         if "foreach" in keys and not validSymbolName(_foreach):
-            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(data[keys]), pos(dot, at))
+            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(_foreach), pos(dot, at))
         if "forkey" in keys and not validSymbolName(_forkey):
-            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(data[keys]), pos(dot, at))
+            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(_forkey), pos(dot, at))
         if "forval" in keys and not validSymbolName(_forval):
-            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(data[keys]), pos(dot, at))
+            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(_forval), pos(dot, at))
         if "fcn" in keys and not validFunctionName(_fcnref):
-            raise PFASyntaxException("\"{0}\" is not a valid function name".format(data[keys]), pos(dot, at))
+            raise PFASyntaxException("\"{0}\" is not a valid function name".format(_fcnref), pos(dot, at))
 
         if keys == set(["int"]):                             return LiteralInt(_int, pos(dot, at))
         elif keys == set(["long"]):                          return LiteralLong(_long, pos(dot, at))
@@ -799,7 +805,7 @@ def _readArgument(data, dot, avroTypeBuilder):
         elif keys == set(["call", "args"]):                  return CallUserFcn(_callwith, _callwithargs, pos(dot, at))
 
         elif len(keys) == 1 and list(keys)[0] not in \
-             set(["args", "as", "attr", "base64", "call", "cases", "cast", "cell", "code", "cond", "do", "doc", "double", "else",
+             set(["args", "as", "attr", "base64", "call", "cases", "cast", "cell", "code", "cond", "del", "do", "doc", "double", "else",
                   "error", "fcn", "fill", "filter", "float", "for", "foreach", "forkey", "format", "forval", "if", "ifnotnull", "in", "init",
                   "int", "let", "log", "long", "namespace", "new", "pack", "params", "partial", "path", "pool", "ret", "seq",
                   "set", "step", "string", "then", "to", "try", "type", "unpack", "until", "upcast", "value", "while"]):
@@ -818,7 +824,7 @@ def _readFcnDefMap(data, dot, avroTypeBuilder):
                 raise PFASyntaxException("\"{0}\" is not a valid function name".format(k), pos(dot, at))
         return dict((k, _readFcnDef(v, dot + " -> " + k, avroTypeBuilder)) for k, v in list(data.items()) if k != "@")
     else:
-        raise PFASyntaxException("expected map of function definitions, not " + _trunc(repr(data)), pos(dot, at))
+        raise PFASyntaxException("expected map of function definitions, not " + _trunc(repr(data)), dot)
 
 def _readFcnDef(data, dot, avroTypeBuilder):
     if isinstance(data, dict):
@@ -842,7 +848,7 @@ def _readFcnDef(data, dot, avroTypeBuilder):
         else:
             return FcnDef(_params, _ret, _body, pos(dot, at))
     else:
-        raise PFASyntaxException("expected function definition, not " + _trunc(repr(data)), pos(dot, at))
+        raise PFASyntaxException("expected function definition, not " + _trunc(repr(data)), dot)
 
 def _readParams(data, dot, avroTypeBuilder):
     if isinstance(data, (list, tuple)):
@@ -858,12 +864,12 @@ def _readParam(data, dot, avroTypeBuilder):
             raise PFASyntaxException("function parameter name-type map should have only one pair", pos(dot, at))
         n = list(keys)[0]
         if not validSymbolName(n):
-            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(n))
+            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(n), pos(dot, at))
 
         t = _readAvroPlaceholder(data[n], dot + " -> " + n, avroTypeBuilder)
         return {n: t}
     else:
-        raise PFASyntaxException("expected function parameter name-type singleton map, not " + _trunc(repr(data)), pos(dot, at))
+        raise PFASyntaxException("expected function parameter name-type singleton map, not " + _trunc(repr(data)), dot)
 
 def _readCells(data, dot, avroTypeBuilder):
     if isinstance(data, dict):
@@ -873,7 +879,7 @@ def _readCells(data, dot, avroTypeBuilder):
                 raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(k), pos(dot, at))
         return dict((k, _readCell(data[k], dot, avroTypeBuilder)) for k, v in list(data.items()) if k != "@")
     else:
-        raise PFASyntaxException("expected map of cells, not " + _trunc(repr(data)), pos(dot, at))
+        raise PFASyntaxException("expected map of cells, not " + _trunc(repr(data)), dot)
 
 def _readCell(data, dot, avroTypeBuilder):
     if isinstance(data, dict):
@@ -927,7 +933,7 @@ def _readCell(data, dot, avroTypeBuilder):
 
             return Cell(_avroType, _init, _shared, _rollback, _source, pos(dot, at))
     else:
-        raise PFASyntaxException("expected cell, not " + _trunc(repr(data)), None)
+        raise PFASyntaxException("expected cell, not " + _trunc(repr(data)), dot)
 
 def _readPools(data, dot, avroTypeBuilder):
     if isinstance(data, dict):
@@ -937,7 +943,7 @@ def _readPools(data, dot, avroTypeBuilder):
                 raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(k), pos(dot, at))
         return dict((k, _readPool(data[k], dot, avroTypeBuilder)) for k, v in list(data.items()) if k != "@")
     else:
-        raise PFASyntaxException("expected map of pools, not " + _trunc(repr(data)), None)
+        raise PFASyntaxException("expected map of pools, not " + _trunc(repr(data)), dot)
 
 def _readPool(data, dot, avroTypeBuilder):
     if isinstance(data, dict):
@@ -992,4 +998,4 @@ def _readPool(data, dot, avroTypeBuilder):
 
             return Pool(_avroType, _init, _shared, _rollback, _source, pos(dot, at))
     else:
-        raise PFASyntaxException("expected pool, not " + _trunc(repr(data)), pos(dot, at))
+        raise PFASyntaxException("expected pool, not " + _trunc(repr(data)), dot)
-- 
2.43.0


From be36c32e01fc0652087f7b05afd16b5407f2d26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:02 +0000
Subject: [PATCH 019/203] fix: cells and pools with external json or avro
 sources can be loaded and written back

---
 titus/pfaast.py |  8 ++----
 titus/reader.py | 69 +++++++++++++++++++++++--------------------------
 2 files changed, 34 insertions(+), 43 deletions(-)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index f3159b1..064f7bf 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -1198,8 +1198,6 @@ class Cell(Ast):
         out["init"] = self.initJsonNode
         out["shared"] = self.shared
         out["rollback"] = self.rollback
-        if self.source != CellPoolSource.EMBEDDED:
-            out["source"] = self.source
         return out
 
     @titus.util.case
@@ -1230,8 +1228,8 @@ class Pool(Ast):
         if not isinstance(avroPlaceholder, (AvroPlaceholder, AvroType)):
             raise PFASyntaxException("\"avroPlaceholder\" must be an AvroPlaceholder or AvroType", pos)
 
-        if not isinstance(init, dict) or not all(isinstance(x, str) or x is None for x in list(init.values())):
-            raise PFASyntaxException("\"init\" must be a string or callable", pos)
+        if not callable(init) and (not isinstance(init, dict) or not all(isinstance(x, str) or x is None for x in list(init.values()))):
+            raise PFASyntaxException("\"init\" must be a dictionary of strings or callable", pos)
 
         if not isinstance(shared, bool):
             raise PFASyntaxException("\"shared\" must be boolean", pos)
@@ -1298,8 +1296,6 @@ class Pool(Ast):
         out["init"] = self.initJsonNode
         out["shared"] = self.shared
         out["rollback"] = self.rollback
-        if self.source != CellPoolSource.EMBEDDED:
-            out["source"] = self.source
         return out
             
     @titus.util.case
diff --git a/titus/reader.py b/titus/reader.py
index 85948eb..7058047 100644
--- a/titus/reader.py
+++ b/titus/reader.py
@@ -91,6 +91,8 @@ from titus.pfaast import Try
 from titus.pfaast import Log
 from titus.errors import PFASyntaxException
 from titus.datatype import AvroTypeBuilder
+from titus.datatype import checkData
+from titus.datatype import jsonEncoder
 
 def jsonToAst(jsonInput):
     """Reads PFA from serialized JSON into an abstract syntax tree.
@@ -871,6 +873,24 @@ def _readParam(data, dot, avroTypeBuilder):
     else:
         raise PFASyntaxException("expected function parameter name-type singleton map, not " + _trunc(repr(data)), dot)
 
+def _externalSource(source, url):
+    """Create a function that reads the initial value of a cell or pool from an external file and returns it as a JSON string."""
+    def read():
+        if re.match("^[a-zA-Z][a-zA-Z0-9\\+\\-\\.]*://", url) is not None:
+            return urllib.request.urlopen(url).read()
+        else:
+            with open(url, "rb") as f:
+                return f.read()
+
+    def getit(avroType):
+        if source == "json":
+            return read()
+        else:
+            datum = next(DataFileReader(io.BytesIO(read()), DatumReader()))
+            return json.dumps(jsonEncoder(avroType, checkData(datum, avroType)))
+
+    return getit
+
 def _readCells(data, dot, avroTypeBuilder):
     if isinstance(data, dict):
         at = data.get("@")
@@ -900,26 +920,12 @@ def _readCell(data, dot, avroTypeBuilder):
         if ("type" not in keys) or ("init" not in keys) or (not keys.issubset(set(["type", "init", "shared", "rollback", "source"]))):
             raise PFASyntaxException("wrong set of fields for a cell: " + ", ".join(keys), pos(dot, at))
         else:
-            if _source == "avro":
+            if _source in ("avro", "json"):
                 url = json.loads(_init)
                 if not isinstance(url, str):
-                    raise PFASyntaxException("source: avro requires init to be a string", pos(dot, at))
-                def getit(avroType):
-                    reader = DataFileReader(urllib.request.urlopen(url), DatumReader())
-                    return reader.read()
-                _init = getit
+                    raise PFASyntaxException("source: {0} requires init to be a string".format(_source), pos(dot, at))
+                _init = _externalSource(_source, url)
 
-            elif _source == "json":
-                url = json.loads(_init)
-                if not isinstance(url, str):
-                    raise PFASyntaxException("source: json requires init to be a string", pos(dot, at))
-                def getit(avroType):
-                    if re.match("^[a-zA-Z][a-zA-Z0-9\+\-\.]*://", url) is not None:
-                        return urllib.request.urlopen(url).read()
-                    else:
-                        return open(url).read()
-                _init = getit
-                
             elif _source == "embedded":
                 pass
                 # # which is the equivalent of...
@@ -955,7 +961,11 @@ def _readPool(data, dot, avroTypeBuilder):
         keys = set(x for x in list(data.keys()) if x != "@")
         for key in keys:
             if key == "type": _avroType = _readAvroPlaceholder(data[key], dot + " -> " + key, avroTypeBuilder)
-            elif key == "init": _init = _readJsonToStringMap(data[key], dot + " -> " + key)
+            elif key == "init":
+                if data.get("source", "embedded") == "embedded":
+                    _init = _readJsonToStringMap(data[key], dot + " -> " + key)
+                else:
+                    _init = data[key]
             elif key == "shared": _shared = _readBoolean(data[key], dot + " -> " + key)
             elif key == "rollback": _rollback = _readBoolean(data[key], dot + " -> " + key)
             elif key == "source": _source = _readString(data[key], dot + " -> " + key)
@@ -963,26 +973,11 @@ def _readPool(data, dot, avroTypeBuilder):
         if ("type" not in keys) or (not keys.issubset(set(["type", "init", "shared", "rollback", "source"]))):
             raise PFASyntaxException("wrong set of fields for a pool: " + ", ".join(keys), pos(dot, at))
         else:
-            if _source == "avro":
-                url = json.loads(_init)
-                if not isinstance(url, str):
-                    raise PFASyntaxException("source: avro requires init to be a string", pos(dot, at))
-                def getit(avroType):
-                    reader = DataFileReader(urllib.request.urlopen(url), DatumReader())
-                    return reader.read()
-                _init = getit
+            if _source in ("avro", "json"):
+                if not isinstance(_init, str):
+                    raise PFASyntaxException("source: {0} requires init to be a string".format(_source), pos(dot, at))
+                _init = _externalSource(_source, _init)
 
-            elif _source == "json":
-                url = json.loads(_init)
-                if not isinstance(url, str):
-                    raise PFASyntaxException("source: json requires init to be a string", pos(dot, at))
-                def getit(avroType):
-                    if re.match("^[a-zA-Z][a-zA-Z0-9\+\-\.]*://", url) is not None:
-                        return urllib.request.urlopen(url).read()
-                    else:
-                        return open(url).read()
-                _init = getit
-                
             elif _source == "embedded":
                 pass
                 # # which is the equivalent of...
-- 
2.43.0


From 778cb35ff3c809f50c6d204dc07b6ecc132df37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:10 +0000
Subject: [PATCH 020/203] fix: errors of library functions called by reference
 are raised with their own message and code

---
 titus/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/util.py b/titus/util.py
index c510b96..761e1e3 100644
--- a/titus/util.py
+++ b/titus/util.py
@@ -176,7 +176,7 @@ def callfcn(state, scope, fcn, args):
         callScope.let(args)
         return fcn(state, callScope)
     else:
-        return fcn(state, scope, pos, None, *args)
+        return fcn(state, scope, None, None, *args)
 
 def unionTags(fcnType):
     """Tags of the non-null values that a callback may return.
-- 
2.43.0


From 9260963903d583356f78dfecfa7277ae774cb943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:39 +0000
Subject: [PATCH 021/203] fix: a failing update releases the lock of shared
 state and leaves pools unchanged

---
 titus/genpy.py | 38 +++++++++++---------------------------
 1 file changed, 11 insertions(+), 27 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 7049804..6f4005f 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -536,16 +536,13 @@ class Cell(PersistentStorageItem):
         return "Cell(" + ("shared, " if self.shared else "") + ("rollback, " if self.rollback else "") + contents + ")"
             
     def update(self, state, scope, path, to, arrayErrCode, mapErrCode, fcnName, pos):
-        result = None
         if self.shared:
-            self.lock.acquire()
-            self.value = update(state, scope, self.value, path, to, arrayErrCode, mapErrCode, fcnName, pos)
-            result = self.value
-            self.lock.release()
+            with self.lock:
+                self.value = update(state, scope, self.value, path, to, arrayErrCode, mapErrCode, fcnName, pos)
+                return self.value
         else:
             self.value = update(state, scope, self.value, path, to, arrayErrCode, mapErrCode, fcnName, pos)
-            result = self.value
-        return result
+            return self.value
 
     def maybeSaveBackup(self):
         if self.rollback:
@@ -571,31 +568,18 @@ class Pool(PersistentStorageItem):
         return "Pool(" + ("shared, " if self.shared else "") + ("rollback, " if self.rollback else "") + contents + ")"
 
     def update(self, state, scope, path, to, init, arrayErrCode, mapErrCode, fcnName, pos):
-        result = None
-
         head, tail = path[0], path[1:]
 
         if self.shared:
-            self.locklock.acquire()
-            if head in self.locks:
-                self.locks[head].acquire()
-            else:
-                self.locks[head] = threading.Lock()
-                self.locks[head].acquire()
-            self.locklock.release()
-
-            if head not in self.value:
-                self.value[head] = init
-            self.value[head] = update(state, scope, self.value[head], tail, to, arrayErrCode, mapErrCode, fcnName, pos)
-
-            result = self.value[head]
-            self.locks[head].release()
+            with self.locklock:
+                lock = self.locks.setdefault(head, threading.Lock())
+            with lock:
+                result = update(state, scope, self.value.get(head, init), tail, to, arrayErrCode, mapErrCode, fcnName, pos)
+                self.value[head] = result
 
         else:
-            if head not in self.value:
-                self.value[head] = init
-            self.value[head] = update(state, scope, self.value[head], tail, to, arrayErrCode, mapErrCode, fcnName, pos)
-            result = self.value[head]
+            result = update(state, scope, self.value.get(head, init), tail, to, arrayErrCode, mapErrCode, fcnName, pos)
+            self.value[head] = result
 
         return result
 
-- 
2.43.0


From 185860c11cff6b2a7d3ac74f33d76f973a217fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:39 +0000
Subject: [PATCH 022/203] fix: attr, cell and pool paths that do not exist are
 errors (negative indexes, missing last step of an update)

---
 titus/genpy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 6f4005f..d50e488 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -627,6 +627,8 @@ def get(obj, path, arrayErrCode, mapErrCode, fcnName, pos):
     while len(path) > 0:
         head, tail = path[0], path[1:]
         try:
+            if isinstance(obj, (list, tuple)) and head < 0:
+                raise IndexError
             obj = obj[head]
         except (KeyError, IndexError):
             if isinstance(obj, (list, tuple)):
@@ -666,7 +668,7 @@ def update(state, scope, obj, path, to, arrayErrCode, mapErrCode, fcnName, pos):
         head, tail = path[0], path[1:]
 
         if isinstance(obj, dict):
-            if len(tail) > 0 and head not in obj:
+            if head not in obj:
                 raise PFARuntimeException("map key not found", mapErrCode, fcnName, pos)
             out = {}
             for k, v in list(obj.items()):
@@ -677,7 +679,7 @@ def update(state, scope, obj, path, to, arrayErrCode, mapErrCode, fcnName, pos):
             return out
 
         elif isinstance(obj, (list, tuple)):
-            if (len(tail) > 0 and head >= len(obj)) or head < 0:
+            if head >= len(obj) or head < 0:
                 raise PFARuntimeException("array index not found", arrayErrCode, fcnName, pos)
             out = []
             for i, x in enumerate(obj):
-- 
2.43.0


From 28146624563a9ef0e338b06e6a0ce18fb62982b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:16 +0000
Subject: [PATCH 023/203] fix: getAvroType describes a map as a map, so casts
 on unions with maps work

---
 titus/datatype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index e7b14aa..6e3f9ae 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -803,7 +803,7 @@ class ForwardDeclarationParser(object):
             elif description.get("type") == "array" and "items" in description:
                 return AvroArray(self.getAvroType(description["items"]))
             elif description.get("type") == "map" and "values" in description:
-                return AvroArray(self.getAvroType(description["values"]))
+                return AvroMap(self.getAvroType(description["values"]))
             elif description.get("type") in ("fixed", "enum", "record"):
                 if self.names.has_name(description.get("name"), description.get("namespace")):
                     return schemaToAvroType(self.names.get_name(description.get("name"), description.get("namespace")))
-- 
2.43.0


From 9815394d6175bfad6d2868e7afaba0413c4fea24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 024/203] fix: cast does not mistake an untagged one-entry map
 or record for a tagged union value

---
 titus/genpy.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index d50e488..f4fa7eb 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -954,17 +954,24 @@ def cast(state, scope, expr, fromType, cases, partial, parser):
 
     fromType = parser.getAvroType(fromType)
 
+    def tagMatches(tag, avroType):
+        return (tag == avroType.name) or \
+               (tag == "int" and avroType.name in ("long", "float", "double")) or \
+               (tag == "long" and avroType.name in ("float", "double")) or \
+               (tag == "float" and avroType.name == "double")
+
+    # an untagged map or record with one key must not be mistaken for a tagged value
+    tagged = isinstance(fromType, titus.datatype.AvroUnion) and isinstance(expr, dict) and len(expr) == 1 and \
+             any(tagMatches(list(expr.keys())[0], x) for x in fromType.types)
+
     for name, toType, clause in cases:
         toType = parser.getAvroType(toType)
 
-        if isinstance(fromType, titus.datatype.AvroUnion) and isinstance(expr, dict) and len(expr) == 1:
+        if tagged:
             tag, = list(expr.keys())
             value, = list(expr.values())
 
-            if not ((tag == toType.name) or \
-                    (tag == "int" and toType.name in ("long", "float", "double")) or \
-                    (tag == "long" and toType.name in ("float", "double")) or \
-                    (tag == "float" and toType.name == "double")):
+            if not tagMatches(tag, toType):
                 continue
 
         else:
-- 
2.43.0


From 8359bba4c53135d1e8ef7369e9384d491b6f875d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:19 +0000
Subject: [PATCH 025/203] fix: begin, end and merge have their own timeouts;
 loops in merge work

---
 titus/genpy.py   | 6 ++++--
 titus/options.py | 6 +++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index f4fa7eb..9af95aa 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -207,7 +207,7 @@ class GeneratePython(titus.pfaast.Task):
             if len(begin) > 0:
                 out.append("""
     def begin(self):
-        state = ExecutionState(self.options, self.rand, 'action', self.parser)
+        state = ExecutionState(self.options, self.rand, 'begin', self.parser)
         scope = DynamicScope(None)
         scope.let({'name': self.config.name, 'instance': self.instance, 'metadata': self.config.metadata})
         if self.config.version is not None:
@@ -281,7 +281,7 @@ class GeneratePython(titus.pfaast.Task):
                 
                 out.append("""
     def end(self):
-        state = ExecutionState(self.options, self.rand, 'action', self.parser)
+        state = ExecutionState(self.options, self.rand, 'end', self.parser)
         scope = DynamicScope(None)
         scope.let({'name': self.config.name, 'instance': self.instance, 'metadata': self.config.metadata, 'actionsStarted': self.actionsStarted, 'actionsFinished': self.actionsFinished})
         if self.config.version is not None:
@@ -495,6 +495,8 @@ class ExecutionState(object):
             self.timeout = options.timeout_action
         elif routine == "end":
             self.timeout = options.timeout_end
+        else:
+            self.timeout = options.timeout
 
         self.startTime = time.time()
 
diff --git a/titus/options.py b/titus/options.py
index 38030e9..29127b2 100644
--- a/titus/options.py
+++ b/titus/options.py
@@ -41,8 +41,8 @@ class EngineOptions(object):
                 raise PFAInitializationException(name + " must be an integral number")
 
         self.timeout = longOpt("timeout", -1)
-        self.timeout_begin = longOpt("timeout", self.timeout)
-        self.timeout_action = longOpt("timeout", self.timeout)
-        self.timeout_end = longOpt("timeout", self.timeout)
+        self.timeout_begin = longOpt("timeout.begin", self.timeout)
+        self.timeout_action = longOpt("timeout.action", self.timeout)
+        self.timeout_end = longOpt("timeout.end", self.timeout)
 
         # ...
-- 
2.43.0


From 7b1662b272bf0c490d238f78608cd8abd90ec8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:56 +0000
Subject: [PATCH 026/203] fix: cast recognizes the member of an untagged union
 value by its type instead of converting it

---
 titus/genpy.py | 63 ++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 61 insertions(+), 2 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 9af95aa..5cd4f9a 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -980,8 +980,8 @@ def cast(state, scope, expr, fromType, cases, partial, parser):
             value = expr
 
         try:
-            castValue = titus.datatype.jsonDecoder(toType, value)
-        except (AvroException, TypeError):
+            castValue = valueAs(toType, value)
+        except AvroException:
             pass
         else:
             clauseScope = DynamicScope(scope)
@@ -994,6 +994,65 @@ def cast(state, scope, expr, fromType, cases, partial, parser):
                 return out
     return None
             
+def valueAs(avroType, value):
+    """Interprets a value held by the engine (unions tagged or not) as a given type, without converting between types (other than numeric promotion).
+
+    :type avroType: titus.datatype.AvroType
+    :param avroType: type to match
+    :type value: any
+    :param value: PFA value
+    :rtype: any
+    :return: value of that type; raises AvroException if the value does not have this type
+    """
+
+    number = isinstance(value, (int, float)) and not isinstance(value, bool)
+
+    if isinstance(avroType, titus.datatype.AvroNull):
+        if value is None:
+            return value
+    elif isinstance(avroType, titus.datatype.AvroBoolean):
+        if value is True or value is False:
+            return value
+    elif isinstance(avroType, (titus.datatype.AvroInt, titus.datatype.AvroLong)):
+        if number and isinstance(value, int):
+            return value
+    elif isinstance(avroType, (titus.datatype.AvroFloat, titus.datatype.AvroDouble)):
+        if number:
+            return float(value)
+    elif isinstance(avroType, titus.datatype.AvroString):
+        if isinstance(value, str):
+            return value
+    elif isinstance(avroType, titus.datatype.AvroBytes):
+        if isinstance(value, (str, bytes)):
+            return value
+    elif isinstance(avroType, titus.datatype.AvroFixed):
+        if isinstance(value, (str, bytes)) and len(value) == avroType.size:
+            return value
+    elif isinstance(avroType, titus.datatype.AvroEnum):
+        if isinstance(value, str) and value in avroType.symbols:
+            return value
+    elif isinstance(avroType, titus.datatype.AvroArray):
+        if isinstance(value, (list, tuple)):
+            return [valueAs(avroType.items, x) for x in value]
+    elif isinstance(avroType, titus.datatype.AvroMap):
+        if isinstance(value, dict):
+            return dict((k, valueAs(avroType.values, v)) for k, v in list(value.items()))
+    elif isinstance(avroType, titus.datatype.AvroRecord):
+        if isinstance(value, dict) and set(value) == set(field.name for field in avroType.fields):
+            return dict((field.name, valueAs(field.avroType, value[field.name])) for field in avroType.fields)
+    elif isinstance(avroType, titus.datatype.AvroUnion):
+        if isinstance(value, dict) and len(value) == 1:
+            (tag, val), = list(value.items())
+            for x in avroType.types:
+                if x.name == tag:
+                    return {tag: valueAs(x, val)}
+        for x in avroType.types:
+            try:
+                return valueAs(x, value)
+            except AvroException:
+                pass
+    raise AvroException("{0} does not match schema {1}".format(value, titus.util.ts(avroType)))
+
 def wrapAsUnion(expr, typeName):
     """Converts a bare expression to a tagged union with a given type name.
 
-- 
2.43.0


From 150905e5b73166d95e898b906fee942ffe799059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:55 +0000
Subject: [PATCH 027/203] fix: function signatures restrict every use of a
 restricted wildcard, callback arity, and enum and fixed wildcards

---
 titus/signature.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/titus/signature.py b/titus/signature.py
index 41f62e0..3cdaad9 100644
--- a/titus/signature.py
+++ b/titus/signature.py
@@ -287,12 +287,15 @@ class LabelData(object):
     def __init__(self):
         self.members = []
         self.expectedFields = None
+        self.oneOf = None
 
     def add(self, t):
         self.members.append(t)
 
     def determineAssignment(self):
         out = LabelData.broadestType(self.members)
+        if self.oneOf is not None and out not in self.oneOf:
+            raise IncompatibleTypes("type is not one of the allowed types: " + repr(out))
         if self.expectedFields is not None:
             if isinstance(out, AvroRecord):
                 if self.expectedFields != tuple(x.name for x in out.fields):
@@ -517,7 +520,8 @@ class Sig(Signature):
                     return False
 
         elif isinstance(pat, P.Fcn) and isinstance(arg, FcnType):
-            return all(self.check(p, a, labelData, strict, True) for p, a in zip(pat.params, arg.params)) and \
+            return len(pat.params) == len(arg.params) and \
+                   all(self.check(p, a, labelData, strict, True) for p, a in zip(pat.params, arg.params)) and \
                    self.check(pat.ret, arg.ret, labelData, strict, False)
 
         elif isinstance(pat, P.Wildcard):
@@ -525,6 +529,8 @@ class Sig(Signature):
                 if not pat.label in labelData:
                     labelData[pat.label] = LabelData()
                 labelData[pat.label].add(arg)
+                if pat.oneOf is not None:
+                    labelData[pat.label].oneOf = pat.oneOf
                 return True
             else:
                 return False
@@ -541,13 +547,13 @@ class Sig(Signature):
             else:
                 return False
 
-        elif isinstance(pat, P.WildEnum):
+        elif isinstance(pat, P.WildEnum) and isinstance(arg, AvroEnum):
             if not pat.label in labelData:
                 labelData[pat.label] = LabelData()
             labelData[pat.label].add(arg)
             return True
 
-        elif isinstance(pat, P.WildFixed):
+        elif isinstance(pat, P.WildFixed) and isinstance(arg, AvroFixed):
             if not pat.label in labelData:
                 labelData[pat.label] = LabelData()
             labelData[pat.label].add(arg)
-- 
2.43.0


From 78bf69342b2bd3b2078a9978c358ebd7f851f30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:45 +0000
Subject: [PATCH 028/203] fix: literals and initial values of another type, and
 empty or null try blocks, are refused or accepted without internal errors

---
 titus/genpy.py  | 22 ++++++++++++++++------
 titus/pfaast.py |  5 +++++
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 5cd4f9a..d5d97a3 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -358,7 +358,10 @@ class GeneratePython(titus.pfaast.Task):
             return repr(context.value)
 
         elif isinstance(context, Literal.Context):
-            return repr(titus.datatype.jsonDecoder(context.retType, json.loads(context.value)))
+            try:
+                return repr(titus.datatype.jsonDecoder(context.retType, json.loads(context.value)))
+            except AvroException as err:
+                raise PFASemanticException("literal value {0}".format(err), None)
 
         elif isinstance(context, NewObject.Context):
             return "{" + ", ".join(repr(k) + ": " + v for k, v in list(context.fields.items())) + "}"
@@ -1411,6 +1414,13 @@ def checkForDeadlock(engineConfig, engine):
                 x.collect(SideEffectFunction())
     engineConfig.collect(WithFcnDef())
 
+def initialValue(what, avroType, value):
+    """Decode the initial value of a cell, a pool, or the tally of a fold engine."""
+    try:
+        return titus.datatype.jsonDecoder(avroType, value)
+    except AvroException as err:
+        raise PFAInitializationException("initial value of {0}: {1}".format(what, err))
+
 class PFAEngine(object):
     """Base class for a Titus scoring engine.
 
@@ -1562,12 +1572,12 @@ class PFAEngine(object):
 
         for cellName, cellConfig in list(engineConfig.cells.items()):
             if cellConfig.shared and cellName not in sharedState.cells:
-                value = titus.datatype.jsonDecoder(cellConfig.avroType, cellConfig.initJsonNode)
+                value = initialValue("cell \"" + cellName + "\"", cellConfig.avroType, cellConfig.initJsonNode)
                 sharedState.cells[cellName] = Cell(value, cellConfig.shared, cellConfig.rollback, cellConfig.source)
 
         for poolName, poolConfig in list(engineConfig.pools.items()):
             if poolConfig.shared and poolName not in sharedState.pools:
-                value = titus.datatype.jsonDecoder(titus.datatype.AvroMap(poolConfig.avroType), poolConfig.initJsonNode)
+                value = initialValue("pool \"" + poolName + "\"", titus.datatype.AvroMap(poolConfig.avroType), poolConfig.initJsonNode)
                 sharedState.pools[poolName] = Pool(value, poolConfig.shared, poolConfig.rollback, poolConfig.source)
 
         out = []
@@ -1577,16 +1587,16 @@ class PFAEngine(object):
 
             for cellName, cellConfig in list(engineConfig.cells.items()):
                 if not cellConfig.shared:
-                    value = titus.datatype.jsonDecoder(cellConfig.avroType, cellConfig.initJsonNode)
+                    value = initialValue("cell \"" + cellName + "\"", cellConfig.avroType, cellConfig.initJsonNode)
                     cells[cellName] = Cell(value, cellConfig.shared, cellConfig.rollback, cellConfig.source)
 
             for poolName, poolConfig in list(engineConfig.pools.items()):
                 if not poolConfig.shared:
-                    value = titus.datatype.jsonDecoder(titus.datatype.AvroMap(poolConfig.avroType), poolConfig.initJsonNode)
+                    value = initialValue("pool \"" + poolName + "\"", titus.datatype.AvroMap(poolConfig.avroType), poolConfig.initJsonNode)
                     pools[poolName] = Pool(value, poolConfig.shared, poolConfig.rollback, poolConfig.source)
 
             if engineConfig.method == Method.FOLD:
-                zero = titus.datatype.jsonDecoder(engineConfig.output, json.loads(engineConfig.zero))
+                zero = initialValue("zero", engineConfig.output, json.loads(engineConfig.zero))
             else:
                 zero = None
 
diff --git a/titus/pfaast.py b/titus/pfaast.py
index 064f7bf..2ed5fe8 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -6104,6 +6104,9 @@ class Try(Expression):
         if (not isinstance(filter, (list, tuple)) or not all(isinstance(x, (str, int)) for x in filter)) and not filter is None:
             raise PFASyntaxException("\"filter\" must be a list of strings and integers or None", pos)
 
+        if len(exprs) < 1:
+            raise PFASyntaxException("\"try\" must contain at least one expression", pos)
+
     def collect(self, pf):
         """Walk over tree applying a partial function, returning a list of results in its domain.
 
@@ -6164,6 +6167,8 @@ class Try(Expression):
                 inferredType = exprType
             else:
                 inferredType = AvroUnion(exprType.types + [AvroNull()])
+        elif isinstance(exprType, AvroNull):
+            inferredType = exprType
         else:
             inferredType = AvroUnion([exprType, AvroNull()])
 
-- 
2.43.0


From 3994132de964c986f78c12c2073e553233848182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:47 +0000
Subject: [PATCH 029/203] fix: a callback must accept the values its parameters
 are given

---
 titus/signature.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/titus/signature.py b/titus/signature.py
index 3cdaad9..73d1da9 100644
--- a/titus/signature.py
+++ b/titus/signature.py
@@ -377,6 +377,9 @@ class Sig(Signature):
                     assignments = dict((l, ld.determineAssignment()) for l, ld in list(labelData.items()))
                     assignedParams = [self.assign(list(p.values())[0], a, assignments) for p, a in zip(self.params, args)]
                     assignedRet = self.assignRet(self.ret, assignments)
+                    for p, a in zip(self.params, args):
+                        if isinstance(a, FcnType) and not self.callable(list(p.values())[0], a, assignments):
+                            return None
                     return (self, assignedParams, assignedRet)
                 except IncompatibleTypes:
                     return None
@@ -385,6 +388,20 @@ class Sig(Signature):
         else:
             return None
 
+    def callable(self, pat, arg, assignments):
+        """Determine if a function can be called with the types that have been assigned to its parameters.
+
+        :type pat: titus.P
+        :param pat: pattern of the function
+        :type arg: titus.datatype.FcnType
+        :param arg: type of the supplied function
+        :type assignments: dict from label letters to titus.datatype.AvroType
+        :param assignments: assigned types
+        :rtype: bool
+        :return: ``True`` if every parameter accepts the type of the value it will be given
+        """
+        return not isinstance(pat, P.Fcn) or all(a.accepts(self.assignRet(p, assignments)) for p, a in zip(pat.params, arg.params))
+
     def check(self, pat, arg, labelData, strict, reversed):
         """Determine if a single slot in the parameter pattern matches a single argument's type.
 
-- 
2.43.0


From a0ba274cf3f027113605bc832ad6381f2678d61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:01 +0000
Subject: [PATCH 030/203] fix: try does not absorb timeouts or internal errors

---
 titus/genpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index d5d97a3..f882c60 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1350,7 +1350,7 @@ def tryCatch(state, scope, exprs, filter):
     """
     try:
         return exprs(state, scope)
-    except Exception as err:
+    except (PFARuntimeException, PFAUserException) as err:
         if filter is None or err.message in filter or err.code in filter:
             return None
         else:
-- 
2.43.0


From 36cc4f64e50e9401fab66d1b2d1d4243debad929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:35 +0000
Subject: [PATCH 031/203] fix: model.reg.updateChi2 does not modify the state
 it is given, keeps DOF an integer and accepts integer pulls

---
 titus/lib/model/reg.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/titus/lib/model/reg.py b/titus/lib/model/reg.py
index 5e2a878..3f59c7a 100644
--- a/titus/lib/model/reg.py
+++ b/titus/lib/model/reg.py
@@ -490,7 +490,7 @@ class UpdateChi2(LibFcn):
                 Sig([{"pull": P.Map(P.Double())}, {"state_": P.WildRecord("A", {"chi2": P.Double(), "DOF": P.Int()})}], P.Wildcard("A"), Lifespan(None, PFAVersion(0, 7, 2), PFAVersion(0, 9, 0), "use test.updateChi2 instead"))])
     errcodeBase = 31050
     def __call__(self, state, scope, pos, paramTypes, pull, state_):
-        if isinstance(pull, float):
+        if isinstance(pull, (int, float)):
             return update(pull*pull, state_)
         elif isinstance(pull, (tuple, list)):
             return update(sum([y**2 for y in pull]), state_)
@@ -498,9 +498,7 @@ class UpdateChi2(LibFcn):
             return update(sum([y**2 for y in list(pull.values())]), state_)
 provide(UpdateChi2())
 def update(x, state_):
-    state_["chi2"] = float(state_["chi2"] + x)
-    state_["DOF"]  = float(state_["DOF"] + 1)
-    return state_
+    return dict(state_, chi2=float(state_["chi2"] + x), DOF=state_["DOF"] + 1)
 
 class ReducedChi2(LibFcn):
     name = prefix + "reducedChi2"
-- 
2.43.0


From 3f4b8cb39169449e1cd5e5116b4411a19a7f71fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:35 +0000
Subject: [PATCH 032/203] fix: non-finite literals can be compiled

---
 titus/genpy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/titus/genpy.py b/titus/genpy.py
index f882c60..00752bb 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1561,6 +1561,10 @@ class PFAEngine(object):
                    "checkData": titus.datatype.checkData,
                    # Python libraries
                    "math": math,
+
+                   # Python representations of non-finite literals
+                   "inf": float("inf"),
+                   "nan": float("nan"),
                    }
 
         exec(code, sandbox)
-- 
2.43.0


From 56a2928fb9c289356d74a1ef0a1adbef364c8179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:29 +0000
Subject: [PATCH 033/203] fix: a wildcard keeps a union with several numeric
 members as it is, and promoted numbers are found in unions

---
 titus/datatype.py  | 4 ++++
 titus/signature.py | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/titus/datatype.py b/titus/datatype.py
index 6e3f9ae..e17d1b9 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -1125,6 +1125,10 @@ def findBranch(avroType, x):
         for i, t in enumerate(avroType.types):
             if t.name == tag:
                 return i, t, value
+        for i, t in enumerate(avroType.types):
+            # a number may still have the tag of the narrower type it was promoted from
+            if tag in ("int", "long", "float") and isinstance(t, AvroNumber) and isinstance(value, (int, float)) and t.accepts({"int": AvroInt, "long": AvroLong, "float": AvroFloat}[tag]()):
+                return i, t, value
     for i, t in enumerate(avroType.types):
         try:
             jsonEncoder(t, x)
diff --git a/titus/signature.py b/titus/signature.py
index 73d1da9..ddb37f7 100644
--- a/titus/signature.py
+++ b/titus/signature.py
@@ -262,6 +262,9 @@ class LabelData(object):
             else:
                 raise IncompatibleTypes("incompatible function types: " + " ".join(map(repr, realCandidates)))
 
+        elif all(isinstance(x, AvroUnion) and x == realCandidates[0] for x in realCandidates):
+            return realCandidates[0]
+
         elif not any(isinstance(x, FcnType) for x in realCandidates):
             types = LabelData.distinctTypes(realCandidates)
             types = [P.mustBeAvro(x) for x in types]
-- 
2.43.0


From de55ee092eb66ed5bef6904cf20828ad1ed1f7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:23 +0000
Subject: [PATCH 034/203] fix: emit can be passed by reference to another
 function

---
 titus/genpy.py  | 3 +++
 titus/pfaast.py | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/titus/genpy.py b/titus/genpy.py
index 00752bb..e0bb9d1 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1371,6 +1371,9 @@ class FakeEmitForExecution(titus.fcn.Fcn):
     """Placeholder so that the ``emit`` function looks like any other function to PFA."""
     def __init__(self, engine):
         self.engine = engine
+    def __call__(self, state, scope, pos, paramTypes, x):
+        self.engine.emit(x)
+        return None
 
 def genericEmit(x):
     """Generic emit function for use in PFAEngine.emit.
diff --git a/titus/pfaast.py b/titus/pfaast.py
index 2ed5fe8..fbb6c45 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -345,6 +345,8 @@ class UserFcn(Fcn):
 class EmitFcn(Fcn):
     """The special ``emit`` function."""
 
+    name = "emit"
+
     def __init__(self, outputType):
         """:type outputType: titus.datatype.AvroType
         :param outputType: output type of the PFA document, which is also the signature of the ``emit`` function
-- 
2.43.0


From 461d46dc6162534faf08831adc01ebc1d26282f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:30 +0000
Subject: [PATCH 035/203] fix: time.isWorkHours is false on weekends

---
 titus/lib/pfatime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/lib/pfatime.py b/titus/lib/pfatime.py
index 0aa4859..947c337 100644
--- a/titus/lib/pfatime.py
+++ b/titus/lib/pfatime.py
@@ -239,5 +239,5 @@ class IsWorkHours(LibFcn):
         dt = tz(datetime.datetime.fromtimestamp(tscheck(ts, self.errcodeBase + 1, self.name, pos), UTC()), zone, self.errcodeBase + 0, self.name, pos)
         day = dt.weekday()
         hour = dt.hour
-        return (day != 5 or day != 6) and (hour >= 9 and hour < 17)
+        return (day != 5 and day != 6) and (hour >= 9 and hour < 17)
 provide(IsWorkHours())
-- 
2.43.0


From 6272263207a46dbb0002a412d4ce15bee42649cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:30 +0000
Subject: [PATCH 036/203] fix: time.makeTimestamp returns a double

---
 titus/lib/pfatime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/lib/pfatime.py b/titus/lib/pfatime.py
index 947c337..736f802 100644
--- a/titus/lib/pfatime.py
+++ b/titus/lib/pfatime.py
@@ -127,7 +127,7 @@ provide(SecondOfMinute())
 
 class MakeTimestamp(LibFcn):
     name = prefix + "makeTimestamp"
-    sig = Sig([{"year": P.Int()}, {"month": P.Int()}, {"day": P.Int()}, {"hour": P.Int()}, {"minute": P.Int()}, {"second": P.Int()}, {"millisecond": P.Int()}, {"zone": P.String()}], P.Int())
+    sig = Sig([{"year": P.Int()}, {"month": P.Int()}, {"day": P.Int()}, {"hour": P.Int()}, {"minute": P.Int()}, {"second": P.Int()}, {"millisecond": P.Int()}, {"zone": P.String()}], P.Double())
     epoch = datetime.datetime(1970, 1, 1, 0, 0, 0, 0, UTC())
     errcodeBase = 40080
     def __call__(self, state, scope, pos, paramTypes, year, month, day, hour, minute, second, millisecond, zone):
-- 
2.43.0


From cdbd6bcc1483c2c33a8e001cf025a5fb1d9a4804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:30 +0000
Subject: [PATCH 037/203] fix: time functions raise their documented error for
 dates outside of the calendar in the zone

---
 titus/lib/pfatime.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/titus/lib/pfatime.py b/titus/lib/pfatime.py
index 736f802..a131a3e 100644
--- a/titus/lib/pfatime.py
+++ b/titus/lib/pfatime.py
@@ -55,6 +55,8 @@ def tz(dt, zone, code, name, pos):
             return dt.astimezone(pytz().timezone(zone))
         except pytz().exceptions.UnknownTimeZoneError:
             raise PFARuntimeException("unrecognized timezone string", code, name, pos)
+        except OverflowError:
+            raise PFARuntimeException("timestamp out of range", code + 1, name, pos)
 
 def tscheck(ts, code, name, pos):
     if math.isnan(ts) or ts < -62135596800 or ts > 253402300799:
@@ -137,12 +139,13 @@ class MakeTimestamp(LibFcn):
                 dt = datetime.datetime(year, month, day, hour, minute, second, microsecond, UTC())
             else:
                 dt = pytz().timezone(zone).localize(datetime.datetime(year, month, day, hour, minute, second, microsecond))
+            dt = dt.astimezone(UTC())
         except pytz().exceptions.UnknownTimeZoneError:
             raise PFARuntimeException("unrecognized timezone string", self.errcodeBase + 0, self.name, pos)
-        except ValueError:
+        except (ValueError, OverflowError):
             raise PFARuntimeException("timestamp undefined for given parameters", self.errcodeBase + 1, self.name, pos)
         else:
-            return (dt.astimezone(UTC()) - self.epoch).total_seconds()
+            return (dt - self.epoch).total_seconds()
 provide(MakeTimestamp())
 
 class IsSecondOfMinute(LibFcn):
-- 
2.43.0


From fab2c89c1befe8e5a89d83bc97d5f42bbc49c74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:18 +0000
Subject: [PATCH 038/203] fix: repeated regular-expression searches see the
 whole haystack (anchors, null bytes, empty haystack)

---
 titus/lib/regex.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/titus/lib/regex.py b/titus/lib/regex.py
index c016340..9dd7d0c 100644
--- a/titus/lib/regex.py
+++ b/titus/lib/regex.py
@@ -63,6 +63,7 @@ class RegexSpecs(object):
     def _darwinSpecs(self):
         self.multilineFlag = 1
         self.posixExtendedSyntaxFlag = 1
+        self.startEndFlag = 4
         self.numNullPointersBefore_re_nsub = 1
         self.numNullPointersAfter_re_nsub = 2
         self.field_re_nsub = ("re_nsub", ctypes.c_size_t)
@@ -72,6 +73,7 @@ class RegexSpecs(object):
     def _linuxSpecs(self):
         self.multilineFlag = 1
         self.posixExtendedSyntaxFlag = 1
+        self.startEndFlag = 4
         self.numNullPointersBefore_re_nsub = 6
         self.numNullPointersAfter_re_nsub = 1
         self.field_re_nsub = ("re_nsub", ctypes.c_size_t)
@@ -128,16 +130,16 @@ class Regexer(object):
 
         self.numGroups = int(self.regex_t.re_nsub) + 1
         self.groupArray = (Regexer.Regmatch_t * self.numGroups)()
-        self.indexOffset = 0
 
     def search(self, start):
-        ex = Regexer.libc.regexec(ctypes.byref(self.regex_t), self.haystack[start:],
-                          self.numGroups, self.groupArray, 0)
-        self.indexOffset = start
-        if (ex != 0) or (start >= len(self.haystack)):
+        if start > 0 and start >= len(self.haystack):
             return False
-        else:
-            return True
+        # search within the whole haystack, so that "^" only matches at its beginning and null bytes don't end it
+        self.groupArray[0].rm_so = start
+        self.groupArray[0].rm_co = len(self.haystack)
+        ex = Regexer.libc.regexec(ctypes.byref(self.regex_t), self.haystack,
+                          self.numGroups, self.groupArray, Regexer.clibSpecs.startEndFlag)
+        return ex == 0
 
     def groupsFound(self):
         # count results in group array that arent (-1, -1)
@@ -148,7 +150,7 @@ class Regexer(object):
         return numFound
 
     def getRegion(self):
-        return Region(self.groupArray, self.indexOffset)
+        return Region(self.groupArray)
 
     def free(self):
         # free after every use!
@@ -156,13 +158,13 @@ class Regexer(object):
 
 # region class (for use similar to joni in scala)
 class Region(object):
-    def __init__(self, groupArray, indexOffset):
+    def __init__(self, groupArray):
         beg = []
         end = []
         for i in range(0, len(groupArray)):
             if groupArray[i].rm_so != -1:
-                beg.append(int(groupArray[i].rm_so) + indexOffset)
-                end.append(int(groupArray[i].rm_co) + indexOffset)
+                beg.append(int(groupArray[i].rm_so))
+                end.append(int(groupArray[i].rm_co))
         self.beg = beg
         self.end = end
 
-- 
2.43.0


From 101d4d1215916c7e6430b88c7e857996a20437b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:26 +0000
Subject: [PATCH 039/203] fix: regular expressions that match the empty string
 don't loop forever

---
 titus/lib/regex.py | 86 +++++++++++++++++++++-------------------------
 1 file changed, 39 insertions(+), 47 deletions(-)

diff --git a/titus/lib/regex.py b/titus/lib/regex.py
index 9dd7d0c..6bf202e 100644
--- a/titus/lib/regex.py
+++ b/titus/lib/regex.py
@@ -88,7 +88,7 @@ class Regexer(object):
     Regmatch_t = None
     libc = None
 
-    def __init__(self, haystack, pattern, code, name, pos):
+    def __init__(self, haystack, pattern, wide, code, name, pos):
         if Regexer.firstTime:
             # get clib regex specs for the wrapper
             Regexer.clibSpecs = RegexSpecs()
@@ -115,8 +115,8 @@ class Regexer(object):
 
         # haystack and pattern come in as type(haystack) == unicode
         self.haystack = haystack
-        # keep track of haystack unicode indexes
-        self.haystack_indices = utf8ByteIndexes(str(haystack))
+        # is the haystack UTF-8 encoded text?
+        self.wide = wide
         # compile pattern into regex_t object
         regex_t = Regexer.Regex_t()
         try:
@@ -150,7 +150,7 @@ class Regexer(object):
         return numFound
 
     def getRegion(self):
-        return Region(self.groupArray)
+        return Region(self.groupArray, self.haystack, self.wide)
 
     def free(self):
         # free after every use!
@@ -158,7 +158,7 @@ class Regexer(object):
 
 # region class (for use similar to joni in scala)
 class Region(object):
-    def __init__(self, groupArray):
+    def __init__(self, groupArray, haystack, wide):
         beg = []
         end = []
         for i in range(0, len(groupArray)):
@@ -167,20 +167,12 @@ class Region(object):
                 end.append(int(groupArray[i].rm_co))
         self.beg = beg
         self.end = end
-
-def utf8ByteIndexes(s):
-    out = []
-    cumulative = 0
-    for i in range(len(s)):
-        out.append(cumulative)
-        c = ord(s[i])
-        if   (c <=     0x7f): cumulative += 1
-        elif (c <=    0x7ff): cumulative += 2
-        elif (c <=   0xffff): cumulative += 3
-        elif (c <= 0x1fffff): cumulative += 4
-        else:
-            raise Exception
-    return out
+        # where to search for the next match: step over one character after an empty match
+        self.next = end[0]
+        if self.next == beg[0]:
+            self.next += 1
+            while wide and self.next < len(haystack) and (haystack[self.next] & 0xc0) == 0x80:
+                self.next += 1
 
 def convert(haystack, pattern, paramType0):
     if paramType0 == "string":
@@ -204,7 +196,7 @@ class Index(LibFcn):
     errcodeBase = 35000
     def __call__(self, state, scope, pos, paramTypes, haystack, pattern):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, paramTypes[0] == "string", self.errcodeBase + 0, self.name, pos)
         if re.search(0):
             region = re.getRegion()
             out = [region.beg[0], region.end[0]]
@@ -222,7 +214,7 @@ class Contains(LibFcn):
     errcodeBase = 35010
     def __call__(self, state, scope, pos, paramTypes, haystack, pattern):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, paramTypes[0] == "string", self.errcodeBase + 0, self.name, pos)
         out = re.search(0)
         re.free()
         return out
@@ -236,16 +228,16 @@ class Count(LibFcn):
     errcodeBase = 35020
     def __call__(self, state, scope, pos, paramTypes, haystack, pattern):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, paramTypes[0] == "string", self.errcodeBase + 0, self.name, pos)
         total = 0
         found = re.search(0)
         region = re.getRegion()
-        start = region.end[0]
+        start = region.next
         while found:
             total += 1
             found = re.search(start)
             region = re.getRegion()
-            start = region.end[0]
+            start = region.next
         re.free()
         return total
 provide(Count())
@@ -258,14 +250,14 @@ class RIndex(LibFcn):
     errcodeBase = 35030
     def __call__(self, state, scope, pos, paramTypes, haystack, pattern):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, paramTypes[0] == "string", self.errcodeBase + 0, self.name, pos)
         found = re.search(0)
         region = re.getRegion()
         start = 0
         if found:
             while found:
                 region = re.getRegion()
-                start = region.end[0]
+                start = region.next
                 found = re.search(start)
             out = [region.beg[0], region.end[0]]
         else:
@@ -282,10 +274,10 @@ class Groups(LibFcn):
     errcodeBase = 35040
     def __call__(self, state, scope, pos, paramTypes, haystack, pattern):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, paramTypes[0] == "string", self.errcodeBase + 0, self.name, pos)
         found = re.search(0)
         region = re.getRegion()
-        start = region.end[0]
+        start = region.next
         out = []
         if found:
             for i in range(0, re.groupsFound()):
@@ -304,15 +296,15 @@ class IndexAll(LibFcn):
     errcodeBase = 35050
     def __call__(self, state, scope, pos, paramTypes, haystack, pattern):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, paramTypes[0] == "string", self.errcodeBase + 0, self.name, pos)
         found = re.search(0)
         region = re.getRegion()
-        start = region.end[0]
+        start = region.next
         out = []
         if found:
             while found:
                 region = re.getRegion()
-                start = region.end[0]
+                start = region.next
                 found = re.search(start)
                 out.append([region.beg[0], region.end[0]])
         else:
@@ -329,15 +321,15 @@ class FindAll(LibFcn):
     errcodeBase = 35060
     def __call__(self, state, scope, pos, paramTypes, haystack, pattern):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, paramTypes[0] == "string", self.errcodeBase + 0, self.name, pos)
         found = re.search(0)
         region = re.getRegion()
-        start = region.end[0]
+        start = region.next
         out = []
         if found:
             while found:
                 region = re.getRegion()
-                start = region.end[0]
+                start = region.next
                 out.append(to(haystack[region.beg[0]:region.end[0]]))
                 found = re.search(start)
         else:
@@ -354,7 +346,7 @@ class FindFirst(LibFcn):
     errcodeBase = 35070
     def __call__(self, state, scope, pos, paramTypes, haystack, pattern):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, paramTypes[0] == "string", self.errcodeBase + 0, self.name, pos)
         found = re.search(0)
         if found:
             region = re.getRegion()
@@ -376,7 +368,7 @@ class FindGroupsFirst(LibFcn):
     errcodeBase = 35080
     def __call__(self, state, scope, pos, paramTypes, haystack, pattern):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, paramTypes[0] == "string", self.errcodeBase + 0, self.name, pos)
         start = 0
         found = re.search(start)
         out = []
@@ -398,7 +390,7 @@ class FindGroupsAll(LibFcn):
     errcodeBase = 35090
     def __call__(self, state, scope, pos, paramTypes, haystack, pattern):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, paramTypes[0] == "string", self.errcodeBase + 0, self.name, pos)
         start = 0
         found = re.search(start)
         region = re.getRegion()
@@ -410,7 +402,7 @@ class FindGroupsAll(LibFcn):
                 for i in range(0, re.groupsFound()):
                     groupList.append(to(haystack[region.beg[i]:region.end[i]]))
                 out.append(groupList)
-                start = region.end[0]
+                start = region.next
                 found = re.search(start)
         else:
             out = []
@@ -426,7 +418,7 @@ class GroupsAll(LibFcn):
     errcodeBase = 35100
     def __call__(self, state, scope, pos, paramTypes, haystack, pattern):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, paramTypes[0] == "string", self.errcodeBase + 0, self.name, pos)
         start = 0
         found = re.search(start)
         region = re.getRegion()
@@ -438,7 +430,7 @@ class GroupsAll(LibFcn):
                 for i in range(0, re.groupsFound()):
                     groupList.append([region.beg[i], region.end[i]])
                 out.append(groupList)
-                start = region.end[0]
+                start = region.next
                 found = re.search(start)
         else:
             out = []
@@ -456,7 +448,7 @@ class ReplaceFirst(LibFcn):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
         if isinstance(replacement, bytes):
             replacement = bytesToString(replacement)      
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, paramTypes[0] == "string", self.errcodeBase + 0, self.name, pos)
         found = re.search(0)
         region = re.getRegion()
         if found:
@@ -477,14 +469,14 @@ class ReplaceLast(LibFcn):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
         if isinstance(replacement, bytes):
             replacement = bytesToString(replacement)
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, paramTypes[0] == "string", self.errcodeBase + 0, self.name, pos)
         found = re.search(0)
         region = re.getRegion()
         start = 0
         if found:
             while found:
                 region = re.getRegion()
-                start = region.end[0]
+                start = region.next
                 found = re.search(start)
             out = to(haystack[:region.beg[0]]) + replacement + to(haystack[region.end[0]:])
         else:
@@ -501,7 +493,7 @@ class Split(LibFcn):
     errcodeBase = 35130
     def __call__(self, state, scope, pos, paramTypes, haystack, pattern):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, paramTypes[0] == "string", self.errcodeBase + 0, self.name, pos)
         out = []
         start = 0
         found = re.search(start)
@@ -516,7 +508,7 @@ class Split(LibFcn):
             while found:
                 out.append(to(haystack[beg:end]))
                 beg = region.end[0]
-                found = re.search(beg)
+                found = re.search(region.next)
                 region = re.getRegion()
                 end = region.beg[0]
             if beg != len(haystack):
@@ -542,7 +534,7 @@ class ReplaceAll(LibFcn):
         haystack, pattern, to = convert(haystack, pattern, paramTypes[0])
         if isinstance(replacement, bytes):
             replacement = bytesToString(replacement)
-        re = Regexer(haystack, pattern, self.errcodeBase + 0, self.name, pos)
+        re = Regexer(haystack, pattern, paramTypes[0] == "string", self.errcodeBase + 0, self.name, pos)
         found = re.search(0)
         region = re.getRegion()
         beg = 0
@@ -552,7 +544,7 @@ class ReplaceAll(LibFcn):
             while found:
                 out = out + to(haystack[beg:end]) + replacement
                 beg = region.end[0]
-                found = re.search(beg)
+                found = re.search(region.next)
                 region = re.getRegion()
                 end = region.beg[0]
             if beg != len(haystack):
-- 
2.43.0


From eeb4aeb98d7770d86888e46925a1b256a036f0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:26 +0000
Subject: [PATCH 040/203] fix: regular-expression positions index characters of
 a string, not bytes

---
 titus/lib/regex.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/titus/lib/regex.py b/titus/lib/regex.py
index 6bf202e..80a417e 100644
--- a/titus/lib/regex.py
+++ b/titus/lib/regex.py
@@ -188,6 +188,9 @@ def convert(haystack, pattern, paramType0):
             cnvtPattern = stringToBytes(pattern)       
         return cnvtHaystack, cnvtPattern, lambda x: bytesToString(x)
 
+def location(haystack, to, beg, end):
+    return [len(to(haystack[:beg])), len(to(haystack[:end]))]
+
 ############################################################# Index
 class Index(LibFcn):
     name = prefix + "index"
@@ -199,7 +202,7 @@ class Index(LibFcn):
         re = Regexer(haystack, pattern, paramTypes[0] == "string", self.errcodeBase + 0, self.name, pos)
         if re.search(0):
             region = re.getRegion()
-            out = [region.beg[0], region.end[0]]
+            out = location(haystack, to, region.beg[0], region.end[0])
         else:
             out = []
         re.free()
@@ -259,7 +262,7 @@ class RIndex(LibFcn):
                 region = re.getRegion()
                 start = region.next
                 found = re.search(start)
-            out = [region.beg[0], region.end[0]]
+            out = location(haystack, to, region.beg[0], region.end[0])
         else:
             out = []
         re.free()
@@ -281,7 +284,7 @@ class Groups(LibFcn):
         out = []
         if found:
             for i in range(0, re.groupsFound()):
-                out.append([region.beg[i], region.end[i]])
+                out.append(location(haystack, to, region.beg[i], region.end[i]))
         else:
             out = []
         re.free()
@@ -306,7 +309,7 @@ class IndexAll(LibFcn):
                 region = re.getRegion()
                 start = region.next
                 found = re.search(start)
-                out.append([region.beg[0], region.end[0]])
+                out.append(location(haystack, to, region.beg[0], region.end[0]))
         else:
             out = []
         re.free()
@@ -428,7 +431,7 @@ class GroupsAll(LibFcn):
                 region = re.getRegion()
                 groupList = []
                 for i in range(0, re.groupsFound()):
-                    groupList.append([region.beg[i], region.end[i]])
+                    groupList.append(location(haystack, to, region.beg[i], region.end[i]))
                 out.append(groupList)
                 start = region.next
                 found = re.search(start)
-- 
2.43.0


From 27c3de50aacc0a4d8404714fe27f113f760e8d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 041/203] fix: la.eigenBasis is orthogonal for repeated
 eigenvalues

---
 titus/lib/la.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/lib/la.py b/titus/lib/la.py
index 4e1a0dc..03cff9e 100644
--- a/titus/lib/la.py
+++ b/titus/lib/la.py
@@ -417,7 +417,7 @@ class EigenBasis(LibFcn):
     def calculate(self, x, size):
         symm = (x + x.T) * 0.5
 
-        evals, evects = np().linalg.eig(symm)
+        evals, evects = np().linalg.eigh(symm)
         evects = np().array(evects)
         evects2 = [evects[:,i] * (-1.0 if evects[0,i] < 0.0 else 1.0) for i in range(size)]
 
-- 
2.43.0


From 2caacaf1757817ca8e72b3e6ccf20eb9161b25aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 042/203] fix: la.trace takes missing diagonal elements of a
 sparse matrix as zero

---
 titus/lib/la.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/lib/la.py b/titus/lib/la.py
index 03cff9e..44f96e6 100644
--- a/titus/lib/la.py
+++ b/titus/lib/la.py
@@ -334,7 +334,7 @@ class Trace(LibFcn):
 
         elif isinstance(x, dict) and all(isinstance(x[i], dict) for i in list(x.keys())):
             keys = rowKeys(x).intersection(colKeys(x))
-            return sum(x[i][i] for i in keys)
+            return sum(x[i].get(i, 0.0) for i in keys)
 
 provide(Trace())
 
-- 
2.43.0


From fe5f63f102eeb6885e9ab68aa8bd0271ac189232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 043/203] fix: la.transpose raises its documented error for
 rows with different keys

---
 titus/lib/la.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/lib/la.py b/titus/lib/la.py
index 44f96e6..a975751 100644
--- a/titus/lib/la.py
+++ b/titus/lib/la.py
@@ -77,7 +77,7 @@ def raggedArray(x):
     return max(collens) != min(collens)
 
 def raggedMap(x):
-    return len(set(len(xi) for xi in list(x.values()))) != 1
+    return len(set(frozenset(xi.keys()) for xi in list(x.values()))) != 1
 
 class MapApply(LibFcn):
     name = prefix + "map"
-- 
2.43.0


From f4799d83f7725ada90ffa96fb22a7ee2db2bb935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 044/203] fix: la.inverse of a singular matrix is the
 generalized inverse, as for a non-square matrix

---
 titus/lib/la.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/titus/lib/la.py b/titus/lib/la.py
index a975751..dfd0b11 100644
--- a/titus/lib/la.py
+++ b/titus/lib/la.py
@@ -39,6 +39,12 @@ def np():
     import numpy
     return numpy
 
+def inverse(x):
+    try:
+        return x.I
+    except np().linalg.LinAlgError:   # singular
+        return np().linalg.pinv(x)
+
 def rowKeys(x):
     return set(x.keys())
 
@@ -304,7 +310,7 @@ class Inverse(LibFcn):
                 raise PFARuntimeException("too few rows/cols", self.errcodeBase + 0, self.name, pos)
             if raggedArray(x):
                 raise PFARuntimeException("ragged columns", self.errcodeBase + 1, self.name, pos)
-            return matrixToArrays(arraysToMatrix(x).I)
+            return matrixToArrays(inverse(arraysToMatrix(x)))
 
         elif isinstance(x, dict) and all(isinstance(x[i], dict) for i in list(x.keys())):
             rows = list(rowKeys(x))
@@ -312,7 +318,7 @@ class Inverse(LibFcn):
             if len(rows) < 1 or len(cols) < 1:
                 raise PFARuntimeException("too few rows/cols", self.errcodeBase + 0, self.name, pos)
             xmat = mapsToMatrix(x, rows, cols)
-            return matrixToMaps(xmat.I, cols, rows)
+            return matrixToMaps(inverse(xmat), cols, rows)
 
 provide(Inverse())
 
-- 
2.43.0


From 644d286ac74152e43606f07e14d581e54da57055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 045/203] fix: la.dot raises its documented error for ragged
 matrices

---
 titus/lib/la.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/titus/lib/la.py b/titus/lib/la.py
index dfd0b11..0977eba 100644
--- a/titus/lib/la.py
+++ b/titus/lib/la.py
@@ -213,6 +213,8 @@ class Dot(LibFcn):
                 # array matrix-matrix case
                 bad = any(any(math.isnan(z) or math.isinf(z) for z in row) for row in x) or \
                       any(any(math.isnan(z) or math.isinf(z) for z in row) for row in y)
+                if (len(x) > 0 and raggedArray(x)) or (len(y) > 0 and raggedArray(y)):
+                    raise PFARuntimeException("misaligned matrices", self.errcodeBase + 0, self.name, pos)
                 xmat = arraysToMatrix(x)
                 ymat = arraysToMatrix(y)
                 if xmat.shape[0] == 0 or xmat.shape[1] == 0 or ymat.shape[0] == 0 or ymat.shape[1] == 0:
@@ -227,6 +229,8 @@ class Dot(LibFcn):
                 # array matrix-vector case
                 bad = any(any(math.isnan(z) or math.isinf(z) for z in row) for row in x) or \
                       any(math.isnan(z) or math.isinf(z) for z in y)
+                if len(x) > 0 and raggedArray(x):
+                    raise PFARuntimeException("misaligned matrices", self.errcodeBase + 0, self.name, pos)
                 xmat = arraysToMatrix(x)
                 ymat = arrayToRowVector(y)
                 if xmat.shape[0] == 0 or xmat.shape[1] == 0 or ymat.shape[0] == 0 or ymat.shape[1] == 0:
-- 
2.43.0


From a6a901be5cbea40e2d35ec330724506e957e2301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 046/203] fix: m.link.softmax doesn't overflow when the largest
 magnitude is negative

---
 titus/lib/link.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/titus/lib/link.py b/titus/lib/link.py
index 5fb1311..6abe7fb 100644
--- a/titus/lib/link.py
+++ b/titus/lib/link.py
@@ -48,21 +48,13 @@ class SoftMax(LibFcn):
             raise PFARuntimeException("empty input", self.errcodeBase + 0, self.name, pos)
         if paramTypes[0]["type"] == "map":
             xx = x.copy()
-            tmp = list(map(abs, list(xx.values())))
-            if list(xx.values())[tmp.index(max(tmp))] >= 0:
-                m = max(xx.values())
-            else:
-                m = min(xx.values())
+            m = max(xx.values())
             denom = sum([math.exp(v - m) for v in list(x.values())])
             for key in list(x.keys()):
                 xx[key] = float(math.exp(xx[key] - m)/denom)
             return xx
         else:
-            tmp = list(map(abs, x))
-            if x[tmp.index(max(tmp))] >= 0:
-                m = max(x)
-            else:
-                m = min(x)
+            m = max(x)
             denom = sum([math.exp(v - m) for v in x])
             return [float(math.exp(val - m)/denom) for val in x]
 provide(SoftMax())
-- 
2.43.0


From 74bddbae6973698141116944f0ef35a9868ba321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 047/203] fix: overflowing squares and exponentials are
 infinite in metrics, kernels, link functions, clusters and neighbors

---
 titus/lib/interp.py         |  2 +-
 titus/lib/kernel.py         |  6 +++---
 titus/lib/link.py           | 10 +++++-----
 titus/lib/metric.py         |  8 ++++----
 titus/lib/model/cluster.py  |  4 ++--
 titus/lib/model/neighbor.py |  4 ++--
 titus/util.py               |  8 ++++++++
 7 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/titus/lib/interp.py b/titus/lib/interp.py
index 37a7fe7..c0d07f3 100644
--- a/titus/lib/interp.py
+++ b/titus/lib/interp.py
@@ -99,7 +99,7 @@ class Nearest(LibFcn):
                 x = item["x"]
                 if len(x) != len(datum):
                     raise PFARuntimeException("inconsistent dimensionality", self.errcodeBase + 1, self.name, pos)
-                d = sum((x0i - xi)**2 for x0i, xi in zip(datum, x))
+                d = sum((x0i - xi)*(x0i - xi) for x0i, xi in zip(datum, x))
                 if one is None or d < oned:
                     one = item
                     oned = d
diff --git a/titus/lib/kernel.py b/titus/lib/kernel.py
index 5eea3c0..f5b2729 100644
--- a/titus/lib/kernel.py
+++ b/titus/lib/kernel.py
@@ -25,7 +25,7 @@ from titus.signature import Sig
 from titus.signature import Sigs
 from titus.datatype import *
 from titus.errors import *
-from titus.util import callfcn, div
+from titus.util import callfcn, div, exp
 import titus.P as P
 from titus.lib.array import argLowestN
 from titus.lib.core import powLikeJava
@@ -53,8 +53,8 @@ class RBF(LibFcn):
     def __call__(self, state, scope, pos, paramTypes, x, y, gamma):
         if len(x) != len(y):
             raise PFARuntimeException("arrays must have same length", self.errcodeBase + 0, self.name, pos)
-        diff = [abs(i - j)**2 for i,j in zip(x,y)]
-        return math.exp(-gamma*sum(diff))
+        diff = [(i - j)*(i - j) for i,j in zip(x,y)]
+        return exp(-gamma*sum(diff))
 provide(RBF())
 
 class Linear(LibFcn):
diff --git a/titus/lib/link.py b/titus/lib/link.py
index 6abe7fb..3e34e93 100644
--- a/titus/lib/link.py
+++ b/titus/lib/link.py
@@ -25,7 +25,7 @@ from titus.signature import Sig
 from titus.signature import Sigs
 from titus.datatype import *
 from titus.errors import *
-from titus.util import callfcn, div
+from titus.util import callfcn, div, exp
 import titus.P as P
 from titus.lib.array import argLowestN
 from titus.lib.prob.dist import Chi2Distribution
@@ -80,7 +80,7 @@ class Logit(LibFcn):
                  Sig([{"x": P.Double()}], P.Double())])
     errcodeBase = 25010
     def __call__(self, state, scope, pos, paramTypes, x):
-        return unwrapForNorm(x, lambda y: 1./(1. + math.exp(-y)))
+        return unwrapForNorm(x, lambda y: 1./(1. + exp(-y)))
 provide(Logit())
 
 class Probit(LibFcn):
@@ -100,7 +100,7 @@ class CLoglog(LibFcn):
                  Sig([{"x": P.Double()}], P.Double())])
     errcodeBase = 25030
     def __call__(self, state, scope, pos, paramTypes, x):
-        return unwrapForNorm(x, lambda y: 1. - math.exp(-math.exp(y)))
+        return unwrapForNorm(x, lambda y: 1. - math.exp(-exp(y)))
 provide(CLoglog())
 
 class LogLog(LibFcn):
@@ -110,7 +110,7 @@ class LogLog(LibFcn):
                  Sig([{"x": P.Double()}], P.Double())])
     errcodeBase = 25040
     def __call__(self, state, scope, pos, paramTypes, x):
-        return unwrapForNorm(x, lambda y: math.exp(-math.exp(y)))
+        return unwrapForNorm(x, lambda y: math.exp(-exp(y)))
 provide(LogLog())
 
 class Cauchit(LibFcn):
@@ -130,7 +130,7 @@ class Softplus(LibFcn):
                  Sig([{"x": P.Double()}], P.Double())])
     errcodeBase = 25060
     def __call__(self, state, scope, pos, paramTypes, x):
-        return unwrapForNorm(x, lambda y: math.log(1.0 + math.exp(y)))
+        return unwrapForNorm(x, lambda y: max(y, 0.0) + math.log1p(math.exp(-abs(y))))
 provide(Softplus())
 
 class ReLu(LibFcn):
diff --git a/titus/lib/metric.py b/titus/lib/metric.py
index 71aa073..b64004b 100644
--- a/titus/lib/metric.py
+++ b/titus/lib/metric.py
@@ -44,7 +44,7 @@ class SimpleEuclidean(LibFcn):
     def __call__(self, state, scope, pos, paramTypes, x, y):
         if len(x) != len(y):
             raise PFARuntimeException("dimensions of vectors do not match", self.errcodeBase + 0, self.name, pos)
-        return math.sqrt(sum(((xi - yi)**2 for xi, yi in zip(x, y))))
+        return math.sqrt(sum(((xi - yi)*(xi - yi) for xi, yi in zip(x, y))))
 provide(SimpleEuclidean())
 
 class AbsDiff(LibFcn):
@@ -60,7 +60,7 @@ class GaussianSimilarity(LibFcn):
     sig = Sig([{"x": P.Double()}, {"y": P.Double()}, {"sigma": P.Double()}], P.Double())
     errcodeBase = 28020
     def __call__(self, state, scope, pos, paramTypes, x, y, sigma):
-        return math.exp(div(-math.log(2) * (x - y)**2, sigma**2))
+        return math.exp(div(-math.log(2) * (x - y)*(x - y), sigma*sigma))
 provide(GaussianSimilarity())
 
 class MetricWithMissingValues(LibFcn):
@@ -97,7 +97,7 @@ class Euclidean(MetricWithMissingValues):
         ])
     errcodeBase = 28030
     def increment(self, tally, x):
-        return tally + x**2
+        return tally + x*x
     def finalize(self, x):
         return math.sqrt(x)
 provide(Euclidean())
@@ -110,7 +110,7 @@ class SquaredEuclidean(MetricWithMissingValues):
         ])
     errcodeBase = 28040
     def increment(self, tally, x):
-        return tally + x**2
+        return tally + x*x
     def finalize(self, x):
         return x
 provide(SquaredEuclidean())
diff --git a/titus/lib/model/cluster.py b/titus/lib/model/cluster.py
index ae2a17f..e4d5518 100644
--- a/titus/lib/model/cluster.py
+++ b/titus/lib/model/cluster.py
@@ -48,7 +48,7 @@ class Closest(LibFcn):
             metric, = args
             distances = [callfcn(state, scope, metric, [datum, x["center"]]) for x in clusters]
         else:
-            distances = [sum((di - xi)**2 for di, xi in zip(datum, x["center"])) for x in clusters]
+            distances = [sum((di - xi)*(di - xi) for di, xi in zip(datum, x["center"])) for x in clusters]
         index, = argLowestN(distances, 1, lambda a, b: a < b)
         return clusters[index]
 provide(Closest())
@@ -66,7 +66,7 @@ class ClosestN(LibFcn):
             metric, = args
             distances = [callfcn(state, scope, metric, [datum, x["center"]]) for x in clusters]
         else:
-            distances = [sum((di - xi)**2 for di, xi in zip(datum, x["center"])) for x in clusters]
+            distances = [sum((di - xi)*(di - xi) for di, xi in zip(datum, x["center"])) for x in clusters]
         indexes = argLowestN(distances, n, lambda a, b: a < b)
         return [clusters[i] for i in indexes]
 provide(ClosestN())
diff --git a/titus/lib/model/neighbor.py b/titus/lib/model/neighbor.py
index 5a6865e..6ac4d71 100644
--- a/titus/lib/model/neighbor.py
+++ b/titus/lib/model/neighbor.py
@@ -94,7 +94,7 @@ class NearestK(LibFcn):
                 for x in codebook:
                     if len(x) != dimensions:
                         raise PFARuntimeException("inconsistent dimensionality", self.errcodeBase + 1, self.name, pos)
-            distances = [sum((di - xi)**2 for di, xi in zip(datum, x)) for x in codebook]
+            distances = [sum((di - xi)*(di - xi) for di, xi in zip(datum, x)) for x in codebook]
 
         indexes = argLowestN(distances, k, lambda a, b: a < b)
         return [codebook[i] for i in indexes]
@@ -112,6 +112,6 @@ class BallR(LibFcn):
             metric, = args
             distances = [callfcn(state, scope, metric, [datum, x]) for x in codebook]
         else:
-            distances = [math.sqrt(sum((di - xi)**2 for di, xi in zip(datum, x))) for x in codebook]
+            distances = [math.sqrt(sum((di - xi)*(di - xi) for di, xi in zip(datum, x))) for x in codebook]
         return [x for x, d in zip(codebook, distances) if d < r]
 provide(BallR())
diff --git a/titus/util.py b/titus/util.py
index 761e1e3..0b1f848 100644
--- a/titus/util.py
+++ b/titus/util.py
@@ -18,6 +18,7 @@
 # limitations under the License.
 
 import inspect
+import math
 import sys
 
 TYPE_ERRORS_IN_PRETTYPFA = True
@@ -71,6 +72,13 @@ def pos(dot, at):
     else:
         return "at {0}{1}".format(at, "" if (dot == "") else " (PFA field \"" + dot + "\")")
 
+def exp(x):
+    """PFA exponential behavior: inf, rather than an exception, if the result is too large."""
+    try:
+        return math.exp(x)
+    except OverflowError:
+        return float("inf")
+
 def flatten(x):
     """General-purpose list-of-lists flattening.
 
-- 
2.43.0


From 6a67297457b459e4aba4101e0d88ccc290b0af90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 048/203] fix: interp.bin raises its documented error for
 infinite ranges and bins beyond the range of an int

---
 titus/lib/interp.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/titus/lib/interp.py b/titus/lib/interp.py
index c0d07f3..adbe446 100644
--- a/titus/lib/interp.py
+++ b/titus/lib/interp.py
@@ -27,6 +27,7 @@ from titus.datatype import *
 from titus.errors import *
 from titus.util import callfcn
 from titus.util import div
+from titus.lib.core import INT_MIN_VALUE, INT_MAX_VALUE
 import titus.P as P
 
 def np():
@@ -47,7 +48,7 @@ class Bin(LibFcn):
     def __call__(self, state, scope, pos, paramTypes, x, *args):
         if len(args) == 3:
             numbins, low, high = args
-            if low >= high or math.isnan(low) or math.isnan(high):
+            if low >= high or math.isnan(low) or math.isnan(high) or math.isinf(low) or math.isinf(high):
                 raise PFARuntimeException("bad histogram range", self.errcodeBase + 0, self.name, pos)
             if numbins < 1:
                 raise PFARuntimeException("bad histogram scale", self.errcodeBase + 1, self.name, pos)
@@ -68,7 +69,10 @@ class Bin(LibFcn):
             if math.isnan(x) or math.isinf(x):
                 raise PFARuntimeException("x out of range", self.errcodeBase + 2, self.name, pos)
             else:
-                return int(math.floor(div((x - origin), width)))
+                out = div((x - origin), width)
+                if out < INT_MIN_VALUE or out >= INT_MAX_VALUE + 1:
+                    raise PFARuntimeException("x out of range", self.errcodeBase + 2, self.name, pos)
+                return int(math.floor(out))
 provide(Bin())
     
 class Nearest(LibFcn):
-- 
2.43.0


From ef8316c18a22e1208a735daa239fe7b8ee523ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 049/203] fix: m.special.nChooseK is exact and raises its
 documented error beyond the range of an int

---
 titus/lib/spec.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/titus/lib/spec.py b/titus/lib/spec.py
index a5a799b..f34b820 100644
--- a/titus/lib/spec.py
+++ b/titus/lib/spec.py
@@ -39,7 +39,9 @@ class NChooseK(LibFcn):
     def __call__(self, state, scope, pos, paramTypes, n, k):
         try:
             if n == k: raise Exception
-            return int(nChooseK(n, k))
+            out = nChooseK(n, k)
+            if out > 2147483647: raise Exception
+            return out
         except:
             raise PFARuntimeException("domain error", self.errcodeBase + 0, self.name, pos)
 provide(NChooseK())
@@ -325,6 +327,13 @@ def nChooseK(n, k):
                                   - math.lgamma(abs(n)))
         return round(b)
     if (n >= k):
+        smaller = min(k, n - k)
+        if (nInt) and (math.floor(k) == k) and (smaller <= 1000):
+            # exact (each intermediate product is itself a binomial coefficient)
+            n, out = int(n), 1
+            for i in range(1, int(smaller) + 1):
+                out = out * (n - i + 1) // i
+            return out
         b = math.exp(math.lgamma(n + 1.0) - math.lgamma(k + 1.0) \
                    - math.lgamma(n - k + 1.0))
         return round(b)
-- 
2.43.0


From 962d8a23b5766d885172ad1228aec6b4eb01d077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:29 +0000
Subject: [PATCH 050/203] fix: binomial and hypergeometric distributions
 include the largest value of their support

---
 titus/lib/prob/dist.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/titus/lib/prob/dist.py b/titus/lib/prob/dist.py
index 6dd22e6..5551b05 100644
--- a/titus/lib/prob/dist.py
+++ b/titus/lib/prob/dist.py
@@ -597,7 +597,7 @@ class BinomialPDF(LibFcn):
             raise PFARuntimeException("invalid input", self.errcodeBase + 1, self.name, pos)
         elif x < 0:
             return 0.0
-        elif x >= size:
+        elif x > size:
             return 0.0
         else:
             return BinomialDistribution(size, prob, self.errcodeBase + 0, self.name, pos).PDF(x)
@@ -1575,7 +1575,7 @@ class HypergeometricDistribution(object):
         # compute nchoosek(n_white,x)
         if x == 0:
             nchoosek1 = 1.0
-        elif (x < 0) or (x >= self.n_white):
+        elif (x < 0) or (x > self.n_white):
             nchoosek1 = 0.0
         else:
             nchoosek1 = nChooseK(self.n_white, x)
@@ -1611,7 +1611,7 @@ class HypergeometricDistribution(object):
         elif math.isnan(p):
             return float("nan")
         elif (p == 1):
-            return self.n_drawn
+            return min(self.n_white, self.n_drawn)
         else:
             # step through CDFs until we find the right one
             x = 0
-- 
2.43.0


From 435f64a3fc95833f19b279734ccc167530c57a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:29 +0000
Subject: [PATCH 051/203] fix: gaussian, lognormal, gamma, chi2, F and t
 quantiles invert the cumulative for any parameters and probability

---
 titus/lib/prob/dist.py | 74 +++++++++++++++---------------------------
 1 file changed, 27 insertions(+), 47 deletions(-)

diff --git a/titus/lib/prob/dist.py b/titus/lib/prob/dist.py
index 5551b05..08874a3 100644
--- a/titus/lib/prob/dist.py
+++ b/titus/lib/prob/dist.py
@@ -872,6 +872,17 @@ provide(NegativeBinomialQF())
 ##### The actual distribution functions #################################################
 #########################################################################################
 
+def bisectQuantile(CDF, p, low, high):
+    # halve the interval until it cannot be represented any more finely
+    while True:
+        mid = low + (high - low)/2.0
+        if mid <= low or mid >= high:
+            return high
+        elif CDF(mid) < p:
+            low = mid
+        else:
+            high = mid
+
 ################### Gaussian
 class GaussianDistribution(object):
     def __init__(self, mu, sigma, name, errcodeBase, pos):
@@ -927,6 +938,11 @@ class GaussianDistribution(object):
             arg = -2.0*math.log(p)
             t = math.sqrt(arg)
             g = t - (c0 + t*(c1 + t*c2)) / (1.0 + t*(d1 + t*(d2 + t*d3)))
+            if p > 1e-300:
+                # refine the approximation (Halley's method on the lower tail)
+                for i in range(2):
+                    u = (0.5*math.erfc(g/math.sqrt(2.0)) - p) * math.sqrt(2.0*math.pi) * math.exp(0.5*g*g)
+                    g = g + u/(1.0 - 0.5*g*u)
             standard_normal_qf = sign*g
             return self.mu + self.sigma*standard_normal_qf
 
@@ -1130,21 +1146,10 @@ class GammaDistribution(object):
         elif (p == 0.0):
             return 0.0
         else:
-            y = self.alpha*self.beta
-            y_old = y
-            for i in range(0,100):
-                h = (self.CDF(y_old) - p)/self.PDF(y_old)
-                if y_old - h <= 0.0:
-                    y_new = y_old / 2.0
-                else:
-                    y_new = y_old - h
-                if abs(y_new) <= self.epsilon:
-                    y_new = y_old/10.0
-                    h = y_old - y_new
-                if abs(h) < math.sqrt(self.epsilon):
-                    break
-                y_old = y_new
-            return y_new
+            high = self.alpha*self.beta
+            while self.CDF(high) < p:
+                high *= 2.0
+            return bisectQuantile(self.CDF, p, 0.0, high)
 
 ################### Beta
 class BetaDistribution(object):
@@ -1276,19 +1281,10 @@ class FDistribution(object):
         elif (p == 0.0):
             return 0.0
         else:
-            low = 0.0
             high = 1.0
             while self.CDF(high) < p:
                 high *= 2.0
-            diff = None
-            while diff is None or abs(diff) > self.epsilon:
-                mid = (low + high) / 2.0
-                diff = self.CDF(mid) - p
-                if diff > 0:
-                    high = mid
-                else:
-                    low = mid
-            return mid
+            return bisectQuantile(self.CDF, p, 0.0, high)
 
 ################### Lognormal
 class LognormalDistribution(object):
@@ -1327,19 +1323,11 @@ class LognormalDistribution(object):
         elif (p == 1.0):
             return float("inf")
         else:
-            low = 0.0
-            high = 1.0
-            while self.CDF(high) < p:
-                high *= 2.0
-            diff = None
-            while diff is None or abs(diff) > self.epsilon:
-                mid = (low + high) / 2.0
-                diff = self.CDF(mid) - p
-                if diff > 0:
-                    high = mid
-                else:
-                    low = mid
-            return mid
+            z = GaussianDistribution(0.0, 1.0, self.name, self.errcodeBase, self.pos).QF(p)
+            try:
+                return math.exp(self.mu + self.sigma*z)
+            except OverflowError:
+                return float("inf")
 
             # # Using Newton-Raphson algorithm
             # if p <= .001:
@@ -1401,15 +1389,7 @@ class TDistribution(object):
                 low *= 2.0
             while self.CDF(high) < p:
                 high *= 2.0
-            diff = None
-            while diff is None or abs(diff) > self.epsilon:
-                mid = (low + high) / 2.0
-                diff = self.CDF(mid) - p
-                if diff > 0:
-                    high = mid
-                else:
-                    low = mid
-            return mid
+            return bisectQuantile(self.CDF, p, low, high)
 
             # # Using Newton-Raphson algorithm
             # if p <= .001:
-- 
2.43.0


From 19b62adeebcd6284e8e2b155f43dbedcdc74dffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:21 +0000
Subject: [PATCH 052/203] fix: chi2, gamma and Poisson cumulatives converge far
 above the mean

---
 titus/lib/spec.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/titus/lib/spec.py b/titus/lib/spec.py
index f34b820..7dd7933 100644
--- a/titus/lib/spec.py
+++ b/titus/lib/spec.py
@@ -234,7 +234,10 @@ def contFractionBeta(a,b,x, maxIter = 1000, epsilon=1e-15):
 def regularizedGammaP(a, x):
     if (x < 0.0) or (a <= 0.0):
         raise Exception
-    maxIter = 1000
+    if x > a + 1.0:
+        # the series converges too slowly
+        return 1.0 - gcf(a, x)[0]
+    maxIter = 10000
     epsilon = 1e-15
     n  = 0.0
     an = 1.0/a
@@ -265,7 +268,7 @@ def regularizedGammaQ(a, x):
 
 # http://www.johnkerl.org/python/sp_funcs_m.py.txt
 # used by incompleteGamma
-def gser(a, x, itmax=700, eps=3.0e-7):
+def gser(a, x, itmax=10000, eps=1.0e-15):
     """Series approximation to the incomplete gamma function."""
     gln = math.lgamma(a)
     if (x < 0.0):
@@ -287,7 +290,7 @@ def gser(a, x, itmax=700, eps=3.0e-7):
 
 # http://www.johnkerl.org/python/sp_funcs_m.py.txt
 # used by incompleteGamma
-def gcf(a, x, itmax=200, eps=3.0e-7):
+def gcf(a, x, itmax=10000, eps=1.0e-15):
     """Continued fraction approximation of the incomplete gamma function."""
     gln = math.lgamma(a)
     gold = 0.0
-- 
2.43.0


From afb9249cf68df1bdb52f6144fcc215b7c56f44b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:21 +0000
Subject: [PATCH 053/203] fix: prob.dist.fPDF doesn't overflow for many degrees
 of freedom

---
 titus/lib/prob/dist.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/titus/lib/prob/dist.py b/titus/lib/prob/dist.py
index 08874a3..663749f 100644
--- a/titus/lib/prob/dist.py
+++ b/titus/lib/prob/dist.py
@@ -26,6 +26,7 @@ from titus.signature import Sigs
 from titus.datatype import *
 from titus.errors import *
 import titus.P as P
+from titus.util import exp
 
 # import special functions requred to compute distributions
 from titus.lib.spec import logBetaFunction
@@ -1256,11 +1257,12 @@ class FDistribution(object):
         elif (x == 0) and (self.d1 == 2.0):
             return 1.0
         else:
-            num_arg1 = pow(self.d1/self.d2, self.d1/2.0)
-            num_arg2 = pow(x, (self.d1/2.0)-1.0)
-            den_arg1 = math.exp(logBetaFunction(self.d1/2.0, self.d2/2.0))
-            den_arg2 = pow((1.0 + (self.d1*x)/self.d2), (self.d1 + self.d2)/2.0)
-            return (num_arg1*num_arg2)/(den_arg1*den_arg2)
+            # in logarithms, because the factors easily overflow
+            num_arg1 = math.log(self.d1/self.d2) * self.d1/2.0
+            num_arg2 = math.log(x) * ((self.d1/2.0)-1.0)
+            den_arg1 = logBetaFunction(self.d1/2.0, self.d2/2.0)
+            den_arg2 = math.log1p((self.d1*x)/self.d2) * (self.d1 + self.d2)/2.0
+            return exp(num_arg1 + num_arg2 - den_arg1 - den_arg2)
 
     def CDF(self,x):
         if math.isnan(x):
-- 
2.43.0


From e798d04e719569a25cbe718d30d8581fe8fcb1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 054/203] fix: cumulatives based on the incomplete gamma and
 beta functions reach their limits in the far tails

---
 titus/lib/spec.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/titus/lib/spec.py b/titus/lib/spec.py
index 7dd7933..cf9df9e 100644
--- a/titus/lib/spec.py
+++ b/titus/lib/spec.py
@@ -140,11 +140,12 @@ def logBetaFunction(a, b):
 
 # numerical recipes in C
 def incompleteBetaFunction(x,a,b):
-    try:
-        lbeta = math.lgamma(a + b) - math.lgamma(a) - math.lgamma(b) \
-                + a * math.log(x) + b * math.log(1.0 - x)
-    except ValueError:
-        lbeta = float("nan")
+    if x <= 0.0:
+        return 0.0
+    elif x >= 1.0:
+        return 1.0
+    lbeta = math.lgamma(a + b) - math.lgamma(a) - math.lgamma(b) \
+            + a * math.log(x) + b * math.log(1.0 - x)
     if (x < (a + 1)/(a + b + 2)):
         return math.exp(lbeta) * contFractionBeta(a,b,x)/a
     else:
@@ -293,6 +294,8 @@ def gser(a, x, itmax=10000, eps=1.0e-15):
 def gcf(a, x, itmax=10000, eps=1.0e-15):
     """Continued fraction approximation of the incomplete gamma function."""
     gln = math.lgamma(a)
+    if -x+a*math.log(x)-gln < -745.0:
+        return (0.0, gln)
     gold = 0.0
     a0 = 1.0
     a1 = x
-- 
2.43.0


From 06783520b9b3b13ebb5ac87f3792bcbf10892ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 055/203] fix: Weibull densities and cumulatives don't overflow

---
 titus/lib/prob/dist.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/titus/lib/prob/dist.py b/titus/lib/prob/dist.py
index 663749f..350ec93 100644
--- a/titus/lib/prob/dist.py
+++ b/titus/lib/prob/dist.py
@@ -1625,10 +1625,11 @@ class WeibullDistribution(object):
             else:
                 return 0.0
         elif x >= 0.0:
-            term1 = (self.a/self.b)
-            term2 = pow(x/self.b, self.a - 1.0)
-            term3 = math.exp(-pow(x/self.b, self.a))
-            return term1 * term2 * term3
+            term1 = math.log(self.a) - math.log(self.b)
+            logx = math.log(x) - math.log(self.b)
+            term2 = logx * (self.a - 1.0)
+            term3 = exp(logx * self.a)
+            return exp(term1 + term2 - term3) if term3 < float("inf") else 0.0
 
         else:
             return 0.0
@@ -1637,7 +1638,9 @@ class WeibullDistribution(object):
         if math.isnan(x):
             return float("nan")
         elif x >= 0.0:
-            return 1.0 - math.exp(-pow(x/self.b, self.a))
+            if x == 0.0:
+                return 0.0
+            return -math.expm1(-exp((math.log(x) - math.log(self.b)) * self.a))
         else:
             return 0.0
 
-- 
2.43.0


From 7934b2b7ef079a07af211af360f0ff36575e2f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 056/203] fix: binomial and negative binomial probabilities
 don't underflow

---
 titus/lib/prob/dist.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/titus/lib/prob/dist.py b/titus/lib/prob/dist.py
index 350ec93..fc52c26 100644
--- a/titus/lib/prob/dist.py
+++ b/titus/lib/prob/dist.py
@@ -1409,6 +1409,16 @@ class TDistribution(object):
             #     counter += 1
             # return p2
 
+def weighCombinations(combinations, p, n, q, m):
+    # combinations * p**n * q**m, in logarithms if the powers underflow
+    powers = pow(p, n) * pow(q, m)
+    if combinations == 0.0 or (p == 0.0 and n > 0) or (q == 0.0 and m > 0):
+        return 0.0
+    elif powers > 1e-280:
+        return combinations * powers
+    else:
+        return exp(math.log(combinations) + (n*math.log(p) if n > 0 else 0.0) + (m*math.log(q) if m > 0 else 0.0))
+
 ################### Binomial
 class BinomialDistribution(object):
     def __init__(self, size, p_success, name, errcodeBase, pos):
@@ -1432,7 +1442,7 @@ class BinomialDistribution(object):
                 nchoosek = 0.0
             else:
                 nchoosek = nChooseK(self.n, x)
-            return nchoosek * pow(self.prob, x) * pow(1.0 - self.prob, self.n - x)
+            return weighCombinations(nchoosek, self.prob, x, 1.0 - self.prob, self.n - x)
 
     def CDF(self, x):
         if math.isnan(x):
@@ -1684,7 +1694,7 @@ class NegativeBinomialDistribution(object):
                 val = 0.0
             else:
                 val = nChooseK(self.n + x - 1.0, x)
-            return val * pow(1.0 - self.prob, x) * pow(self.prob, self.n)
+            return weighCombinations(val, 1.0 - self.prob, x, self.prob, self.n)
         else:
             return 0.0
 
-- 
2.43.0


From 77c13711ae2126a133a71d70f56058c1bd9266f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 057/203] fix: gamma, chi2 and beta quantiles of tiny
 probabilities

---
 titus/lib/prob/dist.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/titus/lib/prob/dist.py b/titus/lib/prob/dist.py
index fc52c26..bb76b66 100644
--- a/titus/lib/prob/dist.py
+++ b/titus/lib/prob/dist.py
@@ -31,7 +31,6 @@ from titus.util import exp
 # import special functions requred to compute distributions
 from titus.lib.spec import logBetaFunction
 from titus.lib.spec import incompleteBetaFunction
-from titus.lib.spec import inverseIncompleteBetaFunction
 from titus.lib.spec import regularizedGammaQ
 from titus.lib.spec import regularizedGammaP
 from titus.lib.spec import nChooseK
@@ -1134,7 +1133,7 @@ class GammaDistribution(object):
                 return 1.0
             else:
                 return 0.0
-        elif (x <= 0.0):
+        elif (x/self.beta <= 0.0):
             return 0.0
         else:
             return regularizedGammaP(self.alpha, x/self.beta)
@@ -1204,7 +1203,7 @@ class BetaDistribution(object):
         elif (p == 0.0):
             return 0.0
         else:
-            return inverseIncompleteBetaFunction(p,self.alpha,self.beta)
+            return bisectQuantile(self.CDF, p, 0.0, 1.0)
 
 ################### Cauchy
 class CauchyDistribution(object):
-- 
2.43.0


From 70b90571034246223fe0efeea0a58668d9b49688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 058/203] fix: quantiles of discrete distributions end for
 probabilities close to one

---
 titus/lib/prob/dist.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/titus/lib/prob/dist.py b/titus/lib/prob/dist.py
index bb76b66..25af5b2 100644
--- a/titus/lib/prob/dist.py
+++ b/titus/lib/prob/dist.py
@@ -1468,7 +1468,7 @@ class BinomialDistribution(object):
             # step through CDFs until we find the right one
             x = 0
             p0 = 0.0
-            while (p0 < p):
+            while (p0 < p) and (x <= self.n):
                 p0 = p0 + self.PDF(x)
                 x += 1
             return x - 1
@@ -1607,7 +1607,7 @@ class HypergeometricDistribution(object):
             # step through CDFs until we find the right one
             x = 0
             p0 = 0.0
-            while (p0 <= p):
+            while (p0 <= p) and (x <= min(self.n_white, self.n_drawn)):
                 p0 = p0 + self.PDF(x)
                 x += 1
             return x - 1
@@ -1748,6 +1748,9 @@ class NegativeBinomialDistribution(object):
                 x = 0.0
                 s = 0.0
                 while (s <= p):
+                    previous = s
                     s = s + self.PDF(x)
                     x += 1
+                    if x > mu and s == previous:   # the rest of the tail is negligible
+                        break
                 return x - 1
-- 
2.43.0


From 94a054e735ba9bb6774835c16681448aaeb6e036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 059/203] fix: prob.dist.gaussianLL neither overflows nor
 underflows when squaring

---
 titus/lib/prob/dist.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/titus/lib/prob/dist.py b/titus/lib/prob/dist.py
index 25af5b2..fba71c5 100644
--- a/titus/lib/prob/dist.py
+++ b/titus/lib/prob/dist.py
@@ -900,8 +900,9 @@ class GaussianDistribution(object):
         elif (self.sigma == 0.0) and (x != self.mu):
             return float("-inf")
         else:
-            term1 = -(x - self.mu)**2/(2.0 * self.sigma**2)
-            term2 = math.log(self.sigma * math.sqrt(2.0 * math.pi))
+            z = (x - self.mu)/self.sigma
+            term1 = -0.5 * z * z
+            term2 = math.log(self.sigma) + math.log(math.sqrt(2.0 * math.pi))
             return term1 - term2
 
     def CDF(self, x):
-- 
2.43.0


From 9998c8705ae24195cb0b78e2afde63d56ea7dcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:23 +0000
Subject: [PATCH 060/203] fix: snapshots write union tags and bytes of cells
 and pools as JSON of their types

---
 titus/genpy.py  |  4 ++--
 titus/pfaast.py | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index e0bb9d1..570e608 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1706,8 +1706,8 @@ class PFAEngine(object):
         Note that you can call ``toJson`` on the ``EngineConfig`` to get a string that can be written to a PFA file.
         """
 
-        newCells = dict((k, AstCell(self.config.cells[k].avroPlaceholder, json.dumps(v.value), v.shared, v.rollback, v.source)) for k, v in list(self.cells.items()))
-        newPools = dict((k, AstPool(self.config.pools[k].avroPlaceholder, dict((kk, json.dumps(vv)) for kk, vv in list(v.value.items())), v.shared, v.rollback, v.source)) for k, v in list(self.pools.items()))
+        newCells = dict((k, AstCell(self.config.cells[k].avroPlaceholder, json.dumps(v.value, default=titus.datatype.bytesToString), v.shared, v.rollback, v.source)) for k, v in list(self.cells.items()))
+        newPools = dict((k, AstPool(self.config.pools[k].avroPlaceholder, dict((kk, json.dumps(vv, default=titus.datatype.bytesToString)) for kk, vv in list(v.value.items())), v.shared, v.rollback, v.source)) for k, v in list(self.pools.items()))
 
         return EngineConfig(
             self.config.name,
diff --git a/titus/pfaast.py b/titus/pfaast.py
index fbb6c45..a68af70 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -1107,6 +1107,17 @@ class CellPoolSource(object):
     JSON = "json"
     AVRO = "avro"
 
+def taggedInit(avroType, value):
+    """Add the type tags that the JSON encoding of unions requires, if they're missing (as in a snapshot of a running engine)."""
+    try:
+        jsonDecoder(avroType, value)
+    except AvroException:
+        try:
+            return jsonEncoder(avroType, value)
+        except AvroException:
+            pass
+    return value
+
 @titus.util.case
 class Cell(Ast):
     """Abstract syntax tree for a ``cell`` definition."""
@@ -1183,7 +1194,7 @@ class Cell(Ast):
         if callable(self.init):
             return json.loads(self.init(self.avroType))
         else:
-            return json.loads(self.init)
+            return taggedInit(self.avroType, json.loads(self.init))
         
     def jsonNode(self, lineNumbers, memo):
         """Convert this abstract syntax tree to Pythonized JSON.
@@ -1281,7 +1292,7 @@ class Pool(Ast):
         if callable(self.init):
             return json.loads(self.init(AvroMap(self.avroType)))
         else:
-            return OrderedDict((k, json.loads(v)) for k, v in list(self.init.items()))
+            return OrderedDict((k, taggedInit(self.avroType, json.loads(v))) for k, v in list(self.init.items()))
 
     def jsonNode(self, lineNumbers, memo):
         """Convert this abstract syntax tree to Pythonized JSON.
-- 
2.43.0


From 96241ccbc16cba57c7c6b84dc813585a75bafc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 061/203] fix: references to generic library functions are
 refused with a semantic error

---
 titus/P.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/titus/P.py b/titus/P.py
index 52004f4..1e679fb 100644
--- a/titus/P.py
+++ b/titus/P.py
@@ -369,7 +369,9 @@ def toType(pat):
 
     elif isinstance(pat, Fcn): return FcnType([toType(x) for x in pat.params()], toType(pat.ret()))
 
-    else: raise Exception
+    else:
+        from titus.signature import IncompatibleTypes
+        raise IncompatibleTypes("pattern {0} is not a type".format(pat))
 
 def fromType(t, memo=None):
     """Convert a type to a pattern.
-- 
2.43.0


From d2985e9075734183524786dcb582bd75b13645ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 062/203] fix: cells, pools and attributes can be updated by
 references to library functions

---
 titus/genpy.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 570e608..004cad1 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -698,9 +698,7 @@ def update(state, scope, obj, path, to, arrayErrCode, mapErrCode, fcnName, pos):
             raise Exception
 
     elif callable(to):
-        callScope = DynamicScope(scope)
-        callScope.let({to.paramNames[0]: obj})
-        return to(state, callScope)
+        return titus.util.callfcn(state, scope, to, [obj])
 
     else:
         return to
-- 
2.43.0


From f4491c266f38aa00796600811e6d4d718bbbe66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 063/203] fix: snapshots leave out the cells and pools of other
 documents sharing the state

---
 titus/genpy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 004cad1..a39903c 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1704,8 +1704,8 @@ class PFAEngine(object):
         Note that you can call ``toJson`` on the ``EngineConfig`` to get a string that can be written to a PFA file.
         """
 
-        newCells = dict((k, AstCell(self.config.cells[k].avroPlaceholder, json.dumps(v.value, default=titus.datatype.bytesToString), v.shared, v.rollback, v.source)) for k, v in list(self.cells.items()))
-        newPools = dict((k, AstPool(self.config.pools[k].avroPlaceholder, dict((kk, json.dumps(vv, default=titus.datatype.bytesToString)) for kk, vv in list(v.value.items())), v.shared, v.rollback, v.source)) for k, v in list(self.pools.items()))
+        newCells = dict((k, AstCell(self.config.cells[k].avroPlaceholder, json.dumps(v.value, default=titus.datatype.bytesToString), v.shared, v.rollback, v.source)) for k, v in list(self.cells.items()) if k in self.config.cells)
+        newPools = dict((k, AstPool(self.config.pools[k].avroPlaceholder, dict((kk, json.dumps(vv, default=titus.datatype.bytesToString)) for kk, vv in list(v.value.items())), v.shared, v.rollback, v.source)) for k, v in list(self.pools.items()) if k in self.config.pools)
 
         return EngineConfig(
             self.config.name,
-- 
2.43.0


From 5afc749cec4055d8b4e718353c10874d9be7597d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:37 +0000
Subject: [PATCH 064/203] fix: options that are not integral numbers are
 refused with PFAInitializationException

---
 titus/options.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/titus/options.py b/titus/options.py
index 29127b2..4b9bef6 100644
--- a/titus/options.py
+++ b/titus/options.py
@@ -36,8 +36,10 @@ class EngineOptions(object):
         def longOpt(name, default):
             out = combinedOptions.get(name, default)
             try:
+                if isinstance(out, float) and out != int(out):
+                    raise ValueError
                 return int(out)
-            except ValueError:
+            except (ValueError, TypeError, OverflowError):
                 raise PFAInitializationException(name + " must be an integral number")
 
         self.timeout = longOpt("timeout", -1)
-- 
2.43.0


From d3bb97cf09d7375c1a843d2fb7e91df54642d88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:13 +0000
Subject: [PATCH 065/203] fix: walking over an engine's syntax tree includes
 the merge section

---
 titus/pfaast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index a68af70..c9fcc18 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -847,6 +847,7 @@ class EngineConfig(Ast):
                titus.util.flatten(x.collect(pf) for x in self.action) + \
                titus.util.flatten(x.collect(pf) for x in self.end) + \
                titus.util.flatten(x.collect(pf) for x in list(self.fcns.values())) + \
+               titus.util.flatten(x.collect(pf) for x in (self.merge or [])) + \
                titus.util.flatten(x.collect(pf) for x in list(self.cells.values())) + \
                titus.util.flatten(x.collect(pf) for x in list(self.pools.values()))
 
@@ -872,7 +873,7 @@ class EngineConfig(Ast):
                                 [x.replace(pf) for x in self.end],
                                 dict((k, v.replace(pf)) for k, v in list(self.fcns.items())),
                                 self.zero,
-                                self.merge,
+                                None if self.merge is None else [x.replace(pf) for x in self.merge],
                                 dict((k, v.replace(pf)) for k, v in list(self.cells.items())),
                                 dict((k, v.replace(pf)) for k, v in list(self.pools.items())),
                                 self.randseed,
-- 
2.43.0


From 0e8bb140c2f787e5702899e7a77d1bb6274b1683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:13 +0000
Subject: [PATCH 066/203] fix: the call graph includes calls in the object of
 an attr, the init of a pool-to and the name of a call

---
 titus/pfaast.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index c9fcc18..ed48a15 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -1849,7 +1849,7 @@ class CallUserFcn(Expression):
         scope = symbolTable.newScope(True, True)
         argResults = [x.walk(task, scope, functionTable, engineOptions, version) for x in self.args]
 
-        calls = set("u." + x for x in fcnNames)
+        calls = nameContext.calls.union(set("u." + x for x in fcnNames))
         argTypes = []
         for ctx, res in argResults:
             if isinstance(ctx, ExpressionContext):
@@ -3271,7 +3271,7 @@ class AttrGet(Expression, HasPath):
             raise PFASemanticException("expression is not an array, map, or record", self.pos)
 
         retType, calls, pathResult = self.walkPath(exprContext.retType, task, symbolTable, functionTable, engineOptions, version)
-        context = self.Context(retType, calls.union(set([self.desc])), exprResult, exprContext.retType, pathResult, self.pos)
+        context = self.Context(retType, calls.union(exprContext.calls).union(set([self.desc])), exprResult, exprContext.retType, pathResult, self.pos)
         return context, task(context, engineOptions)
 
     def jsonNode(self, lineNumbers, memo):
@@ -3389,22 +3389,22 @@ class AttrTo(Expression, HasPath):
         if isinstance(toContext, ExpressionContext):
             if not setType.accepts(toContext.retType):
                 raise PFASemanticException("attr-and-path has type {0} but attempting to assign with type {1}".format(ts(setType), ts(toContext.retType)), self.pos)
-            context = self.Context(exprContext.retType, calls.union(toContext.calls).union(set([self.desc])), exprResult, exprContext.retType, setType, pathResult, toResult, toContext.retType, self.pos)
+            context = self.Context(exprContext.retType, calls.union(exprContext.calls).union(toContext.calls).union(set([self.desc])), exprResult, exprContext.retType, setType, pathResult, toResult, toContext.retType, self.pos)
 
         elif isinstance(toContext, FcnDef.Context):
             if not FcnType([setType], setType).accepts(toContext.fcnType):
                 raise PFASemanticException("attr-and-path has type {0} but attempting to assign with a function of type {1}".format(ts(setType), ts(toContext.fcnType)), self.pos)
-            context = self.Context(exprContext.retType, calls.union(toContext.calls).union(set([self.desc])), exprResult, exprContext.retType, setType, pathResult, toResult, toContext.fcnType, self.pos)
+            context = self.Context(exprContext.retType, calls.union(exprContext.calls).union(toContext.calls).union(set([self.desc])), exprResult, exprContext.retType, setType, pathResult, toResult, toContext.fcnType, self.pos)
 
         elif isinstance(toContext, FcnRef.Context):
             if not FcnType([setType], setType).accepts(toContext.fcnType):
                 raise PFASemanticException("attr-and-path has type {0} but attempting to assign with a function of type {1}".format(ts(setType), ts(toContext.fcnType)), self.pos)
-            context = self.Context(exprContext.retType, calls.union(toContext.calls).union(set([self.desc])), exprResult, exprContext.retType, setType, pathResult, task(toContext, engineOptions), toContext.fcnType, self.pos)   # Two-parameter task?  task(toContext, engineOptions, toContext.fcnType)
+            context = self.Context(exprContext.retType, calls.union(exprContext.calls).union(toContext.calls).union(set([self.desc])), exprResult, exprContext.retType, setType, pathResult, task(toContext, engineOptions), toContext.fcnType, self.pos)   # Two-parameter task?  task(toContext, engineOptions, toContext.fcnType)
 
         elif isinstance(toContext, FcnRefFill.Context):
             if not FcnType([setType], setType).accepts(toContext.fcnType):
                 raise PFASemanticException("attr-and-path has type {0} but attempting to assign with a function of type {1}".format(ts(setType), ts(toContext.fcnType)), self.pos)
-            context = self.Context(exprContext.retType, calls.union(toContext.calls).union(set([self.desc])), exprResult, exprContext.retType, setType, pathResult, task(toContext, engineOptions), toContext.fcnType, self.pos)   # Two-parameter task?  task(toContext, engineOptions, toContext.fcnType)
+            context = self.Context(exprContext.retType, calls.union(exprContext.calls).union(toContext.calls).union(set([self.desc])), exprResult, exprContext.retType, setType, pathResult, task(toContext, engineOptions), toContext.fcnType, self.pos)   # Two-parameter task?  task(toContext, engineOptions, toContext.fcnType)
 
         return context, task(context, engineOptions)
         
@@ -3867,22 +3867,22 @@ class PoolTo(Expression, HasPath):
         if isinstance(toContext, ExpressionContext):
             if not setType.accepts(toContext.retType):
                 raise PFASemanticException("pool-and-path has type {0} but attempting to assign with type {1}".format(ts(setType), ts(toContext.retType)), self.pos)
-            context = self.Context(poolType, calls.union(toContext.calls).union(set([self.desc])), self.pool, poolType, setType, pathResult, toResult, toContext.retType, initResult, shared, self.pos)
+            context = self.Context(poolType, calls.union(toContext.calls).union(initContext.calls).union(set([self.desc])), self.pool, poolType, setType, pathResult, toResult, toContext.retType, initResult, shared, self.pos)
 
         elif isinstance(toContext, FcnDef.Context):
             if not FcnType([setType], setType).accepts(toContext.fcnType):
                 raise PFASemanticException("pool-and-path has type {0} but attempting to assign with a function of type {1}".format(ts(setType), ts(toContext.fcnType)), self.pos)
-            context = self.Context(poolType, calls.union(toContext.calls).union(set([self.desc])), self.pool, poolType, setType, pathResult, toResult, toContext.fcnType, initResult, shared, self.pos)
+            context = self.Context(poolType, calls.union(toContext.calls).union(initContext.calls).union(set([self.desc])), self.pool, poolType, setType, pathResult, toResult, toContext.fcnType, initResult, shared, self.pos)
 
         elif isinstance(toContext, FcnRef.Context):
             if not FcnType([setType], setType).accepts(toContext.fcnType):
                 raise PFASemanticException("pool-and-path has type {0} but attempting to assign with a function of type {1}".format(ts(setType), ts(toContext.fcnType)), self.pos)
-            context = self.Context(poolType, calls.union(toContext.calls).union(set([self.desc])), self.pool, poolType, setType, pathResult, task(toContext, engineOptions), toContext.fcnType, initResult, shared, self.pos)  # Two-parameter task?  task(toContext, engineOptions, toContext.fcnType)
+            context = self.Context(poolType, calls.union(toContext.calls).union(initContext.calls).union(set([self.desc])), self.pool, poolType, setType, pathResult, task(toContext, engineOptions), toContext.fcnType, initResult, shared, self.pos)  # Two-parameter task?  task(toContext, engineOptions, toContext.fcnType)
 
         elif isinstance(toContext, FcnRefFill.Context):
             if not FcnType([setType], setType).accepts(toContext.fcnType):
                 raise PFASemanticException("pool-and-path has type {0} but attempting to assign with a function of type {1}".format(ts(setType), ts(toContext.fcnType)), self.pos)
-            context = self.Context(poolType, calls.union(toContext.calls).union(set([self.desc])), self.pool, poolType, setType, pathResult, task(toContext, engineOptions), toContext.fcnType, initResult, shared, self.pos)  # Two-parameter task?  task(toContext, engineOptions, toContext.fcnType)
+            context = self.Context(poolType, calls.union(toContext.calls).union(initContext.calls).union(set([self.desc])), self.pool, poolType, setType, pathResult, task(toContext, engineOptions), toContext.fcnType, initResult, shared, self.pos)  # Two-parameter task?  task(toContext, engineOptions, toContext.fcnType)
 
         return context, task(context, engineOptions)
 
-- 
2.43.0


From 615d981952274751c25609b15297a005d49b25ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:13 +0000
Subject: [PATCH 067/203] fix: deadlock check follows every call that an update
 function can make

---
 titus/genpy.py  | 59 +++++++++++++++++++++----------------------------
 titus/pfaast.py | 20 ++++++++---------
 2 files changed, 35 insertions(+), 44 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index a39903c..ebc0fb8 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -109,6 +109,9 @@ class GeneratePython(titus.pfaast.Task):
         else:
             raise NotImplementedError("unrecognized style " + style)
 
+    def __init__(self):
+        self.updaters = []
+
     def commandsMap(self, codes, indent):
         """Concatenate commands for a map-type engine."""
 
@@ -192,7 +195,8 @@ class GeneratePython(titus.pfaast.Task):
         self.emit = emit
         self.instance = instance
         self.rand = rand
-        self.callGraph = """ + repr(callGraph) + "\n"]
+        self.callGraph = """ + repr(callGraph) + """
+        self.updaters = """ + repr(self.updaters) + "\n"]
 
             if context.method == Method.FOLD:
                 out.append("        self.tally = zero\n")
@@ -388,12 +392,16 @@ class GeneratePython(titus.pfaast.Task):
             return "get(self.cells[{0}].value, [{1}], 2004, 2005, \"cell\", {2})".format(repr(context.cell), self.reprPath(context.path), repr(context.pos))
 
         elif isinstance(context, CellTo.Context):
+            if isinstance(context.toType, titus.datatype.FcnType):
+                self.updaters.append((CellTo.desc, context.toCalls))
             return "self.cells[{0}].update(state, scope, [{1}], {2}, 2006, 2007, \"cell-to\", {3})".format(repr(context.cell), self.reprPath(context.path), context.to, repr(context.pos))
 
         elif isinstance(context, PoolGet.Context):
             return "get(self.pools[{0}].value, [{1}], 2008, 2009, \"pool\", {2})".format(repr(context.pool), self.reprPath(context.path), repr(context.pos))
 
         elif isinstance(context, PoolTo.Context):
+            if isinstance(context.toType, titus.datatype.FcnType):
+                self.updaters.append((PoolTo.desc, context.toCalls))
             return "self.pools[{0}].update(state, scope, [{1}], {2}, {3}, 2010, 2011, \"pool-to\", {4})".format(repr(context.pool), self.reprPath(context.path), context.to, context.init, repr(context.pos))
 
         elif isinstance(context, PoolDel.Context):
@@ -1394,26 +1402,12 @@ def checkForDeadlock(engineConfig, engine):
                 raise PFAInitializationException("{0} references function \"{1}\", which has side-effects".format(slotTo.desc, slotTo.to.name))
     engineConfig.collect(WithFcnRef())
 
-    class CellToOrPoolTo(object):
-        def isDefinedAt(self, ast):
-            return isinstance(ast, (CellTo, PoolTo))
-        def __call__(self, slotTo):
-            raise PFAInitializationException("inline function in cell-to or pool-to invokes a " + slotTo.desc)
-
-    class SideEffectFunction(object):
-        def isDefinedAt(self, ast):
-            return isinstance(ast, Call) and engine.hasSideEffects(ast.name)
-        def __call__(self, call):
-            raise PFAInitializationException("inline function in cell-to or pool-to invokes function \"{0}\", which has side-effects".format(call.name))
-
-    class WithFcnDef(object):
-        def isDefinedAt(self, ast):
-            return isinstance(ast, (CellTo, PoolTo)) and isinstance(ast.to, FcnDef)
-        def __call__(self, slotTo):
-            for x in slotTo.to.body:
-                x.collect(CellToOrPoolTo())
-                x.collect(SideEffectFunction())
-    engineConfig.collect(WithFcnDef())
+    for desc, calls in engine.updaters:
+        if not calls.isdisjoint([CellTo.desc, PoolTo.desc, PoolDel.desc]):
+            raise PFAInitializationException("inline function in " + desc + " invokes a cell-to, pool-to, or pool-del")
+        for name in sorted(calls):
+            if engine.hasSideEffects(name):
+                raise PFAInitializationException("inline function in {0} invokes function \"{1}\", which has side-effects".format(desc, name))
 
 def initialValue(what, avroType, value):
     """Decode the initial value of a cell, a pool, or the tally of a fold engine."""
@@ -1737,19 +1731,16 @@ class PFAEngine(object):
         :return: set of functions that call ``fcnName``
         """
 
-        if exclude is None:
-            exclude = set()
-        if fcnName in exclude:
-            return set()
-        else:
-            if fcnName in self.callGraph:
-                newExclude = exclude.union(set([fcnName]))
-                nextLevel = set([])
-                for f in self.callGraph[fcnName]:
-                    nextLevel = nextLevel.union(self.calledBy(f, newExclude))
-                return self.callGraph[fcnName].union(nextLevel)
-            else:
-                return set()
+        out = set()
+        expanded = set() if exclude is None else set(exclude)
+        pending = [fcnName]
+        while len(pending) > 0:
+            f = pending.pop()
+            if f not in expanded and f in self.callGraph:
+                expanded.add(f)
+                out.update(self.callGraph[f])
+                pending.extend(self.callGraph[f])
+        return out
 
     def callDepth(self, fcnName, exclude=None, startingDepth=0):
         """Determine call depth of a function by traversing the ``callGraph``.
diff --git a/titus/pfaast.py b/titus/pfaast.py
index ed48a15..4c02b62 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -3619,22 +3619,22 @@ class CellTo(Expression, HasPath):
         if isinstance(toContext, ExpressionContext):
             if not setType.accepts(toContext.retType):
                 raise PFASemanticException("cell-and-path has type {0} but attempting to assign with type {1}".format(ts(setType), ts(toContext.retType)), self.pos)
-            context = self.Context(cellType, calls.union(toContext.calls).union(set([self.desc])), self.cell, cellType, setType, pathResult, toResult, toContext.retType, shared, self.pos)
+            context = self.Context(cellType, calls.union(toContext.calls).union(set([self.desc])), self.cell, cellType, setType, pathResult, toResult, toContext.retType, shared, toContext.calls, self.pos)
 
         elif isinstance(toContext, FcnDef.Context):
             if not FcnType([setType], setType).accepts(toContext.fcnType):
                 raise PFASemanticException("cell-and-path has type {0} but attempting to assign with a function of type {1}".format(ts(setType), ts(toContext.fcnType)), self.pos)
-            context = self.Context(cellType, calls.union(toContext.calls).union(set([self.desc])), self.cell, cellType, setType, pathResult, toResult, toContext.fcnType, shared, self.pos)
+            context = self.Context(cellType, calls.union(toContext.calls).union(set([self.desc])), self.cell, cellType, setType, pathResult, toResult, toContext.fcnType, shared, toContext.calls, self.pos)
 
         elif isinstance(toContext, FcnRef.Context):
             if not FcnType([setType], setType).accepts(toContext.fcnType):
                 raise PFASemanticException("cell-and-path has type {0} but attempting to assign with a function of type {1}".format(ts(setType), ts(toContext.fcnType)), self.pos)
-            context = self.Context(cellType, calls.union(toContext.calls).union(set([self.desc])), self.cell, cellType, setType, pathResult, task(toContext, engineOptions), toContext.fcnType, shared, self.pos)  # Two-parameter task?  task(toContext, engineOptions, toContext.fcnType)
+            context = self.Context(cellType, calls.union(toContext.calls).union(set([self.desc])), self.cell, cellType, setType, pathResult, task(toContext, engineOptions), toContext.fcnType, shared, toContext.calls, self.pos)  # Two-parameter task?  task(toContext, engineOptions, toContext.fcnType)
 
         elif isinstance(toContext, FcnRefFill.Context):
             if not FcnType([setType], setType).accepts(toContext.fcnType):
                 raise PFASemanticException("cell-and-path has type {0} but attempting to assign with a function of type {1}".format(ts(setType), ts(toContext.fcnType)), self.pos)
-            context = self.Context(cellType, calls.union(toContext.calls).union(set([self.desc])), self.cell, cellType, setType, pathResult, task(toContext, engineOptions), toContext.fcnType, shared, self.pos)  # Two-parameter task?  task(toContext, engineOptions, toContext.fcnType)
+            context = self.Context(cellType, calls.union(toContext.calls).union(set([self.desc])), self.cell, cellType, setType, pathResult, task(toContext, engineOptions), toContext.fcnType, shared, toContext.calls, self.pos)  # Two-parameter task?  task(toContext, engineOptions, toContext.fcnType)
 
         return context, task(context, engineOptions)
 
@@ -3659,7 +3659,7 @@ class CellTo(Expression, HasPath):
 
     @titus.util.case
     class Context(ExpressionContext):
-        def __init__(self, retType, calls, cell, cellType, setType, path, to, toType, shared, pos): pass
+        def __init__(self, retType, calls, cell, cellType, setType, path, to, toType, shared, toCalls, pos): pass
 
 @titus.util.case
 class PoolGet(Expression, HasPath):
@@ -3867,22 +3867,22 @@ class PoolTo(Expression, HasPath):
         if isinstance(toContext, ExpressionContext):
             if not setType.accepts(toContext.retType):
                 raise PFASemanticException("pool-and-path has type {0} but attempting to assign with type {1}".format(ts(setType), ts(toContext.retType)), self.pos)
-            context = self.Context(poolType, calls.union(toContext.calls).union(initContext.calls).union(set([self.desc])), self.pool, poolType, setType, pathResult, toResult, toContext.retType, initResult, shared, self.pos)
+            context = self.Context(poolType, calls.union(toContext.calls).union(initContext.calls).union(set([self.desc])), self.pool, poolType, setType, pathResult, toResult, toContext.retType, initResult, shared, toContext.calls, self.pos)
 
         elif isinstance(toContext, FcnDef.Context):
             if not FcnType([setType], setType).accepts(toContext.fcnType):
                 raise PFASemanticException("pool-and-path has type {0} but attempting to assign with a function of type {1}".format(ts(setType), ts(toContext.fcnType)), self.pos)
-            context = self.Context(poolType, calls.union(toContext.calls).union(initContext.calls).union(set([self.desc])), self.pool, poolType, setType, pathResult, toResult, toContext.fcnType, initResult, shared, self.pos)
+            context = self.Context(poolType, calls.union(toContext.calls).union(initContext.calls).union(set([self.desc])), self.pool, poolType, setType, pathResult, toResult, toContext.fcnType, initResult, shared, toContext.calls, self.pos)
 
         elif isinstance(toContext, FcnRef.Context):
             if not FcnType([setType], setType).accepts(toContext.fcnType):
                 raise PFASemanticException("pool-and-path has type {0} but attempting to assign with a function of type {1}".format(ts(setType), ts(toContext.fcnType)), self.pos)
-            context = self.Context(poolType, calls.union(toContext.calls).union(initContext.calls).union(set([self.desc])), self.pool, poolType, setType, pathResult, task(toContext, engineOptions), toContext.fcnType, initResult, shared, self.pos)  # Two-parameter task?  task(toContext, engineOptions, toContext.fcnType)
+            context = self.Context(poolType, calls.union(toContext.calls).union(initContext.calls).union(set([self.desc])), self.pool, poolType, setType, pathResult, task(toContext, engineOptions), toContext.fcnType, initResult, shared, toContext.calls, self.pos)  # Two-parameter task?  task(toContext, engineOptions, toContext.fcnType)
 
         elif isinstance(toContext, FcnRefFill.Context):
             if not FcnType([setType], setType).accepts(toContext.fcnType):
                 raise PFASemanticException("pool-and-path has type {0} but attempting to assign with a function of type {1}".format(ts(setType), ts(toContext.fcnType)), self.pos)
-            context = self.Context(poolType, calls.union(toContext.calls).union(initContext.calls).union(set([self.desc])), self.pool, poolType, setType, pathResult, task(toContext, engineOptions), toContext.fcnType, initResult, shared, self.pos)  # Two-parameter task?  task(toContext, engineOptions, toContext.fcnType)
+            context = self.Context(poolType, calls.union(toContext.calls).union(initContext.calls).union(set([self.desc])), self.pool, poolType, setType, pathResult, task(toContext, engineOptions), toContext.fcnType, initResult, shared, toContext.calls, self.pos)  # Two-parameter task?  task(toContext, engineOptions, toContext.fcnType)
 
         return context, task(context, engineOptions)
 
@@ -3908,7 +3908,7 @@ class PoolTo(Expression, HasPath):
 
     @titus.util.case
     class Context(ExpressionContext):
-        def __init__(self, retType, calls, pool, poolType, setType, path, to, toType, init, shared, pos): pass
+        def __init__(self, retType, calls, pool, poolType, setType, path, to, toType, init, shared, toCalls, pos): pass
 
 @titus.util.case
 class PoolDel(Expression):
-- 
2.43.0


From 4b1a078a66341956c823984cfa3756a6df461dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:01 +0000
Subject: [PATCH 068/203] fix: words such as nan and inf are strings in YAML
 documents

---
 titus/reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/titus/reader.py b/titus/reader.py
index 7058047..6af592b 100644
--- a/titus/reader.py
+++ b/titus/reader.py
@@ -142,6 +142,8 @@ def yamlToAst(yamlInput):
                         try:
                             return int(event.value)
                         except ValueError:
+                            if not any(x.isdigit() for x in event.value):
+                                return event.value      # such as nan and inf, which Python takes for numbers
                             try:
                                 return float(event.value)
                             except ValueError:
-- 
2.43.0


From e5f633fd441a70965d5426b9411c48c277017a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:01 +0000
Subject: [PATCH 069/203] fix: null defaults of record fields are kept when a
 type is written

---
 titus/datatype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index e17d1b9..91806bf 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -622,7 +622,7 @@ class AvroField(object):
     def jsonNode(self, memo):
         """Get the field as a Python-encoded JSON node."""
         out = {"name": self.name, "type": self.avroType.jsonNode(memo)}
-        if self.default is not None:
+        if self.schema.has_default:
             out["default"] = self.default
         if self.order is not None:
             out["order"] = self.order
-- 
2.43.0


From 9fa5326da4f3b47b12f0e69bca1c0328f16f059c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:59 +0000
Subject: [PATCH 070/203] fix: only snapshots may leave out the union tags of
 initial values

---
 titus/genpy.py  |  5 +++--
 titus/pfaast.py | 23 ++++++++++++++---------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index ebc0fb8..f7cf5b4 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -42,6 +42,7 @@ import titus.version
 
 from titus.pfaast import EngineConfig
 from titus.pfaast import Cell as AstCell
+from titus.pfaast import SnapshotInit
 from titus.pfaast import Pool as AstPool
 from titus.pfaast import FcnDef
 from titus.pfaast import FcnRef
@@ -1698,8 +1699,8 @@ class PFAEngine(object):
         Note that you can call ``toJson`` on the ``EngineConfig`` to get a string that can be written to a PFA file.
         """
 
-        newCells = dict((k, AstCell(self.config.cells[k].avroPlaceholder, json.dumps(v.value, default=titus.datatype.bytesToString), v.shared, v.rollback, v.source)) for k, v in list(self.cells.items()) if k in self.config.cells)
-        newPools = dict((k, AstPool(self.config.pools[k].avroPlaceholder, dict((kk, json.dumps(vv, default=titus.datatype.bytesToString)) for kk, vv in list(v.value.items())), v.shared, v.rollback, v.source)) for k, v in list(self.pools.items()) if k in self.config.pools)
+        newCells = dict((k, AstCell(self.config.cells[k].avroPlaceholder, SnapshotInit(json.dumps(v.value, default=titus.datatype.bytesToString)), v.shared, v.rollback, v.source)) for k, v in list(self.cells.items()) if k in self.config.cells)
+        newPools = dict((k, AstPool(self.config.pools[k].avroPlaceholder, dict((kk, SnapshotInit(json.dumps(vv, default=titus.datatype.bytesToString))) for kk, vv in list(v.value.items())), v.shared, v.rollback, v.source)) for k, v in list(self.pools.items()) if k in self.config.pools)
 
         return EngineConfig(
             self.config.name,
diff --git a/titus/pfaast.py b/titus/pfaast.py
index 4c02b62..f197dd9 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -1108,15 +1108,20 @@ class CellPoolSource(object):
     JSON = "json"
     AVRO = "avro"
 
-def taggedInit(avroType, value):
-    """Add the type tags that the JSON encoding of unions requires, if they're missing (as in a snapshot of a running engine)."""
-    try:
-        jsonDecoder(avroType, value)
-    except AvroException:
+class SnapshotInit(str):
+    """Initial value of a cell or pool item that was taken from a running engine: JSON that might lack the type tags of unions."""
+
+def initToJsonNode(avroType, init):
+    """Initial value of a cell or pool item as Pythonized JSON."""
+    value = json.loads(init)
+    if isinstance(init, SnapshotInit):
         try:
-            return jsonEncoder(avroType, value)
+            jsonDecoder(avroType, value)
         except AvroException:
-            pass
+            try:
+                return jsonEncoder(avroType, value)
+            except AvroException:
+                pass
     return value
 
 @titus.util.case
@@ -1195,7 +1200,7 @@ class Cell(Ast):
         if callable(self.init):
             return json.loads(self.init(self.avroType))
         else:
-            return taggedInit(self.avroType, json.loads(self.init))
+            return initToJsonNode(self.avroType, self.init)
         
     def jsonNode(self, lineNumbers, memo):
         """Convert this abstract syntax tree to Pythonized JSON.
@@ -1293,7 +1298,7 @@ class Pool(Ast):
         if callable(self.init):
             return json.loads(self.init(AvroMap(self.avroType)))
         else:
-            return OrderedDict((k, taggedInit(self.avroType, json.loads(v))) for k, v in list(self.init.items()))
+            return OrderedDict((k, initToJsonNode(self.avroType, v)) for k, v in list(self.init.items()))
 
     def jsonNode(self, lineNumbers, memo):
         """Convert this abstract syntax tree to Pythonized JSON.
-- 
2.43.0


From 5797a224dc9a5aec29e14a168bdb28e52e72e6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:29 +0000
Subject: [PATCH 071/203] fix: anchors and aliases of YAML documents are
 followed

---
 titus/reader.py | 130 ++++++++++++++++++++++++++----------------------
 1 file changed, 70 insertions(+), 60 deletions(-)

diff --git a/titus/reader.py b/titus/reader.py
index 6af592b..b8e6764 100644
--- a/titus/reader.py
+++ b/titus/reader.py
@@ -124,71 +124,81 @@ def yamlToAst(yamlInput):
     """
     import yaml
 
+    anchors = {}
+
     def read(parser):
-        try:
-            while True:
-                event = next(parser)
-        
-                if isinstance(event, yaml.ScalarEvent):
-                    if not event.implicit[0]:
+        event = next(parser)
+        while isinstance(event, (yaml.StreamStartEvent, yaml.DocumentStartEvent)):
+            event = next(parser)
+
+        if isinstance(event, yaml.AliasEvent):
+            if event.anchor not in anchors:
+                raise PFASyntaxException("malformed YAML", "line {0}".format(event.end_mark.line))
+            return anchors[event.anchor]
+
+        out = convert(event, parser)
+        if getattr(event, "anchor", None) is not None:
+            anchors[event.anchor] = out
+        return out
+
+    def convert(event, parser):
+        if isinstance(event, yaml.ScalarEvent):
+            if not event.implicit[0]:
+                return event.value
+            elif event.value in ("yes", "Yes", "YES", "true", "True", "TRUE", "on", "On", "ON"):
+                return True
+            elif event.value in ("no", "No", "NO", "false", "False", "FALSE", "off", "Off", "OFF"):
+                return False
+            elif event.value in ("null", "Null", "NULL"):
+                return None
+            else:
+                try:
+                    return int(event.value)
+                except ValueError:
+                    if not any(x.isdigit() for x in event.value):
+                        return event.value      # such as nan and inf, which Python takes for numbers
+                    try:
+                        return float(event.value)
+                    except ValueError:
                         return event.value
-                    elif event.value in ("yes", "Yes", "YES", "true", "True", "TRUE", "on", "On", "ON"):
-                        return True
-                    elif event.value in ("no", "No", "NO", "false", "False", "FALSE", "off", "Off", "OFF"):
-                        return False
-                    elif event.value in ("null", "Null", "NULL"):
-                        return None
+
+        elif isinstance(event, yaml.SequenceStartEvent):
+            out = []
+            while True:
+                item = read(parser)
+                if isinstance(item, yaml.SequenceEndEvent):
+                    return out
+                elif isinstance(item, yaml.events.Event):
+                    raise PFASyntaxException("malformed YAML", "line {0}".format(event.end_mark.line))
+                else:
+                    out.append(item)
+
+        elif isinstance(event, yaml.MappingStartEvent):
+            out = {}
+            while True:
+                startLine = event.start_mark.line
+                key = read(parser)
+                if isinstance(key, yaml.MappingEndEvent):
+                    endLine = key.end_mark.line
+                    if startLine == endLine:
+                        out["@"] = "YAML line {0}".format(startLine)
                     else:
-                        try:
-                            return int(event.value)
-                        except ValueError:
-                            if not any(x.isdigit() for x in event.value):
-                                return event.value      # such as nan and inf, which Python takes for numbers
-                            try:
-                                return float(event.value)
-                            except ValueError:
-                                return event.value
-
-                elif isinstance(event, yaml.SequenceStartEvent):
-                    out = []
-                    while True:
-                        item = read(parser)
-                        if isinstance(item, yaml.SequenceEndEvent):
-                            return out
-                        elif isinstance(item, yaml.events.Event):
-                            raise PFASyntaxException("malformed YAML", "line {0}".format(event.end_mark.line))
-                        else:
-                            out.append(item)
-
-                elif isinstance(event, yaml.MappingStartEvent):
-                    out = {}
-                    while True:
-                        startLine = event.start_mark.line
-                        key = read(parser)
-                        if isinstance(key, yaml.MappingEndEvent):
-                            endLine = key.end_mark.line
-                            if startLine == endLine:
-                                out["@"] = "YAML line {0}".format(startLine)
-                            else:
-                                out["@"] = "YAML lines {0}-{1}".format(startLine, endLine)
-
-                            return out
-
-                        elif isinstance(key, yaml.events.Event):
-                            raise PFASyntaxException("malformed YAML", "line {0}".format(event.end_mark.line))
-                        elif not isinstance(key, str):
-                            raise PFASyntaxException("YAML keys must be strings, not {0}".format(key), "line {0}".format(event.end_mark.line))
-
-                        value = read(parser)
-                        if isinstance(value, yaml.events.Event):
-                            raise PFASyntaxException("malformed YAML", "line {0}".format(event.end_mark.line))
-                        
-                        out[key] = value
+                        out["@"] = "YAML lines {0}-{1}".format(startLine, endLine)
+
+                    return out
 
-                elif isinstance(event, (yaml.SequenceEndEvent, yaml.MappingEndEvent, yaml.DocumentEndEvent, yaml.StreamEndEvent)):
-                    return event
+                elif isinstance(key, yaml.events.Event):
+                    raise PFASyntaxException("malformed YAML", "line {0}".format(event.end_mark.line))
+                elif not isinstance(key, str):
+                    raise PFASyntaxException("YAML keys must be strings, not {0}".format(key), "line {0}".format(event.end_mark.line))
+
+                value = read(parser)
+                if isinstance(value, yaml.events.Event):
+                    raise PFASyntaxException("malformed YAML", "line {0}".format(event.end_mark.line))
+                        
+                out[key] = value
 
-        except StopIteration:
+        elif isinstance(event, (yaml.SequenceEndEvent, yaml.MappingEndEvent, yaml.DocumentEndEvent, yaml.StreamEndEvent)):
             return event
 
     obj = read(yaml.parse(yamlInput, Loader=yaml.SafeLoader))
-- 
2.43.0


From 4c9265d7c637b92079b4bde57e67a58e8c35e2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:40 +0000
Subject: [PATCH 072/203] fix: histogram values just below the upper edge go in
 the last bin

---
 titus/lib/stat/sample.py | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/titus/lib/stat/sample.py b/titus/lib/stat/sample.py
index ad73f7a..b23467b 100644
--- a/titus/lib/stat/sample.py
+++ b/titus/lib/stat/sample.py
@@ -434,6 +434,12 @@ class ForecastHoltWinters(LibFcn):
 
 provide(ForecastHoltWinters())
 
+def binIndex(x, low, high, numbins):
+    """Index of the bin that contains x, for low <= x < high, also when x rounds to the upper edge or the range exceeds the largest double."""
+    if math.isinf(high - low):
+        x, low, high = x / 2.0, low / 2.0, high / 2.0
+    return min(int(math.floor((x - low) / (high - low) * numbins)), numbins - 1)
+
 class FillHistogram(LibFcn):
     name = prefix + "fillHistogram"
     sig = Sigs([Sig([{"x": P.Double()}, {"w": P.Double()}, {"histogram": P.WildRecord("A", {"numbins": P.Int(), "low": P.Double(), "high": P.Double(), "values": P.Array(P.Double())})}], P.Wildcard("A")),
@@ -507,18 +513,7 @@ class FillHistogram(LibFcn):
                 underflow, overflow, nanflow, infflow = False, False, False, False
 
             if not underflow and not overflow and not nanflow and not infflow:
-                try:
-                    indexFloat = math.floor((x - low) / (high - low) * numbins)
-                except ZeroDivisionError:
-                    index = 0
-                else:
-                    if math.isinf(indexFloat):
-                        if indexFloat > 0:
-                            index = INT_MAX_VALUE
-                        else:
-                            index = INT_MIN_VALUE
-                    else:
-                        index = int(indexFloat)
+                index = binIndex(x, low, high, numbins)
                 newValues = list(values)
                 newValues[index] = newValues[index] + w
             else:
@@ -673,14 +668,8 @@ class FillHistogram2d(LibFcn):
             underunderflow, undermidflow, underoverflow, midunderflow, midoverflow, overunderflow, overmidflow, overoverflow, nanflow, infflow = False, False, False, False, False, False, False, False, False, False
 
         if not underunderflow and not undermidflow and not underoverflow and not midunderflow and not midoverflow and not overunderflow and not overmidflow and not overoverflow and not nanflow and not infflow:
-            try:
-                xindex = int(math.floor((x - xlow) / (xhigh - xlow) * xnumbins))
-            except ZeroDivisionError:
-                xindex = 0
-            try:
-                yindex = int(math.floor((y - ylow) / (yhigh - ylow) * ynumbins))
-            except ZeroDivisionError:
-                yindex = 0
+            xindex = binIndex(x, xlow, xhigh, xnumbins)
+            yindex = binIndex(y, ylow, yhigh, ynumbins)
             newValues = [list(x) for x in values]
             newValues[xindex][yindex] = newValues[xindex][yindex] + w
         else:
-- 
2.43.0


From 82b009a4677942f2a015b9dba2bf8d9026d1dde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:40 +0000
Subject: [PATCH 073/203] fix: the first value of an empty growing histogram
 goes in its own bin

---
 titus/lib/stat/sample.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/titus/lib/stat/sample.py b/titus/lib/stat/sample.py
index b23467b..f5ccd3b 100644
--- a/titus/lib/stat/sample.py
+++ b/titus/lib/stat/sample.py
@@ -539,11 +539,7 @@ class FillHistogram(LibFcn):
                 underflow, overflow, nanflow, infflow = False, False, False, False
                 
             if not underflow and not overflow and not nanflow and not infflow:
-                currentHigh = low + binsize * len(values)
-                try:
-                    index = int(math.floor((x - low) / (currentHigh - low) * len(values)))
-                except ZeroDivisionError:
-                    index = 0
+                index = int(math.floor((x - low) / binsize))
                 if index < len(values):
                     newValues = list(values)
                     newValues[index] = newValues[index] + w
-- 
2.43.0


From acaf97e563a1032ccfe24d6e92b0fdbbd31aaf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:40 +0000
Subject: [PATCH 074/203] fix: stat.test.kolmogorov compares the distributions
 only between distinct values

---
 titus/lib/stat/pfatest.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/titus/lib/stat/pfatest.py b/titus/lib/stat/pfatest.py
index c96a257..dcaf65c 100644
--- a/titus/lib/stat/pfatest.py
+++ b/titus/lib/stat/pfatest.py
@@ -59,14 +59,18 @@ class KSTwoSample(LibFcn):
                 d1 = x[j1]
                 d2 = y[j2]
                 if d1 <= d2:
-                    j1 += 1
+                    while j1 < n1 and x[j1] == d1:
+                        j1 += 1
                     fn1 = float(j1)/n1
                 if d2 <= d1:
-                    j2 += 1
+                    while j2 < n2 and y[j2] == d2:
+                        j2 += 1
                     fn2 = float(j2)/n2
                 dt = abs(fn2 - fn1)
                 if dt > d:
                     d = dt
+            if d == 0.0:
+                return 1.0
             en = math.sqrt((n1 * n2)/float(n1 + n2))
             stat = (en + 0.12 + 0.11/en)*d
             return 1.0 - kolomogorov_cdf(stat)
-- 
2.43.0


From e099264242f41a5644c63505bd43ba36e5bed9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:40 +0000
Subject: [PATCH 075/203] fix: a singular covariance gives no Mahalanobis
 distance instead of an internal error

---
 titus/lib/stat/pfatest.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/titus/lib/stat/pfatest.py b/titus/lib/stat/pfatest.py
index dcaf65c..4f24063 100644
--- a/titus/lib/stat/pfatest.py
+++ b/titus/lib/stat/pfatest.py
@@ -170,7 +170,10 @@ class Mahalanobis(LibFcn):
                         C[i,j] = float(covariance[k1][k2])
             except:
                 raise PFARuntimeException("misaligned covariance", self.errcodeBase + 2, self.name, pos)
-        resultSquared = float(np().linalg.solve(C, x).T.dot(x))
+        try:
+            resultSquared = float(np().linalg.solve(C, x).T.dot(x))
+        except np().linalg.LinAlgError:
+            return float("nan")
         if resultSquared < 0:
             return float("nan")
         else:
-- 
2.43.0


From 4b2bece253d79cec0609b491555f8cfadf3bb4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:40 +0000
Subject: [PATCH 076/203] fix: stat.test.updateChi2 takes integer pulls and
 pulls whose square overflows

---
 titus/lib/stat/pfatest.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/titus/lib/stat/pfatest.py b/titus/lib/stat/pfatest.py
index 4f24063..5c678dd 100644
--- a/titus/lib/stat/pfatest.py
+++ b/titus/lib/stat/pfatest.py
@@ -188,12 +188,12 @@ class UpdateChi2(LibFcn):
                 Sig([{"pull": P.Map(P.Double())}, {"state": P.WildRecord("A", {"chi2": P.Double(), "dof": P.Int()})}], P.Wildcard("A"))])
     errcodeBase = 38040
     def __call__(self, state, scope, pos, paramTypes, pull, state_):
-        if isinstance(pull, float):
+        if isinstance(pull, (int, float)):
             return dict(state_, chi2=(state_["chi2"] + pull*pull), dof=(state_["dof"] + 1))
         elif isinstance(pull, (tuple, list)):
-            return dict(state_, chi2=(state_["chi2"] + sum([y**2 for y in pull])), dof=(state_["dof"] + 1))
+            return dict(state_, chi2=(state_["chi2"] + sum([y*y for y in pull])), dof=(state_["dof"] + 1))
         else:
-            return dict(state_, chi2=(state_["chi2"] + sum([y**2 for y in list(pull.values())])), dof=(state_["dof"] + 1))
+            return dict(state_, chi2=(state_["chi2"] + sum([y*y for y in list(pull.values())])), dof=(state_["dof"] + 1))
 provide(UpdateChi2())
 
 class ReducedChi2(LibFcn):
-- 
2.43.0


From 0f5e6647665726f039be0d06a37146c50efc385a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:40 +0000
Subject: [PATCH 077/203] fix: stat.change.zValue of a single datum divides by
 zero the PFA way

---
 titus/lib/stat/change.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/titus/lib/stat/change.py b/titus/lib/stat/change.py
index ba0ad2b..15418c5 100644
--- a/titus/lib/stat/change.py
+++ b/titus/lib/stat/change.py
@@ -78,8 +78,9 @@ class ZValue(LibFcn):
         else:
             unbiased, = args
             count = meanVariance["count"]
-            if count / (count - 1.0) >= 0.0:
-                correction = math.sqrt((count) / (count - 1.0))
+            ratio = div(count, count - 1.0)
+            if ratio >= 0.0:
+                correction = math.sqrt(ratio)
             else:
                 correction = float("nan")
             if unbiased:
-- 
2.43.0


From 960a7943c685d159d439309f6a344dbf20a17028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 078/203] fix: model.reg.residual refuses arrays of different
 lengths

---
 titus/lib/model/reg.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/titus/lib/model/reg.py b/titus/lib/model/reg.py
index 3f59c7a..7f48699 100644
--- a/titus/lib/model/reg.py
+++ b/titus/lib/model/reg.py
@@ -395,11 +395,9 @@ class Residual(LibFcn):
             return result
 
         elif isinstance(observation, (tuple, list)):
-            try:
-                result = [float(o - p) for o, p in zip(observation, prediction)]
-            except:
+            if len(observation) != len(prediction):
                 raise PFARuntimeException("misaligned prediction", self.errcodeBase + 0, self.name, pos)
-            return result
+            return [float(o - p) for o, p in zip(observation, prediction)]
 
         else:
             return float(observation - prediction)
-- 
2.43.0


From 24ac683d7b34fd9d80e6850635f565c900bc8049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 079/203] fix: deprecated model.reg.pull and reducedChi2 divide
 by zero the PFA way

---
 titus/lib/model/reg.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/titus/lib/model/reg.py b/titus/lib/model/reg.py
index 7f48699..3afd56d 100644
--- a/titus/lib/model/reg.py
+++ b/titus/lib/model/reg.py
@@ -426,10 +426,7 @@ class Pull(LibFcn):
                     u = uncertainty[k]
                 except KeyError:
                     raise PFARuntimeException("misaligned uncertainty", self.errcodeBase + 1, self.name, pos)
-                try:
-                    result[k] = (o - p) / u
-                except ZeroDivisionError:
-                    result[k] = float("nan")
+                result[k] = div(o - p, u)
             return result
 
         elif isinstance(observation, (tuple, list)):
@@ -437,10 +434,10 @@ class Pull(LibFcn):
                 raise PFARuntimeException("misaligned prediction", self.errcodeBase + 0, self.name, pos)
             if len(observation) != len(uncertainty):
                 raise PFARuntimeException("misaligned prediction", self.errcodeBase + 0, self.name, pos)
-            return [float((o - p)/u) for o, p, u in zip(observation, prediction, uncertainty)]
+            return [div(o - p, u) for o, p, u in zip(observation, prediction, uncertainty)]
 
         else:
-            return float((observation - prediction)/uncertainty)
+            return div(observation - prediction, uncertainty)
 
 provide(Pull())
 
@@ -503,7 +500,7 @@ class ReducedChi2(LibFcn):
     sig = Sig([{"state_": P.WildRecord("A", {"chi2": P.Double(), "DOF": P.Int()})}], P.Double(), Lifespan(None, PFAVersion(0, 7, 2), PFAVersion(0, 9, 0), "use test.reducedChi2 instead"))
     errcodeBase = 31060
     def __call__(self, state, scope, pos, paramTypes, state_):
-        return float(state_["chi2"]/state_["DOF"])
+        return div(state_["chi2"], state_["DOF"])
 provide(ReducedChi2())
 
 class Chi2Prob(LibFcn):
-- 
2.43.0


From dd26aa822fb3ae0871a2168812b68bc45ec6a892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 080/203] fix: model.reg.pull reports misaligned uncertainties
 as such

---
 titus/lib/model/reg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/lib/model/reg.py b/titus/lib/model/reg.py
index 3afd56d..c8068a4 100644
--- a/titus/lib/model/reg.py
+++ b/titus/lib/model/reg.py
@@ -433,7 +433,7 @@ class Pull(LibFcn):
             if len(observation) != len(prediction):
                 raise PFARuntimeException("misaligned prediction", self.errcodeBase + 0, self.name, pos)
             if len(observation) != len(uncertainty):
-                raise PFARuntimeException("misaligned prediction", self.errcodeBase + 0, self.name, pos)
+                raise PFARuntimeException("misaligned uncertainty", self.errcodeBase + 1, self.name, pos)
             return [div(o - p, u) for o, p, u in zip(observation, prediction, uncertainty)]
 
         else:
-- 
2.43.0


From 31c718d9cd0ff3b344277962083e4907da2640c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 081/203] fix: model.reg.mahalanobis refuses covariances of any
 wrong shape

---
 titus/lib/model/reg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/lib/model/reg.py b/titus/lib/model/reg.py
index c8068a4..238733f 100644
--- a/titus/lib/model/reg.py
+++ b/titus/lib/model/reg.py
@@ -452,7 +452,7 @@ class Mahalanobis(LibFcn):
                 raise PFARuntimeException("too few rows/cols", self.errcodeBase + 0, self.name, pos)
             if (len(observation) != len(prediction)):
                 raise PFARuntimeException("misaligned prediction", self.errcodeBase + 1, self.name, pos)
-            if (not all(len(i)==len(covariance[0]) for i in covariance)) and (len(covariance) != len(covariance[0])):
+            if len(covariance) != len(observation) or any(len(i) != len(observation) for i in covariance):
                 raise PFARuntimeException("misaligned covariance", self.errcodeBase + 2, self.name, pos)
             x = np().array([(o - p) for o, p in zip(observation, prediction)])
             C = np().array(covariance)
-- 
2.43.0


From 6c6dbf7969e2cfb8975655244cbadb7818aec733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 082/203] fix: a singular covariance gives no distance in
 model.reg.mahalanobis

---
 titus/lib/model/reg.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/titus/lib/model/reg.py b/titus/lib/model/reg.py
index 238733f..9d06c4f 100644
--- a/titus/lib/model/reg.py
+++ b/titus/lib/model/reg.py
@@ -474,7 +474,10 @@ class Mahalanobis(LibFcn):
                         C[i,j] = float(covariance[k1][k2])
             except:
                 raise PFARuntimeException("misaligned covariance", self.errcodeBase + 2, self.name, pos)
-        return float(np().sqrt(np().linalg.solve(C, x).T.dot(x)))
+        try:
+            return float(np().sqrt(np().linalg.solve(C, x).T.dot(x)))
+        except np().linalg.LinAlgError:
+            return float("nan")
 provide(Mahalanobis())
 
 
-- 
2.43.0


From ce781407241ce5cda38752ae4e9bd24279680405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 083/203] fix: model.reg.updateChi2 takes pulls whose square
 overflows

---
 titus/lib/model/reg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/lib/model/reg.py b/titus/lib/model/reg.py
index 9d06c4f..77fb30b 100644
--- a/titus/lib/model/reg.py
+++ b/titus/lib/model/reg.py
@@ -491,9 +491,9 @@ class UpdateChi2(LibFcn):
         if isinstance(pull, (int, float)):
             return update(pull*pull, state_)
         elif isinstance(pull, (tuple, list)):
-            return update(sum([y**2 for y in pull]), state_)
+            return update(sum([y*y for y in pull]), state_)
         else:
-            return update(sum([y**2 for y in list(pull.values())]), state_)
+            return update(sum([y*y for y in list(pull.values())]), state_)
 provide(UpdateChi2())
 def update(x, state_):
     return dict(state_, chi2=float(state_["chi2"] + x), DOF=state_["DOF"] + 1)
-- 
2.43.0


From 39786aab429f962eda4882109f886c5971d83f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 084/203] fix: model.reg.gaussianProcess uses the kriging
 weight it is given and reports bad kernels

---
 titus/lib/model/reg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/titus/lib/model/reg.py b/titus/lib/model/reg.py
index 77fb30b..e68f0c7 100644
--- a/titus/lib/model/reg.py
+++ b/titus/lib/model/reg.py
@@ -191,6 +191,7 @@ class GaussianProcess(LibFcn):
                 raise PFARuntimeException("krigingWeight is not finite", self.errcodeBase + 7, self.name, pos)
         else:
             beta = krigingWeight
+        return beta
 
     def getnoutputs(self, x, table, paramTypes, pos):
         if isinstance(paramTypes[-1], dict) and paramTypes[-1].get("type") == "array":
@@ -331,7 +332,7 @@ class GaussianProcess(LibFcn):
 
         try:
             C = np().linalg.cholesky(R)
-        except numpy.linalg.linalg.LinAlgError:
+        except np().linalg.LinAlgError:
             raise PFARuntimeException("matrix of kernel results is not positive definite", self.errcodeBase + 8, self.name, pos)
 
         F = np().array([[1.0]] * len(X))
-- 
2.43.0


From 251b16f44cd9f9d100fbc0bf8e8147cde6da82ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:54 +0000
Subject: [PATCH 085/203] fix: model.reg.chi2Prob of an infinite chi-squared is
 0 or 1

---
 titus/lib/model/reg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/titus/lib/model/reg.py b/titus/lib/model/reg.py
index e68f0c7..0bc4dd7 100644
--- a/titus/lib/model/reg.py
+++ b/titus/lib/model/reg.py
@@ -512,6 +512,8 @@ class Chi2Prob(LibFcn):
     sig = Sig([{"state_": P.WildRecord("A", {"chi2": P.Double(), "DOF": P.Int()})}], P.Double(), Lifespan(None, PFAVersion(0, 7, 2), PFAVersion(0, 9, 0), "use test.chi2Prob instead"))
     errcodeBase = 31070
     def __call__(self, state, scope, pos, paramTypes, state_):
+        if math.isinf(state_["chi2"]) and state_["DOF"] >= 0:
+            return 1.0 if state_["chi2"] > 0 else 0.0
         return float(Chi2Distribution(state_["DOF"], self.name, self.errcodeBase, pos).CDF(state_["chi2"]))
 provide(Chi2Prob())
 
-- 
2.43.0


From ef050419bb2ba63b0fa4c43734f018a7b560b9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:16 +0000
Subject: [PATCH 086/203] fix: function signatures match the members of a union
 in any order

---
 titus/signature.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/titus/signature.py b/titus/signature.py
index ddb37f7..e7c894b 100644
--- a/titus/signature.py
+++ b/titus/signature.py
@@ -287,6 +287,27 @@ class LabelData(object):
         else:
             raise IncompatibleTypes("incompatible function/non-function types: " + " ".join(map(repr, realCandidates)))
 
+    @staticmethod
+    def copyAll(labelData):
+        """Copy a dict of label data, so that a failed attempt to match leaves no trace in the original."""
+        out = {}
+        for label, data in list(labelData.items()):
+            out[label] = LabelData()
+            out[label].members = list(data.members)
+            out[label].expectedFields = data.expectedFields
+            out[label].oneOf = data.oneOf
+        return out
+
+    @staticmethod
+    def consistent(labelData):
+        """Determine if every label can be assigned, given what has been matched so far."""
+        try:
+            for data in list(labelData.values()):
+                data.determineAssignment()
+        except IncompatibleTypes:
+            return False
+        return True
+
     def __init__(self):
         self.members = []
         self.expectedFields = None
@@ -469,8 +490,8 @@ class Sig(Signature):
             return self.check(pat.values, arg.values, labelData, strict, reversed)
         elif isinstance(pat, P.Union) and isinstance(arg, AvroUnion):
             found = False
-            originalLabelData = dict(labelData)
-            labelData2 = dict(labelData)
+            originalLabelData = LabelData.copyAll(labelData)
+            labelData2 = LabelData.copyAll(labelData)
             atypesPermutations = itertools.permutations(arg.types)
 
             atypesPermutations_isEmpty = False
@@ -495,10 +516,10 @@ class Sig(Signature):
                             break
 
                     if not anyfalse:
-                        found = True
+                        found = LabelData.consistent(labelData2)
 
                     if not found:
-                        labelData2 = dict(originalLabelData)
+                        labelData2 = LabelData.copyAll(originalLabelData)
 
             labelData.update(labelData2)
             return found
-- 
2.43.0


From de7a30fab948879b70870cc905c4681814d372af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:16 +0000
Subject: [PATCH 087/203] fix: in and notIn of a tree comparison refuse values
 that are not arrays

---
 titus/lib/model/tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/titus/lib/model/tree.py b/titus/lib/model/tree.py
index 6022d22..03fcad4 100644
--- a/titus/lib/model/tree.py
+++ b/titus/lib/model/tree.py
@@ -76,6 +76,8 @@ def simpleComparison(paramTypes, datum, comparison, missingOperators, parser, co
 
         if isinstance(value, dict) and len(value) == 1 and list(value.keys()) == ["array"]:
             value, = list(value.values())
+        if not isinstance(value, (list, tuple)):
+            raise PFARuntimeException("bad value type", code1, fcnName, pos)
 
         if not missingOperators:
             if fieldValue is None:
-- 
2.43.0


From 2a31aa8e8c9eb759db216cb7fc9a1f234658f3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:44 +0000
Subject: [PATCH 088/203] fix: tree comparisons of an enum with a union that
 also has strings compare the enum

---
 titus/lib/model/tree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/titus/lib/model/tree.py b/titus/lib/model/tree.py
index 03fcad4..bc92d81 100644
--- a/titus/lib/model/tree.py
+++ b/titus/lib/model/tree.py
@@ -122,6 +122,9 @@ def simpleComparison(paramTypes, datum, comparison, missingOperators, parser, co
                 raise PFARuntimeException("invalid comparison operator", code2, fcnName, pos)
 
         else:
+            if isinstance(valueType, AvroUnion) and not isinstance(fieldValueType, (AvroUnion, AvroNull)):
+                fieldValue = {fieldValueType.name: fieldValue}
+
             if operator == "<=":
                 return compare(valueType, fieldValue, value) <= 0
             elif operator == "<":
-- 
2.43.0


From c280eeb3d5cbb6406836040104adc611f3749701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:15 +0000
Subject: [PATCH 089/203] fix: model.neighbor.mean of points whose weights add
 up to zero is not a crash

---
 titus/lib/model/neighbor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/lib/model/neighbor.py b/titus/lib/model/neighbor.py
index 6ac4d71..ab97f45 100644
--- a/titus/lib/model/neighbor.py
+++ b/titus/lib/model/neighbor.py
@@ -68,7 +68,7 @@ class Mean(LibFcn):
                 denom[i] += w
 
         for i in range(dimensions):
-            numer[i] /= denom[i]
+            numer[i] = div(numer[i], denom[i])
         return numer
 provide(Mean())
 
-- 
2.43.0


From 8fbc996cdd3c926efc30d40bda159c38b0066073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:15 +0000
Subject: [PATCH 090/203] fix: model.naive.multinomial normalizes a map of
 likelihoods as it does an array

---
 titus/lib/model/naive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/lib/model/naive.py b/titus/lib/model/naive.py
index c26620f..71fe8d0 100644
--- a/titus/lib/model/naive.py
+++ b/titus/lib/model/naive.py
@@ -103,7 +103,7 @@ class Multinomial(LibFcn):
             raise PFARuntimeException("datum and classModel misaligned", self.errcodeBase + 0, self.name, pos)
         for d in datumkeys:
             p = classModel[d]/normalizing + tiny
-            ll += datum[d]*math.log(classModel[d])
+            ll += datum[d]*math.log(p)
         return ll
 
     def __call__(self, state, scope, pos, paramTypes, datum, classModel):
-- 
2.43.0


From 01244aec1e32445ead9bb0f35985bd5703433915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:15 +0000
Subject: [PATCH 091/203] fix: model.naive.gaussian of a datum whose squared
 distance overflows is not a crash

---
 titus/lib/model/naive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/lib/model/naive.py b/titus/lib/model/naive.py
index 71fe8d0..b60f078 100644
--- a/titus/lib/model/naive.py
+++ b/titus/lib/model/naive.py
@@ -51,7 +51,7 @@ class Gaussian(LibFcn):
                 if vari <= 0.0:
                     raise PFARuntimeException("variance less than or equal to zero", self.errcodeBase + 1, self.name, pos)
                 ll += -0.5*math.log(2.*math.pi * vari)
-                ll += -0.5*((x - mu)**2 / vari)
+                ll += -0.5*((x - mu)*(x - mu) / vari)
             return ll
         else:
             datumkeys = list(datum.keys())
@@ -65,7 +65,7 @@ class Gaussian(LibFcn):
                 if vari <= 0.0:
                     raise PFARuntimeException("variance less than or equal to zero", self.errcodeBase + 1, self.name, pos)
                 ll += -0.5*math.log(2.*math.pi * vari)
-                ll += -0.5*((x - mu)**2 / vari)
+                ll += -0.5*((x - mu)*(x - mu) / vari)
             return ll
 provide(Gaussian())
 
-- 
2.43.0


From 35415cd73f4a8a5c19e8c1aa99f7440411f03f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:45 +0000
Subject: [PATCH 092/203] fix: booleans are not numbers in input data

---
 titus/datatype.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 91806bf..4e8a9eb 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -1295,7 +1295,7 @@ def checkData(data, avroType):
                 raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
         elif isinstance(data, integerTypes):
             data = int(data)
-        elif isinstance(data, int):
+        elif isinstance(data, int) and not isinstance(data, bool):
             return data
         else:
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
@@ -1308,7 +1308,7 @@ def checkData(data, avroType):
                 raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
         elif isinstance(data, integerTypes):
             data = int(data)
-        elif isinstance(data, int):
+        elif isinstance(data, int) and not isinstance(data, bool):
             return data
         else:
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
@@ -1321,7 +1321,7 @@ def checkData(data, avroType):
                 raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
         elif isinstance(data, floatTypes):
             data = float(data)
-        elif isinstance(data, int):
+        elif isinstance(data, int) and not isinstance(data, bool):
             data = float(data)
         elif isinstance(data, float):
             return data
@@ -1336,7 +1336,7 @@ def checkData(data, avroType):
                 raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
         elif isinstance(data, floatTypes):
             return float(data)
-        elif isinstance(data, int):
+        elif isinstance(data, int) and not isinstance(data, bool):
             return float(data)
         elif isinstance(data, float):
             return data
-- 
2.43.0


From 09b3ac7833dd3d6d05b411756230b1fbf64ea77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:45 +0000
Subject: [PATCH 093/203] fix: input data of a fixed type have its size

---
 titus/datatype.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 4e8a9eb..c77d42b 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -1344,10 +1344,10 @@ def checkData(data, avroType):
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     elif isinstance(avroType, (AvroBytes, AvroFixed)):
-        if isinstance(data, bytes):
+        if isinstance(data, str):
+            data = stringToBytes(data)
+        if isinstance(data, bytes) and (not isinstance(avroType, AvroFixed) or len(data) == avroType.size):
             return data
-        elif isinstance(data, str):
-            return stringToBytes(data)
         else:
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
-- 
2.43.0


From 39b9c0eb49a1ffaf4ee2b75ba5e10303f21e7d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:45 +0000
Subject: [PATCH 094/203] fix: text, bytes and mappings are not arrays in input
 data, nor sequences maps or records

---
 titus/datatype.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index c77d42b..38859a5 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -1358,13 +1358,13 @@ def checkData(data, avroType):
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     elif isinstance(avroType, AvroArray):
-        if hasattr(data, "__iter__"):
+        if hasattr(data, "__iter__") and not isinstance(data, (str, bytes, dict)):
             return [checkData(x, avroType.items) for x in data]
         else:
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     elif isinstance(avroType, AvroMap):
-        if hasattr(data, "__iter__") and hasattr(data, "__getitem__"):
+        if hasattr(data, "__iter__") and hasattr(data, "__getitem__") and not isinstance(data, (str, bytes, list, tuple)):
             newData = {}
             for key in data:
                 value = checkData(data[key], avroType.values)
@@ -1379,7 +1379,7 @@ def checkData(data, avroType):
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     elif isinstance(avroType, AvroRecord):
-        if hasattr(data, "__iter__") and hasattr(data, "__getitem__"):
+        if hasattr(data, "__iter__") and hasattr(data, "__getitem__") and not isinstance(data, (str, bytes, list, tuple)):
             newData = {}
             for field in avroType.fields:
                 try:
-- 
2.43.0


From afff4a49473ba2df01f0ef7fbf3f7c4ac684fa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:45 +0000
Subject: [PATCH 095/203] fix: untagged input data of a union stay what they
 are, whatever the order of the union

---
 titus/datatype.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 38859a5..d5cd6a7 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -1396,14 +1396,23 @@ def checkData(data, avroType):
             tag, = list(data.keys())
             value, = list(data.values())
             for tpe in avroType.types:
-                if tpe.name == tag:
+                if tpe.name == tag or getattr(tpe, "fullName", None) == tag:
                     if tag == "null":
                         return checkData(value, tpe)
                     else:
-                        return {tag: checkData(value, tpe)}
-            raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
+                        return {tpe.name: checkData(value, tpe)}
 
-        for tpe in avroType.types:
+        # text and whole numbers are only converted into something else if there is no branch for them as they are
+        if isinstance(data, str):
+            asIs = (AvroString, AvroEnum)
+        elif isinstance(data, (int,) + integerTypes):
+            asIs = (AvroInt, AvroLong)
+        else:
+            asIs = AvroType
+
+        for tpe in sorted(avroType.types, key=lambda x: not isinstance(x, asIs)):
+            if isinstance(tpe, AvroEnum) and isinstance(data, str) and data not in tpe.symbols:
+                continue
             try:
                 newData = checkData(data, tpe)
             except TypeError:
-- 
2.43.0


From e7dab12c260f22bf985bec8dfa3e4583e8419b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:45 +0000
Subject: [PATCH 096/203] fix: input data beyond the range of int or long are
 refused

---
 titus/datatype.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index d5cd6a7..91bd434 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -1295,9 +1295,9 @@ def checkData(data, avroType):
                 raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
         elif isinstance(data, integerTypes):
             data = int(data)
-        elif isinstance(data, int) and not isinstance(data, bool):
-            return data
-        else:
+        elif not isinstance(data, int) or isinstance(data, bool):
+            raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
+        if not -2**31 <= data < 2**31:
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     elif isinstance(avroType, AvroLong):
@@ -1308,9 +1308,9 @@ def checkData(data, avroType):
                 raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
         elif isinstance(data, integerTypes):
             data = int(data)
-        elif isinstance(data, int) and not isinstance(data, bool):
-            return data
-        else:
+        elif not isinstance(data, int) or isinstance(data, bool):
+            raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
+        if not -2**63 <= data < 2**63:
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     elif isinstance(avroType, AvroFloat):
-- 
2.43.0


From 42b5077481d783f58aa4db585f9b767e885e8158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:39 +0000
Subject: [PATCH 097/203] fix: JSON booleans and numbers beyond the range of a
 type are not decoded as numbers

---
 titus/datatype.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 91bd434..9953f9b 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -890,23 +890,21 @@ def jsonDecoder(avroType, value):
             return value
     elif isinstance(avroType, AvroInt):
         try:
-            return int(value)
-        except (ValueError, TypeError):
+            if not isinstance(value, bool) and -2**31 <= int(value) < 2**31:
+                return int(value)
+        except (ValueError, TypeError, OverflowError):
             pass
     elif isinstance(avroType, AvroLong):
         try:
-            return int(value)
-        except (ValueError, TypeError):
+            if not isinstance(value, bool) and -2**63 <= int(value) < 2**63:
+                return int(value)
+        except (ValueError, TypeError, OverflowError):
             pass
-    elif isinstance(avroType, AvroFloat):
-        try:
-            return float(value)
-        except (ValueError, TypeError):
-            pass
-    elif isinstance(avroType, AvroDouble):
+    elif isinstance(avroType, (AvroFloat, AvroDouble)):
         try:
-            return float(value)
-        except (ValueError, TypeError):
+            if not isinstance(value, bool):
+                return float(value)
+        except (ValueError, TypeError, OverflowError):
             pass
     elif isinstance(avroType, AvroBytes):
         if isinstance(value, str):
-- 
2.43.0


From 0a98d86e9d338aec822efe14cb6e52514ed0dbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:29 +0000
Subject: [PATCH 098/203] fix: JSON unions may be tagged by the full names of
 their types

---
 titus/datatype.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 9953f9b..fa7d8fe 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -942,9 +942,9 @@ def jsonDecoder(avroType, value):
         if isinstance(value, dict) and len(value) == 1:
             tag, = list(value.keys())
             val, = list(value.values())
-            types = dict((x.name, x) for x in avroType.types)
-            if tag in types:
-                return {tag: jsonDecoder(types[tag], val)}
+            for x in avroType.types:
+                if x.name == tag or getattr(x, "fullName", None) == tag:
+                    return {x.name: jsonDecoder(x, val)}
         elif value is None and "null" in [x.name for x in avroType.types]:
             return None
     else:
-- 
2.43.0


From 49fe475b9ce59c8ad6cad85d5b7d3f37c3f29c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:29 +0000
Subject: [PATCH 099/203] fix: JSON records without a field get its default
 value, also when that is null or of a union

---
 titus/datatype.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index fa7d8fe..46d20e0 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -931,8 +931,14 @@ def jsonDecoder(avroType, value):
             for field in avroType.fields:
                 if field.name in value:
                     out[field.name] = jsonDecoder(field.avroType, value[field.name])
-                elif field.default is not None:
-                    out[field.name] = jsonDecoder(field.avroType, field.default)
+                elif field.schema.has_default:
+                    if not isinstance(field.avroType, AvroUnion):
+                        out[field.name] = jsonDecoder(field.avroType, field.default)
+                    else:
+                        # the default of a union is an untagged value of its first branch
+                        first = field.avroType.types[0]
+                        default = jsonDecoder(first, field.default)
+                        out[field.name] = default if isinstance(first, AvroNull) else {first.name: default}
                 elif isinstance(field.avroType, AvroNull):
                     out[field.name] = None
                 else:
-- 
2.43.0


From 6565fe6332173accf41e91fa3d2b1ab23fd7906c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:22 +0000
Subject: [PATCH 100/203] fix: NumPy arrays are not maps or records in input
 data

---
 titus/datatype.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 46d20e0..d8db6c1 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -1263,7 +1263,9 @@ try:
                    (numpy.float_,
                     numpy.float16,
                     numpy.float32)
+    sequenceTypes = (str, bytes, list, tuple, numpy.ndarray)
 except ImportError:
+    sequenceTypes = (str, bytes, list, tuple)
     booleanTypes = ()
     integerTypes = ()
     floatTypes   = ()
@@ -1368,7 +1370,7 @@ def checkData(data, avroType):
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     elif isinstance(avroType, AvroMap):
-        if hasattr(data, "__iter__") and hasattr(data, "__getitem__") and not isinstance(data, (str, bytes, list, tuple)):
+        if hasattr(data, "__iter__") and hasattr(data, "__getitem__") and not isinstance(data, sequenceTypes):
             newData = {}
             for key in data:
                 value = checkData(data[key], avroType.values)
@@ -1383,7 +1385,7 @@ def checkData(data, avroType):
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     elif isinstance(avroType, AvroRecord):
-        if hasattr(data, "__iter__") and hasattr(data, "__getitem__") and not isinstance(data, (str, bytes, list, tuple)):
+        if hasattr(data, "__iter__") and hasattr(data, "__getitem__") and not isinstance(data, sequenceTypes):
             newData = {}
             for field in avroType.fields:
                 try:
-- 
2.43.0


From 5b26473f75fda42f5507c07d21d5a5ecc635d8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:19 +0000
Subject: [PATCH 101/203] fix: avroOutputDataFileWriter writes binary files and
 takes tagged unions

---
 titus/genpy.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index f7cf5b4..1ceee8d 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1833,7 +1833,17 @@ class PFAEngine(object):
         :return: an output stream with an ``append`` method for appending output data objects
         """
 
-        return DataFileWriter(open(fileName, "w"), DatumWriter(), self.config.output.schema)
+        return DataFileWriter(open(fileName, "wb"), OutputDatumWriter(self.config.output), self.config.output.schema)
+
+class OutputDatumWriter(DatumWriter):
+    """Serializes the output of a scoring engine, in which the values of unions may be tagged."""
+
+    def __init__(self, avroType):
+        super(OutputDatumWriter, self).__init__(avroType.schema)
+        self.avroType = avroType
+
+    def write(self, datum, encoder):
+        encoder.write(titus.datatype.avroEncoder(self.avroType, datum))
 
 class FastAvroCorrector(object):
     """The fastavro library reads Avro strings as non-Unicode and doesn't tag unions. This wrapper class corrects it."""
-- 
2.43.0


From ca67bcb79ce34f118baa3315da1ccc7472253838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:52 +0000
Subject: [PATCH 102/203] fix: binary formats of pack and unpack are matched as
 a whole (int64 was read as int, float64 as float)

---
 titus/pfaast.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index f197dd9..32f3b6b 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -5683,22 +5683,22 @@ class BinaryFormatter(object):
         :return: format declarer
         """
 
-        if re.match(BinaryFormatter.formatPad, f):             return BinaryFormatter.DeclarePad(value)
-        elif re.match(BinaryFormatter.formatBoolean, f):       return BinaryFormatter.DeclareBoolean(value)
-        elif re.match(BinaryFormatter.formatByte, f):          return BinaryFormatter.DeclareByte(value, False)
-        elif re.match(BinaryFormatter.formatUnsignedByte, f):  return BinaryFormatter.DeclareByte(value, True)
-        elif re.match(BinaryFormatter.formatShort, f):         return BinaryFormatter.DeclareShort(value, "<" in f or "little" in f, False)
-        elif re.match(BinaryFormatter.formatUnsignedShort, f): return BinaryFormatter.DeclareShort(value, "<" in f or "little" in f, True)
-        elif re.match(BinaryFormatter.formatInt, f):           return BinaryFormatter.DeclareInt(value, "<" in f or "little" in f, False)
-        elif re.match(BinaryFormatter.formatUnsignedInt, f):   return BinaryFormatter.DeclareInt(value, "<" in f or "little" in f, True)
-        elif re.match(BinaryFormatter.formatLong, f):          return BinaryFormatter.DeclareLong(value, "<" in f or "little" in f, False)
-        elif re.match(BinaryFormatter.formatUnsignedLong, f):  return BinaryFormatter.DeclareLong(value, "<" in f or "little" in f, True)
-        elif re.match(BinaryFormatter.formatFloat, f):         return BinaryFormatter.DeclareFloat(value, "<" in f or "little" in f)
-        elif re.match(BinaryFormatter.formatDouble, f):        return BinaryFormatter.DeclareDouble(value, "<" in f or "little" in f)
-        elif re.match(BinaryFormatter.formatRawSize, f):       return BinaryFormatter.DeclareRawSize(value, int(re.match(BinaryFormatter.formatRawSize, f).group(1)))
-        elif re.match(BinaryFormatter.formatToNull, f):        return BinaryFormatter.DeclareToNull(value)
-        elif re.match(BinaryFormatter.formatPrefixed, f):      return BinaryFormatter.DeclarePrefixed(value)
-        elif re.match(BinaryFormatter.formatRaw, f):
+        if re.fullmatch(BinaryFormatter.formatPad, f):             return BinaryFormatter.DeclarePad(value)
+        elif re.fullmatch(BinaryFormatter.formatBoolean, f):       return BinaryFormatter.DeclareBoolean(value)
+        elif re.fullmatch(BinaryFormatter.formatByte, f):          return BinaryFormatter.DeclareByte(value, False)
+        elif re.fullmatch(BinaryFormatter.formatUnsignedByte, f):  return BinaryFormatter.DeclareByte(value, True)
+        elif re.fullmatch(BinaryFormatter.formatShort, f):         return BinaryFormatter.DeclareShort(value, "<" in f or "little" in f, False)
+        elif re.fullmatch(BinaryFormatter.formatUnsignedShort, f): return BinaryFormatter.DeclareShort(value, "<" in f or "little" in f, True)
+        elif re.fullmatch(BinaryFormatter.formatInt, f):           return BinaryFormatter.DeclareInt(value, "<" in f or "little" in f, False)
+        elif re.fullmatch(BinaryFormatter.formatUnsignedInt, f):   return BinaryFormatter.DeclareInt(value, "<" in f or "little" in f, True)
+        elif re.fullmatch(BinaryFormatter.formatLong, f):          return BinaryFormatter.DeclareLong(value, "<" in f or "little" in f, False)
+        elif re.fullmatch(BinaryFormatter.formatUnsignedLong, f):  return BinaryFormatter.DeclareLong(value, "<" in f or "little" in f, True)
+        elif re.fullmatch(BinaryFormatter.formatFloat, f):         return BinaryFormatter.DeclareFloat(value, "<" in f or "little" in f)
+        elif re.fullmatch(BinaryFormatter.formatDouble, f):        return BinaryFormatter.DeclareDouble(value, "<" in f or "little" in f)
+        elif re.fullmatch(BinaryFormatter.formatRawSize, f):       return BinaryFormatter.DeclareRawSize(value, int(re.fullmatch(BinaryFormatter.formatRawSize, f).group(1)))
+        elif re.fullmatch(BinaryFormatter.formatToNull, f):        return BinaryFormatter.DeclareToNull(value)
+        elif re.fullmatch(BinaryFormatter.formatPrefixed, f):      return BinaryFormatter.DeclarePrefixed(value)
+        elif re.fullmatch(BinaryFormatter.formatRaw, f):
             if output:
                 return BinaryFormatter.DeclareRaw(value)
             else:
-- 
2.43.0


From 8a5cc4d787613a39d2782d4fc3763ff3b056e0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:52 +0000
Subject: [PATCH 103/203] fix: bad formats of pack and unpack are reported as
 semantic errors

---
 titus/pfaast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index 32f3b6b..3080c12 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -5702,9 +5702,9 @@ class BinaryFormatter(object):
             if output:
                 return BinaryFormatter.DeclareRaw(value)
             else:
-                raise PFASemanticException("cannot read from unsized \"raw\" in binary formatter", self.pos)
+                raise PFASemanticException("cannot read from unsized \"raw\" in binary formatter", pos)
         else:
-            raise PFASemanticException("unrecognized formatter \"{0}\" found in unpack's \"format\"".format(f), self.pos)
+            raise PFASemanticException("unrecognized formatter \"{0}\" found in unpack's \"format\"".format(f), pos)
 
 @titus.util.case
 class Pack(Expression):
-- 
2.43.0


From 38af0fd6d0cfe86ca1f031643791017ce0e1d3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:52 +0000
Subject: [PATCH 104/203] fix: an unsigned long that was unpacked is a double

---
 titus/genpy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/titus/genpy.py b/titus/genpy.py
index 1ceee8d..1d6914d 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1267,6 +1267,8 @@ def unpackOne(byte_s, scope, s, f, l):
         if len(this) != l:
             raise MisalignedPacking()
         value, = struct.unpack(f, this)
+        if "Q" in f:
+            value = float(value)    # unsigned longs are doubles in PFA
         scope.let({s: value})
 
     return that
-- 
2.43.0


From 34b1d40842d1a4ba8a60683404601194a45779f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:34 +0000
Subject: [PATCH 105/203] fix: rand.sample of a negative size is empty, like
 rand.choices (crashed)

---
 titus/lib/rand.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/lib/rand.py b/titus/lib/rand.py
index 892823d..cf22f15 100644
--- a/titus/lib/rand.py
+++ b/titus/lib/rand.py
@@ -114,7 +114,7 @@ class RandomSample(LibFcn):
             raise PFARuntimeException("population must not be empty", self.errcodeBase + 0, self.name, pos)
         if len(population) < size:
             raise PFARuntimeException("population smaller than requested subsample", self.errcodeBase + 1, self.name, pos)
-        return state.rand.sample(population, size)
+        return state.rand.sample(population, max(size, 0))
 provide(RandomSample())
         
 ########################################################### deviates from a histogram
-- 
2.43.0


From 6cf0d0446f484d4c0939b37bc16b32b362912f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:34 +0000
Subject: [PATCH 106/203] fix: rand.histogram always returns an index (was null
 when rounding reached the total)

---
 titus/lib/rand.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/titus/lib/rand.py b/titus/lib/rand.py
index cf22f15..8076ae5 100644
--- a/titus/lib/rand.py
+++ b/titus/lib/rand.py
@@ -139,6 +139,7 @@ class RandomHistogram(LibFcn):
         for i, y in enumerate(cumulativeSum):
             if position < y:
                 return i - 1
+        return max(i for i, x in enumerate(distribution) if x > 0)   # rounded up to the total
     def __call__(self, state, scope, pos, paramTypes, distribution):
         if isinstance(paramTypes[-1], dict) and paramTypes[-1].get("type") == "record":
             probs = [x["prob"] for x in distribution]
-- 
2.43.0


From ec43caa1a36d58102571e5479547aa67863203a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:34 +0000
Subject: [PATCH 107/203] fix: rand.string does not produce surrogates

---
 titus/lib/rand.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/lib/rand.py b/titus/lib/rand.py
index 8076ae5..332eb6f 100644
--- a/titus/lib/rand.py
+++ b/titus/lib/rand.py
@@ -160,7 +160,7 @@ class RandomString(LibFcn):
     def __call__(self, state, scope, pos, paramTypes, size, *args):
         if size <= 0: raise PFARuntimeException("size must be positive", self.errcodeBase + 0, self.name, pos)
         if len(args) == 0:
-            return "".join(chr(state.rand.randint(1, 0xD800)) for x in range(size))
+            return "".join(chr(state.rand.randint(1, 0xD800 - 1)) for x in range(size))
         elif len(args) == 1:
             if len(args[0]) == 0:
                 raise PFARuntimeException("population must be non-empty", self.errcodeBase + 3, self.name, pos)
-- 
2.43.0


From 100e7ea3376ec904536dee1c9ce4428936d36dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:54 +0000
Subject: [PATCH 108/203] fix: a function type does not accept other types
 (crashed)

---
 titus/datatype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index d8db6c1..2c2b9ba 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -51,7 +51,7 @@ class FcnType(Type):
         return self._ret
 
     def accepts(self, other):
-        if isinstance(self, FcnType):
+        if isinstance(other, FcnType):
             return len(self.params) == len(other.params) and \
                    all(y.accepts(x) for x, y in zip(self.params, other.params)) and \
                    self.ret.accepts(other.ret)
-- 
2.43.0


From b02d3f72bca95982dc468c07f751b6d2ff7708a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:54 +0000
Subject: [PATCH 109/203] fix: a record field whose default is null need not be
 in the other record

---
 titus/datatype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 2c2b9ba..a401dbe 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -188,7 +188,7 @@ class AvroType(Type):
 
     def _recordFieldsOkay(self, other, memo, checkRecord):
         for xf in self.fields:
-            if xf.default is None:
+            if not xf.schema.has_default:
                 if not any(xf.name == yf.name and xf.avroType.accepts(yf.avroType, memo, checkRecord) for yf in other.fields):
                     return False
             else:
-- 
2.43.0


From c4bfcb778eb852f40b9d453dd4d8c34a8cf9aff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:54 +0000
Subject: [PATCH 110/203] fix: types with no common union are reported as a
 semantic error (crashed)

---
 titus/signature.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/titus/signature.py b/titus/signature.py
index e7c894b..aff47ba 100644
--- a/titus/signature.py
+++ b/titus/signature.py
@@ -281,6 +281,10 @@ class LabelData(object):
                 raise IncompatibleTypes("incompatible fixed types")
             if countEnum > 1:
                 raise IncompatibleTypes("incompatible enum types")
+            if sum(1 for t in types if isinstance(t, AvroArray)) > 1:
+                raise IncompatibleTypes("incompatible array types")
+            if sum(1 for t in types if isinstance(t, AvroMap)) > 1:
+                raise IncompatibleTypes("incompatible map types")
 
             return AvroUnion(types)
 
-- 
2.43.0


From aa50238e553fc262b4d768897da6bc305aec989c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:16 +0000
Subject: [PATCH 111/203] fix: functions are not values of a wildcard type

---
 titus/signature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/signature.py b/titus/signature.py
index aff47ba..18e6612 100644
--- a/titus/signature.py
+++ b/titus/signature.py
@@ -570,7 +570,7 @@ class Sig(Signature):
                    self.check(pat.ret, arg.ret, labelData, strict, False)
 
         elif isinstance(pat, P.Wildcard):
-            if pat.oneOf is None or arg in pat.oneOf:
+            if isinstance(arg, AvroType) and (pat.oneOf is None or arg in pat.oneOf):
                 if not pat.label in labelData:
                     labelData[pat.label] = LabelData()
                 labelData[pat.label].add(arg)
-- 
2.43.0


From 8b38684649c9731cc3f21670f84e5357fc4a07a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:05 +0000
Subject: [PATCH 112/203] fix: a pattern of several types tries them all on an
 argument that is not a union

---
 titus/signature.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/titus/signature.py b/titus/signature.py
index 18e6612..f9c6561 100644
--- a/titus/signature.py
+++ b/titus/signature.py
@@ -529,7 +529,12 @@ class Sig(Signature):
             return found
             
         elif isinstance(pat, P.Union) and isinstance(arg, AvroType):
-            return any(self.check(p, arg, labelData, strict, reversed) for p in pat.types)
+            for p in pat.types:
+                labelData2 = LabelData.copyAll(labelData)
+                if self.check(p, arg, labelData2, strict, reversed) and LabelData.consistent(labelData2):
+                    labelData.update(labelData2)
+                    return True
+            return False
 
         elif isinstance(pat, P.Fixed) and isinstance(arg, AvroFixed):
             if pat.fullName is not None:
-- 
2.43.0


From a1795483522229c22137a793071e1409ffd943ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:44 +0000
Subject: [PATCH 113/203] fix: chain.engine passes its arguments to fromAst in
 order

---
 titus/producer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index 9fc1ac0..8185aad 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -166,7 +166,7 @@ def engine(pfas, name=None, randseed=None, doc=None, version=None, metadata={},
     :rtype: titus.genpy.EngineConfig
     :return: a PFA document representing the chained workflow
     """
-    return PFAEngine.fromAst(ast(pfas, False, name, randseed, doc, version, metadata, options, tryYaml, verbose), options, sharedState, multiplicity, style, debug)
+    return PFAEngine.fromAst(ast(pfas, False, name, randseed, doc, version, metadata, options, tryYaml, verbose), options, None, sharedState, multiplicity, style, debug)
 
 def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, metadata={}, options={}, tryYaml=False, verbose=False):
     """Create a single PFA from a chained workflow, returning the result as an abstract syntax tree.
-- 
2.43.0


From 5705dc5b13d08b2c23a4c9499f19a1e5a5458634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:44 +0000
Subject: [PATCH 114/203] fix: the version cell of a chain is initialized from
 JSON text like the others (chains with a version were refused)

---
 titus/producer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index 8185aad..f1ffffc 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -417,7 +417,7 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
              "actionsStarted": Cell(newPlaceholder(0, AvroLong()), jsonlib.dumps(0), False, False, CellPoolSource.EMBEDDED),
              "actionsFinished": Cell(newPlaceholder(0, AvroLong()), jsonlib.dumps(0), False, False, CellPoolSource.EMBEDDED)}
     if version is not None:
-        cells["version"] = Cell(newPlaceholder(0, AvroInt()), 0, False, False, CellPoolSource.EMBEDDED)
+        cells["version"] = Cell(newPlaceholder(0, AvroInt()), jsonlib.dumps(0), False, False, CellPoolSource.EMBEDDED)
     pools = {}
 
     if verbose: sys.stderr.write(time.asctime() + " Converting scoring engine algorithm\n")
-- 
2.43.0


From c46454ade27e51353b19bf1edccba9b4ee0be76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:44 +0000
Subject: [PATCH 115/203] fix: chaining renames the pool of pool-del

---
 titus/producer/chain.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index f1ffffc..396134e 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -69,6 +69,7 @@ from titus.pfaast import CellGet
 from titus.pfaast import CellTo
 from titus.pfaast import PoolGet
 from titus.pfaast import PoolTo
+from titus.pfaast import PoolDel
 from titus.pfaast import CastCase
 from titus.pfaast import Upcast
 
@@ -504,6 +505,10 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
                               expr.to.replace(self),
                               expr.init.replace(self),
                               expr.pos)
+            elif isinstance(expr, PoolDel):
+                return PoolDel(prefixPool(i, pfa, expr.pool),
+                               expr.dell.replace(self),
+                               expr.pos)
             elif isinstance(expr, CastCase):
                 return CastCase(newPlaceholder(i, expr.avroType),
                                 expr.named,
@@ -513,7 +518,7 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
                 return Upcast(expr.expr.replace(self),
                               newPlaceholder(i, expr.avroType),
                               expr.pos)
-        genericReplacer.isDefinedAt = lambda x: isinstance(x, (FcnDef, FcnRef, FcnRefFill, CallUserFcn, Call, Literal, NewObject, CellGet, CellTo, PoolGet, PoolTo, CastCase, Upcast))
+        genericReplacer.isDefinedAt = lambda x: isinstance(x, (FcnDef, FcnRef, FcnRefFill, CallUserFcn, Call, Literal, NewObject, CellGet, CellTo, PoolGet, PoolTo, PoolDel, CastCase, Upcast))
 
         def fcnReplacer(expr):
             return genericReplacer(expr, fcnReplacer)
-- 
2.43.0


From 09d150e3a9b2302afd5dec1a69145c057c638966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:44 +0000
Subject: [PATCH 116/203] fix: chaining renames the types of new arrays and of
 what they contain

---
 titus/producer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index 396134e..e1ca5cd 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -518,7 +518,7 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
                 return Upcast(expr.expr.replace(self),
                               newPlaceholder(i, expr.avroType),
                               expr.pos)
-        genericReplacer.isDefinedAt = lambda x: isinstance(x, (FcnDef, FcnRef, FcnRefFill, CallUserFcn, Call, Literal, NewObject, CellGet, CellTo, PoolGet, PoolTo, PoolDel, CastCase, Upcast))
+        genericReplacer.isDefinedAt = lambda x: isinstance(x, (FcnDef, FcnRef, FcnRefFill, CallUserFcn, Call, Literal, NewObject, NewArray, CellGet, CellTo, PoolGet, PoolTo, PoolDel, CastCase, Upcast))
 
         def fcnReplacer(expr):
             return genericReplacer(expr, fcnReplacer)
-- 
2.43.0


From cec835126284502ce62baf9a0d7151f76ded68c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:54 +0000
Subject: [PATCH 117/203] fix: chaining accepts types that use a record more
 than once, and failed attempts to match a union leave no names behind

---
 titus/producer/chain.py | 55 ++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 28 deletions(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index e1ca5cd..25baaf9 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -286,7 +286,8 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
 
     # ensure that chained types match and will be given the same names
     if verbose: sys.stderr.write(time.asctime() + " Verifying that input/output schemas match along the chain\n")
-    def chainPair(i, first, second, memo):
+    def chainPair(first, second, names):
+        # names collects which named type of "first" corresponds to each named type of "second"
         if isinstance(first, AvroNull) and isinstance(second, AvroNull):
             return True
         elif isinstance(first, AvroBoolean) and isinstance(second, AvroBoolean):
@@ -301,39 +302,34 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
             return True
         elif isinstance(first, AvroBytes) and isinstance(second, AvroBytes):
             return True
-        elif isinstance(first, AvroFixed) and isinstance(second, AvroFixed):
-            if first.size == second.size:
-                originalNameToNewName[i + 1][second.fullName] = originalNameToNewName[i][first.fullName]
-                return True
-            else:
-                return False
         elif isinstance(first, AvroString) and isinstance(second, AvroString):
             return True
-        elif isinstance(first, AvroEnum) and isinstance(second, AvroEnum):
-            if first.symbols == second.symbols:
-                originalNameToNewName[i + 1][second.fullName] = originalNameToNewName[i][first.fullName]
-                return True
+        elif isinstance(first, (AvroFixed, AvroEnum, AvroRecord)) and type(first) == type(second):
+            if second.fullName in names:
+                return names[second.fullName] == first.fullName
+            names[second.fullName] = first.fullName
+            if isinstance(first, AvroFixed):
+                return first.size == second.size
+            elif isinstance(first, AvroEnum):
+                return first.symbols == second.symbols
             else:
-                return False
+                return (len(first.fields) == len(second.fields) and
+                        all(f1.name == f2.name and chainPair(f1.avroType, f2.avroType, names) for f1, f2 in zip(first.fields, second.fields)))
         elif isinstance(first, AvroArray) and isinstance(second, AvroArray):
-            return chainPair(i, first.items, second.items, memo)
+            return chainPair(first.items, second.items, names)
         elif isinstance(first, AvroMap) and isinstance(second, AvroMap):
-            return chainPair(i, first.values, second.values, memo)
-        elif isinstance(first, AvroRecord) and isinstance(second, AvroRecord):
-            if first.fullName not in memo:
-                memo.add(first.fullName)
-                if len(first.fields) != len(second.fields):
-                    return False
-                for f1, f2 in zip(first.fields, second.fields):
-                    if f1.name != f2.name:
-                        return False
-                    elif not chainPair(i, f1.avroType, f2.avroType, memo):
-                        return False
-                originalNameToNewName[i + 1][second.fullName] = originalNameToNewName[i][first.fullName]
-                return True
+            return chainPair(first.values, second.values, names)
         elif isinstance(first, AvroUnion) and isinstance(second, AvroUnion):
+            unused = list(first.types)
             for yt in second.types:
-                if not any(chainPair(i, xt, yt, memo) for xt in first.types):
+                # prefer the type with the same name, and do not keep names from attempts that fail
+                for xt in sorted(unused, key=lambda t: t.name != yt.name):
+                    attempt = dict(names)
+                    if chainPair(xt, yt, attempt):
+                        names.update(attempt)
+                        unused.remove(xt)
+                        break
+                else:
                     return False
             return True
         else:
@@ -341,8 +337,11 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
     for i in range(len(pfas) - 1):
         first = pfas[i].output
         second = pfas[i + 1].input
-        if not chainPair(i, first, second, set()):
+        names = {}
+        if not chainPair(first, second, names):
             raise PFAChainError("output of engine {0}: {1} not compatible with input of engine {2}: {3}".format(i + 1, ts(first), i + 2, ts(second)))
+        for secondName, firstName in names.items():
+            originalNameToNewName[i + 1][secondName] = originalNameToNewName[i][firstName]
 
     def rename(i, avroType, memo):
         if isinstance(avroType, AvroArray):
-- 
2.43.0


From e8ec5dbc99f36c668132282275c44497aa254e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:54 +0000
Subject: [PATCH 118/203] fix: chaining renames the types of user function
 parameters

---
 titus/producer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index 25baaf9..db03142 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -588,7 +588,7 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
         # convert all of the user functions into user functions
         for fcnName, fcnDef in list(pfa.fcns.items()):
             # note: some of these user-defined functions may call emit; if so, they'll call the right emit
-            fcns[prefixFcnDef(i, pfa, fcnName)] = FcnDef([{list(t.keys())[0]: newPlaceholder(i, list(t.values())[0])} for t in fcnDef.paramsPlaceholder],
+            fcns[prefixFcnDef(i, pfa, fcnName)] = FcnDef([{list(t.keys())[0]: newPlaceholder(i, list(t.values())[0])} for t in fcnDef.params],
                                                          newPlaceholder(i, fcnDef.ret),
                                                          [x.replace(fcnReplacer) for x in fcnDef.body],
                                                          fcnDef.pos)
-- 
2.43.0


From 923d7b5f6475ecddd705556cb90395436ad7f9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:54 +0000
Subject: [PATCH 119/203] fix: chaining accepts a record both inside another
 type and on its own (their nested types were written differently and refused
 as a redefinition)

---
 titus/producer/chain.py | 42 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index db03142..6bae84a 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -351,13 +351,21 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
         elif isinstance(avroType, AvroUnion):
             return [rename(i, t, memo) for t in avroType.types]
         elif isinstance(avroType, AvroFixed):
-            ns, n = split(originalNameToNewName[i][avroType.fullName])
+            newName = originalNameToNewName[i][avroType.fullName]
+            if newName in memo:
+                return newName
+            memo.add(newName)
+            ns, n = split(newName)
             out = {"type": "fixed", "name": n, "size": avroType.size}
             if ns is not None:
                 out["namespace"] = ns
             return out
         elif isinstance(avroType, AvroEnum):
-            ns, n = split(originalNameToNewName[i][avroType.fullName])
+            newName = originalNameToNewName[i][avroType.fullName]
+            if newName in memo:
+                return newName
+            memo.add(newName)
+            ns, n = split(newName)
             out = {"type": "enum", "name": n, "symbols": avroType.symbols}
             if ns is not None:
                 out["namespace"] = ns
@@ -365,13 +373,13 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
         elif isinstance(avroType, AvroRecord):
             newName = originalNameToNewName[i][avroType.fullName]
             if newName in memo:
-                return memo[newName]
+                return newName
             else:
                 ns, n = split(newName)
                 out = {"type": "record", "name": n, "fields": []}
                 if ns is not None:
                     out["namespace"] = ns
-                memo[newName] = join(ns, n)
+                memo.add(newName)
                 for f in avroType.fields:
                     newf = {"name": f.name, "type": rename(i, f.avroType, memo)}
                     if f.default is not None:
@@ -384,10 +392,30 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
             return jsonlib.loads(repr(avroType))
 
     avroTypeBuilder = AvroTypeBuilder()
-    memo = {}
+    declared = set()
+    definitions = {}
+    def checkDefinitions(i, avroType, memo):
+        if isinstance(avroType, AvroArray):
+            checkDefinitions(i, avroType.items, memo)
+        elif isinstance(avroType, AvroMap):
+            checkDefinitions(i, avroType.values, memo)
+        elif isinstance(avroType, AvroUnion):
+            for t in avroType.types:
+                checkDefinitions(i, t, memo)
+        elif isinstance(avroType, (AvroFixed, AvroEnum, AvroRecord)) and avroType.fullName not in memo:
+            memo.add(avroType.fullName)
+            newName = originalNameToNewName[i][avroType.fullName]
+            definition = rename(i, avroType, set())
+            if definitions.setdefault(newName, definition) != definition:
+                raise PFAChainError("type name {0} is defined as {1} and as {2}".format(newName, jsonlib.dumps(definitions[newName]), jsonlib.dumps(definition)))
+            if isinstance(avroType, AvroRecord):
+                for f in avroType.fields:
+                    checkDefinitions(i, f.avroType, memo)
+
     def newPlaceholder(i, oldAvroType):
-        newAvroType = rename(i, oldAvroType, {})
-        return avroTypeBuilder.makePlaceholder(jsonlib.dumps(newAvroType), memo)
+        # each named type is declared where it is first used
+        checkDefinitions(i, oldAvroType, set())
+        return avroTypeBuilder.makePlaceholder(jsonlib.dumps(rename(i, oldAvroType, declared)))
             
     # combined name, if not explicitly set
     if name is None:
-- 
2.43.0


From a01e834ad0f15ca5879e5f4956f9c62531b9b426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:54 +0000
Subject: [PATCH 120/203] fix: chaining renames types in data (union tags of
 literals, cells and pools, which were refused) and keeps null defaults;
 engines with embedded pools can be chained

---
 titus/producer/chain.py | 56 ++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 31 deletions(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index 6bae84a..34bd713 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -46,8 +46,6 @@ from titus.datatype import AvroRecord
 from titus.datatype import AvroUnion
 from titus.datatype import AvroField
 from titus.datatype import AvroTypeBuilder
-from titus.datatype import jsonDecoder
-from titus.datatype import jsonEncoder
 
 from titus.pfaast import Method
 from titus.pfaast import EngineConfig
@@ -382,8 +380,10 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
                 memo.add(newName)
                 for f in avroType.fields:
                     newf = {"name": f.name, "type": rename(i, f.avroType, memo)}
-                    if f.default is not None:
-                        newf["default"] = f.default
+                    if f.schema.has_default:
+                        # the default of a union is an untagged value of its first branch
+                        defaultType = f.avroType.types[0] if isinstance(f.avroType, AvroUnion) else f.avroType
+                        newf["default"] = renameTags(i, defaultType, f.default)
                     if f.order is not None:
                         newf["order"] = f.order
                     out["fields"].append(newf)
@@ -391,6 +391,24 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
         else:
             return jsonlib.loads(repr(avroType))
 
+    # names of types appear in data as the tags of unions
+    def renameTags(i, avroType, value):
+        if isinstance(avroType, AvroArray) and isinstance(value, (list, tuple)):
+            return [renameTags(i, avroType.items, x) for x in value]
+        elif isinstance(avroType, AvroMap) and isinstance(value, dict):
+            return dict((k, renameTags(i, avroType.values, v)) for k, v in value.items())
+        elif isinstance(avroType, AvroRecord) and isinstance(value, dict):
+            fieldTypes = dict((f.name, f.avroType) for f in avroType.fields)
+            return dict((k, renameTags(i, fieldTypes[k], v) if k in fieldTypes else v) for k, v in value.items())
+        elif isinstance(avroType, AvroUnion) and isinstance(value, dict) and len(value) == 1:
+            (tag, v), = value.items()
+            for t in avroType.types:
+                if isinstance(t, (AvroFixed, AvroEnum, AvroRecord)) and tag in (t.name, t.fullName):
+                    return {originalNameToNewName[i][t.fullName]: renameTags(i, t, v)}
+                elif t.name == tag:
+                    return {tag: renameTags(i, t, v)}
+        return value
+
     avroTypeBuilder = AvroTypeBuilder()
     declared = set()
     definitions = {}
@@ -503,7 +521,7 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
                                 expr.pos)
             elif isinstance(expr, Literal):
                 return Literal(newPlaceholder(i, expr.avroType),
-                               expr.value,
+                               jsonlib.dumps(renameTags(i, expr.avroType, jsonlib.loads(expr.value))),
                                expr.pos)
             elif isinstance(expr, NewObject):
                 return NewObject(dict((k, v.replace(self)) for k, v in list(expr.fields.items())),
@@ -630,10 +648,7 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
             newCell = Cell(newPlaceholder(i, cell.avroType), cell.init, cell.shared, cell.rollback, cell.source, cell.pos)
             cells[prefixCell(i, pfa, cellName)] = newCell
             if cell.source == "embedded":
-                def converter(avroType):
-                    original = jsonDecoder(cell.avroType, jsonlib.loads(cell.init))
-                    return jsonlib.dumps(jsonEncoder(avroType, original))
-                newCell.converter = converter
+                newCell.init = jsonlib.dumps(renameTags(i, cell.avroType, jsonlib.loads(cell.init)))
                 
     for i, pfa in enumerate(pfas):
         if verbose and len(pfa.pools) > 0: sys.stderr.write(time.asctime() + "     step {0}:\n".format(i + 1))
@@ -642,33 +657,12 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
             newPool = Pool(newPlaceholder(i, pool.avroType), pool.init, pool.shared, pool.rollback, pool.source, pool.pos)
             pools[prefixPool(i, pfa, poolName)] = newPool
             if pool.source == "embedded":
-                def converter(avroType):
-                    original = jsonDecoder(pool.avroType, jsonlib.loads(pool.init))
-                    return jsonlib.dumps(jsonEncoder(avroType, original))
-                newPool.converter = converter
+                newPool.init = dict((k, jsonlib.dumps(renameTags(i, pool.avroType, jsonlib.loads(v)))) for k, v in pool.init.items())
                 
     # make sure all the types work together
     if verbose: sys.stderr.write(time.asctime() + " Resolving all types\n")
     avroTypeBuilder.resolveTypes()
 
-    if verbose: sys.stderr.write(time.asctime() + " Converting the model parameters themselves\n")
-
-    for i, pfa in enumerate(pfas):
-        if verbose and len(pfa.cells) > 0: sys.stderr.write(time.asctime() + "     step {0}:\n".format(i + 1))
-        for cellName, cell in list(pfa.cells.items()):
-            if verbose: sys.stderr.write(time.asctime() + "         cell {0}\n".format(cellName))
-            if cell.source == "embedded":
-                newCell = cells[prefixCell(i, pfa, cellName)]
-                newCell.init = newCell.converter(newCell.avroType)
-
-    for i, pfa in enumerate(pfas):
-        if verbose and len(pfa.pools) > 0: sys.stderr.write(time.asctime() + "     step {0}:\n".format(i + 1))
-        for poolName, pool in list(pfa.pools.items()):
-            if verbose: sys.stderr.write(time.asctime() + "         pool {0}\n".format(poolName))
-            if pool.source == "embedded":
-                newPool = pools[prefixPool(i, pfa, poolName)]
-                newPool.init = newPool.converter(newPool.avroType)
-
     # randseed, doc, version, metadata, and options need to be explicitly set
 
     # return a (possibly checked) AST
-- 
2.43.0


From f168b789aa9d02637b0e2842f2b7c8c76dd30d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:54 +0000
Subject: [PATCH 121/203] fix: the begin and end routines of chained engines
 have their own variables (engines with the same variable names were refused)

---
 titus/producer/chain.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index 34bd713..3d40d63 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -581,7 +581,8 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
             else:
                 return genericReplacer(expr, beginReplacer)
         beginReplacer.isDefinedAt = lambda x: isinstance(x, Ref) or genericReplacer.isDefinedAt(x)
-        begin.extend([x.replace(beginReplacer) for x in pfa.begin])
+        if len(pfa.begin) > 0:
+            begin.append(Do([x.replace(beginReplacer) for x in pfa.begin]))
 
         # add statements to end
         def endReplacer(expr):
@@ -593,7 +594,8 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
             else:
                 return genericReplacer(expr, endReplacer)
         endReplacer.isDefinedAt = lambda x: isinstance(x, Ref) or genericReplacer.isDefinedAt(x)
-        end.extend([x.replace(endReplacer) for x in pfa.end])
+        if len(pfa.end) > 0:
+            end.append(Do([x.replace(endReplacer) for x in pfa.end]))
 
         # convert the action into a user function
         def actionReplacer(expr):
-- 
2.43.0


From 2c4ff5cc83f9d7ed751eac11b50890b8461d411a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:24 +0000
Subject: [PATCH 122/203] fix: inline functions of a chained engine may refer
 to its name, instance, metadata and counters (the chain was refused)

---
 titus/producer/chain.py | 72 +++++++++++++++++------------------------
 1 file changed, 30 insertions(+), 42 deletions(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index 3d40d63..e3988bf 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -493,14 +493,8 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
             nextActionFcnName = None
 
         # this is a closure; it must be defined in the loop to pick up free variables
-        lazyFcnReplacer = None
         def genericReplacer(expr, self):
-            if isinstance(expr, FcnDef):
-                return FcnDef([{list(t.keys())[0]: newPlaceholder(i, list(t.values())[0])} for t in expr.params],
-                              newPlaceholder(i, expr.ret),
-                              [x.replace(lazyFcnReplacer) for x in expr.body],     # this is the one place where we should pass down fcnReplacer rather than self
-                              expr.pos)
-            elif isinstance(expr, FcnRef):
+            if isinstance(expr, FcnRef):
                 return FcnRef(prefixFcnRef(i, pfa, expr.name), expr.pos)
             elif isinstance(expr, FcnRefFill):
                 return FcnRefFill(prefixFcnRef(i, pfa, expr.name),
@@ -563,51 +557,45 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
                 return Upcast(expr.expr.replace(self),
                               newPlaceholder(i, expr.avroType),
                               expr.pos)
-        genericReplacer.isDefinedAt = lambda x: isinstance(x, (FcnDef, FcnRef, FcnRefFill, CallUserFcn, Call, Literal, NewObject, NewArray, CellGet, CellTo, PoolGet, PoolTo, PoolDel, CastCase, Upcast))
-
-        def fcnReplacer(expr):
-            return genericReplacer(expr, fcnReplacer)
-        fcnReplacer.isDefinedAt = genericReplacer.isDefinedAt
-
-        lazyFcnReplacer = fcnReplacer
+        genericReplacer.isDefinedAt = lambda x: isinstance(x, (FcnRef, FcnRefFill, CallUserFcn, Call, Literal, NewObject, NewArray, CellGet, CellTo, PoolGet, PoolTo, PoolDel, CastCase, Upcast))
+
+        # replace references to the names that the chain keeps in cells, except where a function parameter hides them
+        def makeReplacer(names):
+            def replacer(expr):
+                if isinstance(expr, Ref):
+                    if expr.name in names:
+                        return CellGet(expr.name, [], expr.pos)
+                    else:
+                        return expr
+                elif isinstance(expr, FcnDef):
+                    hidden = set(list(t.keys())[0] for t in expr.params)
+                    return FcnDef([{list(t.keys())[0]: newPlaceholder(i, list(t.values())[0])} for t in expr.params],
+                                  newPlaceholder(i, expr.ret),
+                                  [x.replace(makeReplacer(names - hidden)) for x in expr.body],
+                                  expr.pos)
+                else:
+                    return genericReplacer(expr, replacer)
+            replacer.isDefinedAt = lambda x: isinstance(x, (Ref, FcnDef)) or genericReplacer.isDefinedAt(x)
+            return replacer
+
+        beginNames = set(["name", "instance", "metadata"])
+        if version is not None:
+            beginNames.add("version")
+        actionNames = beginNames.union(["actionsStarted", "actionsFinished"])
+        beginReplacer = makeReplacer(beginNames)
+        actionReplacer = makeReplacer(actionNames)
+        endReplacer = makeReplacer(actionNames)
+        fcnReplacer = makeReplacer(set())
 
         # add statements to begin
-        def beginReplacer(expr):
-            if isinstance(expr, Ref):
-                if expr.name in ("name", "instance", "metadata") or (version is not None and expr.name == "version"):
-                    return CellGet(expr.name, [], expr.pos)
-                else:
-                    return expr
-            else:
-                return genericReplacer(expr, beginReplacer)
-        beginReplacer.isDefinedAt = lambda x: isinstance(x, Ref) or genericReplacer.isDefinedAt(x)
         if len(pfa.begin) > 0:
             begin.append(Do([x.replace(beginReplacer) for x in pfa.begin]))
 
         # add statements to end
-        def endReplacer(expr):
-            if isinstance(expr, Ref):
-                if expr.name in ("name", "instance", "metadata", "actionsStarted", "actionsFinished") or (version is not None and expr.name == "version"):
-                    return CellGet(expr.name, [], expr.pos)
-                else:
-                    return expr
-            else:
-                return genericReplacer(expr, endReplacer)
-        endReplacer.isDefinedAt = lambda x: isinstance(x, Ref) or genericReplacer.isDefinedAt(x)
         if len(pfa.end) > 0:
             end.append(Do([x.replace(endReplacer) for x in pfa.end]))
 
         # convert the action into a user function
-        def actionReplacer(expr):
-            if isinstance(expr, Ref):
-                if expr.name in ("name", "instance", "metadata", "actionsStarted", "actionsFinished") or (version is not None and expr.name == "version"):
-                    return CellGet(expr.name, [], expr.pos)
-                else:
-                    return expr
-            else:
-                return genericReplacer(expr, actionReplacer)
-        actionReplacer.isDefinedAt = lambda x: isinstance(x, Ref) or genericReplacer.isDefinedAt(x)
-
         body = [x.replace(actionReplacer) for x in pfa.action]
 
         if method == Method.MAP:
-- 
2.43.0


From ffee3112d1d89925a2f7eccf1fccb7c886a7a167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:08 +0000
Subject: [PATCH 123/203] fix: what a map engine in a chain with emit engines
 returns is converted to its output type before it is passed on

---
 titus/producer/chain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index e3988bf..d76b2cd 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -611,9 +611,9 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
             # if the overall method is EMIT, then some individual engines might be MAP or might be EMIT
             # the overall action calls the first engine-as-a-function and the engines-as-functions call each other (body is modified)
             if pfa.method == Method.MAP and i + 1 < len(pfas):
-                body = [Call("u." + nextActionFcnName, [Do(body)]), LiteralNull()]
+                body = [Call("u." + nextActionFcnName, [Upcast(Do(body), newPlaceholder(i, pfa.output))]), LiteralNull()]
             elif pfa.method == Method.MAP:
-                body = [Call("emit", [Do(body)])]
+                body = [Call("emit", [Upcast(Do(body), newPlaceholder(i, pfa.output))])]
             elif pfa.method == Method.EMIT:
                 body.append(LiteralNull())
 
-- 
2.43.0


From 86acfb0353bae5456e3b413011da0587218f401a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:36 +0000
Subject: [PATCH 124/203] fix: a reference to the emit function in a chained
 engine passes values to the next engine (it emitted them from the chain)

---
 titus/producer/chain.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index d76b2cd..348eb13 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -495,7 +495,10 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
         # this is a closure; it must be defined in the loop to pick up free variables
         def genericReplacer(expr, self):
             if isinstance(expr, FcnRef):
-                return FcnRef(prefixFcnRef(i, pfa, expr.name), expr.pos)
+                if pfa.method == Method.EMIT and i + 1 < len(pfas) and expr.name == "emit":
+                    return FcnRef("u." + nextActionFcnName, expr.pos)
+                else:
+                    return FcnRef(prefixFcnRef(i, pfa, expr.name), expr.pos)
             elif isinstance(expr, FcnRefFill):
                 return FcnRefFill(prefixFcnRef(i, pfa, expr.name),
                                   dict((k, v.replace(self)) for k, v in list(expr.fill.items())),
-- 
2.43.0


From a0b62a08798be8e7b292c9e53f567c0f59379ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:39 +0000
Subject: [PATCH 125/203] fix: types whose fields have null, true or false
 defaults, or quotes in their defaults, can be used in function calls, casts
 and ifnotnull (JSON was written as Python code)

---
 titus/fcn.py             |  7 ++++++-
 titus/genpy.py           |  8 ++++----
 titus/lib/core.py        |  5 +++--
 titus/lib/stat/sample.py | 13 +++++++------
 4 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/titus/fcn.py b/titus/fcn.py
index 9497475..80f4ba2 100644
--- a/titus/fcn.py
+++ b/titus/fcn.py
@@ -17,8 +17,13 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import json
 import sys
 
+def reprTypes(types):
+    """Python source for the JSON form of a list of types (``null``, ``true`` and ``false`` are not Python)."""
+    return repr(json.loads(repr(types)))
+
 class Fcn(object):
     """Trait for a function in PFA: could be a library function, user-defined function, or emit."""
     def genpy(self, paramTypes, args, pos):
@@ -31,7 +36,7 @@ class LibFcn(Fcn):
     name = None
     def genpy(self, paramTypes, args, pos):
         """Generate an executable Python string for this function; usually ```self.f["function name"](arguments...)```."""
-        return "self.f[{0}]({1})".format(repr(self.name), ", ".join(["state", "scope", repr(pos), repr(paramTypes)] + args))
+        return "self.f[{0}]({1})".format(repr(self.name), ", ".join(["state", "scope", repr(pos), reprTypes(paramTypes)] + args))
     def __call__(self, *args):
         """Call this library function; the first two arguments are always ``state`` (titus.genpy.ExecutionState) and ``scope`` (titus.util.DynamicScope)."""
         raise NotImplementedError
diff --git a/titus/genpy.py b/titus/genpy.py
index 1d6914d..3083b67 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -436,10 +436,10 @@ class GeneratePython(titus.pfaast.Task):
             return "doForkeyval(state, scope, {0}, {1}, {2}, lambda state, scope: do({3}))".format(repr(context.forkey), repr(context.forval), context.objExpr, ", ".join(context.loopBody))
 
         elif isinstance(context, CastCase.Context):
-            return "(" + repr(context.name) + ", " + repr(context.toType) + ", lambda state, scope: do(" + ", ".join(context.clause) + "))"
+            return "(" + repr(context.name) + ", " + repr(json.loads(repr(context.toType))) + ", lambda state, scope: do(" + ", ".join(context.clause) + "))"
 
         elif isinstance(context, CastBlock.Context):
-            return "cast(state, scope, " + context.expr + ", " + repr(context.exprType) + ", [" + ", ".join(caseRes for castCtx, caseRes in context.cases) + "], " + repr(context.partial) + ", self.parser)"
+            return "cast(state, scope, " + context.expr + ", " + repr(json.loads(repr(context.exprType))) + ", [" + ", ".join(caseRes for castCtx, caseRes in context.cases) + "], " + repr(context.partial) + ", self.parser)"
 
         elif isinstance(context, Upcast.Context):
             if isinstance(context.retType, titus.datatype.AvroUnion) and not isinstance(context.originalType, titus.datatype.AvroUnion):
@@ -452,9 +452,9 @@ class GeneratePython(titus.pfaast.Task):
 
         elif isinstance(context, IfNotNull.Context):
             if context.elseClause is None:
-                return "ifNotNull(state, scope, {" + ", ".join(repr(n) + ": " + e for n, t, e in context.symbolTypeResult) + "}, {" + ", ".join(repr(n) + ": '" + repr(t) + "'" for n, t, e in context.symbolTypeResult) + "}, lambda state, scope: do(" + ", ".join(context.thenClause) + "))"
+                return "ifNotNull(state, scope, {" + ", ".join(repr(n) + ": " + e for n, t, e in context.symbolTypeResult) + "}, {" + ", ".join(repr(n) + ": " + repr(repr(t)) for n, t, e in context.symbolTypeResult) + "}, lambda state, scope: do(" + ", ".join(context.thenClause) + "))"
             else:
-                return "ifNotNullElse(state, scope, {" + ", ".join(repr(n) + ": " + e for n, t, e in context.symbolTypeResult) + "}, {" + ", ".join(repr(n) + ": '" + repr(t) + "'" for n, t, e in context.symbolTypeResult) + "}, lambda state, scope: do(" + ", ".join(context.thenClause) + "), lambda state, scope: do(" + ", ".join(context.elseClause) + "))"
+                return "ifNotNullElse(state, scope, {" + ", ".join(repr(n) + ": " + e for n, t, e in context.symbolTypeResult) + "}, {" + ", ".join(repr(n) + ": " + repr(repr(t)) for n, t, e in context.symbolTypeResult) + "}, lambda state, scope: do(" + ", ".join(context.thenClause) + "), lambda state, scope: do(" + ", ".join(context.elseClause) + "))"
 
         elif isinstance(context, Pack.Context):
             return "pack(state, scope, [" + ", ".join("(" + str(d.value) + ", " + str(d) + ")" for d in context.exprsDeclareRes) + "], " + repr(context.pos) + ")"
diff --git a/titus/lib/core.py b/titus/lib/core.py
index d09fa57..13fba1f 100644
--- a/titus/lib/core.py
+++ b/titus/lib/core.py
@@ -22,6 +22,7 @@ import math
 from titus.errors import PFARuntimeException
 from titus.fcn import Fcn
 from titus.fcn import LibFcn
+from titus.fcn import reprTypes
 from titus.signature import Sig
 from titus.signature import Sigs
 from titus.datatype import *
@@ -352,7 +353,7 @@ class KleeneAnd(LibFcn):
     sig = Sig([{"x": P.Union([P.Boolean(), P.Null()])}, {"y": P.Union([P.Boolean(), P.Null()])}], P.Union([P.Boolean(), P.Null()]))
     errcodeBase = 18220
     def genpy(self, paramTypes, args, pos):
-        return """self.f["&&&"](state, scope, {0}, {1}, lambda: ({2}), lambda: ({3}))""".format(*([repr(pos), repr(paramTypes)] + args))
+        return """self.f["&&&"](state, scope, {0}, {1}, lambda: ({2}), lambda: ({3}))""".format(*([repr(pos), reprTypes(paramTypes)] + args))
     def __call__(self, state, scope, pos, paramTypes, x, y):
         xval = x() if callable(x) else x    # not a thunk if called by reference
         if xval is False or xval == {"boolean": False}:
@@ -371,7 +372,7 @@ class KleeneOr(LibFcn):
     sig = Sig([{"x": P.Union([P.Boolean(), P.Null()])}, {"y": P.Union([P.Boolean(), P.Null()])}], P.Union([P.Boolean(), P.Null()]))
     errcodeBase = 18230
     def genpy(self, paramTypes, args, pos):
-        return """self.f["|||"](state, scope, {0}, {1}, lambda: ({2}), lambda: ({3}))""".format(*([repr(pos), repr(paramTypes)] + args))
+        return """self.f["|||"](state, scope, {0}, {1}, lambda: ({2}), lambda: ({3}))""".format(*([repr(pos), reprTypes(paramTypes)] + args))
     def __call__(self, state, scope, pos, paramTypes, x, y):
         xval = x() if callable(x) else x    # not a thunk if called by reference
         if xval is True or xval == {"boolean": True}:
diff --git a/titus/lib/stat/sample.py b/titus/lib/stat/sample.py
index f5ccd3b..cc74082 100644
--- a/titus/lib/stat/sample.py
+++ b/titus/lib/stat/sample.py
@@ -21,6 +21,7 @@ import math
 
 from titus.fcn import Fcn
 from titus.fcn import LibFcn
+from titus.fcn import reprTypes
 from titus.signature import Sig
 from titus.signature import Sigs
 from titus.datatype import *
@@ -60,7 +61,7 @@ class UpdateMeanVariance(LibFcn):
             level = 2
         elif (hasMean, hasVariance) == (False, True):
             raise PFASemanticException(prefix + "update with \"variance\" must also have \"mean\" in the state record type", None)
-        return "self.f[{0}]({1}, {2})".format(repr(self.name), ", ".join(["state", "scope", repr(pos), repr(paramTypes)] + args), level)
+        return "self.f[{0}]({1}, {2})".format(repr(self.name), ", ".join(["state", "scope", repr(pos), reprTypes(paramTypes)] + args), level)
 
 class Update(UpdateMeanVariance):
     name = prefix + "update"
@@ -283,7 +284,7 @@ class UpdateEWMA(LibFcn):
                 if not x.avroType.accepts(AvroDouble()):
                     raise PFASemanticException(self.name + " is being given a state record type in which the \"variance\" field is not a double: " + str(x.avroType), None)
                 hasVariance = True
-        return "self.f[{0}]({1}, {2})".format(repr(self.name), ", ".join(["state", "scope", repr(pos), repr(paramTypes)] + args), hasVariance)
+        return "self.f[{0}]({1}, {2})".format(repr(self.name), ", ".join(["state", "scope", repr(pos), reprTypes(paramTypes)] + args), hasVariance)
 
     def __call__(self, state, scope, pos, paramTypes, x, alpha, theState, hasVariance):
         if alpha < 0.0 or alpha > 1.0:
@@ -371,7 +372,7 @@ class Forecast1HoltWinters(LibFcn):
         if hasCycle ^ hasMultiplicative:
             raise PFASemanticException(self.name + " is being given a state record type with a \"cycle\" but no \"multiplicative\" or vice-versa", None)
 
-        return "self.f[{0}]({1}, {2})".format(repr(self.name), ", ".join(["state", "scope", repr(pos), repr(paramTypes)] + args), hasCycle)
+        return "self.f[{0}]({1}, {2})".format(repr(self.name), ", ".join(["state", "scope", repr(pos), reprTypes(paramTypes)] + args), hasCycle)
 
     def __call__(self, state, scope, pos, paramTypes, theState, hasPeriodic):
         level = theState["level"]
@@ -413,7 +414,7 @@ class ForecastHoltWinters(LibFcn):
         if hasCycle ^ hasMultiplicative:
             raise PFASemanticException(self.name + " is being given a state record type with a \"cycle\" but no \"multiplicative\" or vice-versa", None)
 
-        return "self.f[{0}]({1}, {2})".format(repr(self.name), ", ".join(["state", "scope", repr(pos), repr(paramTypes)] + args), hasCycle)
+        return "self.f[{0}]({1}, {2})".format(repr(self.name), ", ".join(["state", "scope", repr(pos), reprTypes(paramTypes)] + args), hasCycle)
 
     def __call__(self, state, scope, pos, paramTypes, n, theState, hasPeriodic):
         level = theState["level"]
@@ -474,7 +475,7 @@ class FillHistogram(LibFcn):
         hasNanflow = has("nanflow", AvroDouble())
         hasInfflow = has("infflow", AvroDouble())
 
-        return "self.f[{0}]({1}, {2}, {3}, {4}, {5}, {6})".format(repr(self.name), ", ".join(["state", "scope", repr(pos), repr(paramTypes)] + args), method, hasUnderflow, hasOverflow, hasNanflow, hasInfflow)
+        return "self.f[{0}]({1}, {2}, {3}, {4}, {5}, {6})".format(repr(self.name), ", ".join(["state", "scope", repr(pos), reprTypes(paramTypes)] + args), method, hasUnderflow, hasOverflow, hasNanflow, hasInfflow)
 
     def updateHistogram(self, w, histogram, newValues, hasUnderflow, hasOverflow, hasNanflow, hasInfflow, underflow, overflow, nanflow, infflow):
         updator = {"values": newValues}
@@ -607,7 +608,7 @@ class FillHistogram2d(LibFcn):
             return False
 
         return "self.f[{0}]({1}, {2}, {3}, {4}, {5}, {6}, {7}, {8}, {9}, {10}, {11})".format(
-            repr(self.name), ", ".join(["state", "scope", repr(pos), repr(paramTypes)] + args),
+            repr(self.name), ", ".join(["state", "scope", repr(pos), reprTypes(paramTypes)] + args),
             has("underunderflow"),
             has("undermidflow"),
             has("underoverflow"),
-- 
2.43.0


From aca6c01702d59433b7c91e9fc9b2fae31971a643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:39 +0000
Subject: [PATCH 126/203] fix: chaining reads external cells and pools with the
 type names of their engine (the chain was refused)

---
 titus/producer/chain.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index 348eb13..7b96232 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -409,6 +409,10 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
                     return {tag: renameTags(i, t, v)}
         return value
 
+    # the same for data in an external file, which use the original names
+    def externalInit(i, avroType, init):
+        return lambda newAvroType: jsonlib.dumps(renameTags(i, avroType, jsonlib.loads(init(avroType))))
+
     avroTypeBuilder = AvroTypeBuilder()
     declared = set()
     definitions = {}
@@ -642,6 +646,8 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
             cells[prefixCell(i, pfa, cellName)] = newCell
             if cell.source == "embedded":
                 newCell.init = jsonlib.dumps(renameTags(i, cell.avroType, jsonlib.loads(cell.init)))
+            else:
+                newCell.init = externalInit(i, cell.avroType, cell.init)
                 
     for i, pfa in enumerate(pfas):
         if verbose and len(pfa.pools) > 0: sys.stderr.write(time.asctime() + "     step {0}:\n".format(i + 1))
@@ -651,6 +657,8 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
             pools[prefixPool(i, pfa, poolName)] = newPool
             if pool.source == "embedded":
                 newPool.init = dict((k, jsonlib.dumps(renameTags(i, pool.avroType, jsonlib.loads(v)))) for k, v in pool.init.items())
+            else:
+                newPool.init = externalInit(i, AvroMap(pool.avroType), pool.init)
                 
     # make sure all the types work together
     if verbose: sys.stderr.write(time.asctime() + " Resolving all types\n")
-- 
2.43.0


From 7c3d102ade7395d4982d4e9d710a87d5a13ec92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:30 +0000
Subject: [PATCH 127/203] fix: the types of fill arguments in a partially
 applied function are checked

---
 titus/pfaast.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index 3080c12..389632c 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -1746,6 +1746,11 @@ class FcnRefFill(Argument):
             if not fillNames.issubset(set(originalParamNames)):
                 raise PFASemanticException("fill argument names (\"{0}\") are not a subset of function \"{1}\" parameter names (\"{2}\")".format("\", \"".join(sorted(fillNames)), self.name, "\", \"".join(originalParamNames)), self.pos)
 
+            filled = [p for p in params if list(p.keys())[0] in fillNames]
+            filledTypes = [argTypeResult[list(p.keys())[0]][0] for p in filled]
+            if Sig(filled, ret).accepts(filledTypes, version) is None:
+                raise PFASemanticException("parameters of function \"{0}\" do not accept fill arguments [{1}]".format(self.name, ", ".join(ts(x) for x in filledTypes)), self.pos)
+
             fcnType = FcnType([P.mustBeAvro(P.toType(list(p.values())[0])) for p in params if list(p.keys())[0] not in fillNames], P.mustBeAvro(P.toType(ret)))
         except IncompatibleTypes:
             raise PFASemanticException("only one-signature functions without constraints can be referenced (wrap \"{0}\" in a function definition with the desired signature)".format(self.name), self.pos)
-- 
2.43.0


From 2143f1fc027d1709fb0db1441df9b4b144031653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:30 +0000
Subject: [PATCH 128/203] fix: a partially applied function may leave function
 parameters unfilled, as a plain reference does (TypeError)

---
 titus/pfaast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index 389632c..923bd79 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -1751,7 +1751,7 @@ class FcnRefFill(Argument):
             if Sig(filled, ret).accepts(filledTypes, version) is None:
                 raise PFASemanticException("parameters of function \"{0}\" do not accept fill arguments [{1}]".format(self.name, ", ".join(ts(x) for x in filledTypes)), self.pos)
 
-            fcnType = FcnType([P.mustBeAvro(P.toType(list(p.values())[0])) for p in params if list(p.keys())[0] not in fillNames], P.mustBeAvro(P.toType(ret)))
+            fcnType = FcnType([P.toType(list(p.values())[0]) for p in params if list(p.keys())[0] not in fillNames], P.mustBeAvro(P.toType(ret)))
         except IncompatibleTypes:
             raise PFASemanticException("only one-signature functions without constraints can be referenced (wrap \"{0}\" in a function definition with the desired signature)".format(self.name), self.pos)
 
-- 
2.43.0


From 197857bf8179c191c26906d96f0fd025998c8017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:57 +0000
Subject: [PATCH 129/203] fix: brackets after an expression bind tighter than
 operators in PrettyPFA (a + f(x)[0] was read as (a + f(x))[0])

---
 titus/prettypfa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/titus/prettypfa.py b/titus/prettypfa.py
index dbe7ff3..fa5d55f 100644
--- a/titus/prettypfa.py
+++ b/titus/prettypfa.py
@@ -1633,7 +1633,8 @@ class Parser(object):
                       ("left", "PLUS", "MINUS"),
                       ("left", "TIMES", "FDIV", "IDIV", "MOD", "REM"),
                       ("right", "UMINUS", "BITNOT"),
-                      ("left", "POW")]
+                      ("left", "POW"),
+                      ("left", "LBRACKET")]
 
         def p_expression_replacement(p):
             r'''expression : REPLACEMENT'''
-- 
2.43.0


From d59721dfcdd689a192cac3033a45c78c109d8f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:57 +0000
Subject: [PATCH 130/203] fix: PrettyPFA section headings are recognized after
 carriage returns

---
 titus/prettypfa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/prettypfa.py b/titus/prettypfa.py
index fa5d55f..5d2706b 100644
--- a/titus/prettypfa.py
+++ b/titus/prettypfa.py
@@ -1256,7 +1256,7 @@ class Parser(object):
             def t_SECTION_HEADER(t):
                 r"(\r\n?|\n)+[a-z]+:"
                 t.lexer.lineno += len(re.findall(r"(\r\n?|\n)", t.value))
-                t.value = Token("SECTION_HEADER", t.value.lstrip("\n")[:-1], t.lexer.lineno)
+                t.value = Token("SECTION_HEADER", t.value.lstrip("\r\n")[:-1], t.lexer.lineno)
                 return t
 
         def t_DOTNAME(t):
-- 
2.43.0


From a2b6165f9c55366f0d91b35072bbd7c3dfb6abe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:21 +0000
Subject: [PATCH 131/203] fix: a minus sign between an operand and a number is
 subtraction in PrettyPFA (x-1 and x -1 were syntax errors)

---
 titus/prettypfa.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/titus/prettypfa.py b/titus/prettypfa.py
index 5d2706b..5847db9 100644
--- a/titus/prettypfa.py
+++ b/titus/prettypfa.py
@@ -1239,6 +1239,8 @@ class Parser(object):
 
         literals = [",", ";", ":", "=", "@"]
 
+        operands = ["NUMBER", "STRING", "RAWSTRING", "REPLACEMENT", "DOTNAME", "RPAREN", "RBRACKET", "RCURLY"]
+
         def insertArrow(lines, which):
             lines[which] = lines[which] + "     <----"
             return lines
@@ -1270,6 +1272,12 @@ class Parser(object):
 
         def t_NUMBER(t):
             r"-?(0|[1-9][0-9]*)(\.[0-9]*)?([eE][-+]?[0-9]+)?"
+            if t.value.startswith("-") and self.previous in operands:
+                # the minus sign is an operator (x-1), unless what precedes it is not an operand after all (if (x) -1)
+                t.lexer.lexpos -= len(t.value) - 1
+                t.type = "MINUS"
+                t.value = Token("MINUS", "NUMBER", t.lexer.lineno)
+                return t
             try:
                 t.value = Token("NUMBER", int(t.value), t.lexer.lineno)
             except ValueError:
@@ -1452,6 +1460,13 @@ class Parser(object):
 
         self.lexer = lex.lex()
 
+        nextToken = self.lexer.token
+        def token():
+            out = nextToken()
+            self.previous = None if out is None else out.type
+            return out
+        self.lexer.token = token
+
         if self.wholeDocument:
             def p_document(p):
                 r'''document : sections'''
@@ -1648,7 +1663,10 @@ class Parser(object):
         def p_expression_uminus(p):
             r'''expression : MINUS expression %prec UMINUS'''
             op, expr = p[1:]
-            p[0] = MiniCall("u-", [expr], op.lineno, op.lineno)
+            if op.v == "NUMBER" and isinstance(expr, MiniNumber):
+                p[0] = MiniNumber(-expr.value, op.lineno)
+            else:
+                p[0] = MiniCall("u-", [expr], op.lineno, op.lineno)
 
         def p_expression_bitnot(p):
             r'''expression : BITNOT expression'''
@@ -2121,6 +2139,7 @@ class Parser(object):
         """
 
         self.lexer.lineno = 1
+        self.previous = None
         self.text = text
         self.subs = subs
         out = self.yacc.parse(text, lexer=self.lexer)
-- 
2.43.0


From 7d88bc8f7705043a112a5044c567a13b2b286f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:21 +0000
Subject: [PATCH 132/203] fix: integers that do not fit an int are long in
 PrettyPFA, as they are in JSON

---
 titus/prettypfa.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/titus/prettypfa.py b/titus/prettypfa.py
index 5847db9..5a74208 100644
--- a/titus/prettypfa.py
+++ b/titus/prettypfa.py
@@ -495,7 +495,10 @@ class MiniNumber(MiniAst):
         return "MiniNumber({0})".format(repr(self.value))
     def asExpr(self, state):
         if isinstance(self.value, int):
-            return LiteralInt(self.value, self.pos)
+            if -2**31 <= self.value < 2**31:
+                return LiteralInt(self.value, self.pos)
+            else:
+                return LiteralLong(self.value, self.pos)
         else:
             return LiteralDouble(self.value, self.pos)
     def asJson(self):
-- 
2.43.0


From be70fedcdfcdc5e5232803836c0f9d08ffb74f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:10 +0000
Subject: [PATCH 133/203] fix: PrettyPFA substitutions know the names and types
 of the document they are inserted in

---
 titus/prettypfa.py | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/titus/prettypfa.py b/titus/prettypfa.py
index 5a74208..fae7aed 100644
--- a/titus/prettypfa.py
+++ b/titus/prettypfa.py
@@ -88,6 +88,7 @@ from titus.errors import PFASyntaxException
 from titus.errors import PrettyPfaException
 from titus.genpy import PFAEngine
 import titus.pfaast
+import titus.reader
 import titus.util
 from titus.util import avscToPretty, bytesToString
 from titus.reader import jsonToAst
@@ -334,14 +335,21 @@ class ResolvedSubs(Token, MiniAst):
         if isinstance(self.value, Ast):
             return self.value
         elif isinstance(self.value, str):
-            return ppfa(self.value)
+            return _single(_parseExpressions(self.value, {}, state))
         else:
-            return pfa(self.value)
+            return titus.reader._readExpression(self.value, "", _SharedTypes(state))
     def asType(self, state):
         return self.value
     def asJson(self):
         return self.value
 
+class _SharedTypes(object):
+    """Makes the types of a substitution part of the document it is inserted in; used internally."""
+    def __init__(self, state):
+        self.state = state
+    def makePlaceholder(self, avroJsonString):
+        return self.state.avroTypeBuilder.makePlaceholder(avroJsonString, self.state.avroTypeMemo)
+
 class MiniGenGet(MiniAst):
     """Mini-AST element representing a general PFA attr special form."""
     def __init__(self, expr, args, low, high):
@@ -2130,13 +2138,15 @@ class Parser(object):
         self.yacc = yacc.yacc(debug=False, write_tables=False)
         self.initialized = True
 
-    def parse(self, text, subs):
+    def parse(self, text, subs, state=None):
         """Parse the given text, returning a PFA abstract syntax tree.
 
         :type text: string
         :param text: command line to parse
         :type subs: dict of substitutions
         :param subs: substitutions to apply to any strings in ``<<French quotes>>``
+        :type state: titus.prettypfa.InterpretationState or ``None``
+        :param state: names and types of the document that the expressions are a part of
         :rtype: titus.pfaast.EngineConfig or titus.pfaast.Expression
         :return: parsed text as an abstract syntax tree
         """
@@ -2149,12 +2159,15 @@ class Parser(object):
         if self.wholeDocument:
             return out
         else:
-            state = InterpretationState()
+            partOfDocument = state is not None
+            if not partOfDocument:
+                state = InterpretationState()
             if isinstance(out, (list, tuple)):
                 out2 = [x.asExpr(state) for x in out]
             else:
                 out2 = out.asExpr(state)
-            state.avroTypeBuilder.resolveTypes()
+            if not partOfDocument:
+                state.avroTypeBuilder.resolveTypes()
             return out2
 
 ###
@@ -2302,7 +2315,9 @@ def ppfas(text, subs={}, **subs2):
     """
 
     subs2.update(subs)
+    return _parseExpressions(text, subs2)
 
+def _parseExpressions(text, subs, state=None):
     if not exprParser.initialized:
         try:
             import ply.lex as lex
@@ -2312,7 +2327,7 @@ def ppfas(text, subs={}, **subs2):
         else:
             exprParser.initialize(lex, yacc)
 
-    return exprParser.parse(text, subs2)
+    return exprParser.parse(text, subs, state)
 
 def ppfa(text, subs={}, **subs2):
     """Parse a string of a single PrettyPFA expression as a PFA abstract syntax trees.
@@ -2327,7 +2342,9 @@ def ppfa(text, subs={}, **subs2):
     :return: parsed expression as PFA
     """
 
-    out = ppfas(text, subs, **subs2)
+    return _single(ppfas(text, subs, **subs2))
+
+def _single(out):
     if len(out) != 1:
         raise ValueError("use ppfa for single expressions, ppfas for multiple expressions")
     else:
-- 
2.43.0


From 5a623de94f5f3e309835dd2e5ed3ba07604fcd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:10 +0000
Subject: [PATCH 134/203] fix: json(double, 0) is a double in PrettyPFA (it was
 written to JSON as an int)

---
 titus/prettypfa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/prettypfa.py b/titus/prettypfa.py
index fae7aed..309742e 100644
--- a/titus/prettypfa.py
+++ b/titus/prettypfa.py
@@ -555,9 +555,9 @@ class MiniCall(MiniAst):
             elif td == "long":
                 return LiteralLong(v, self.pos)
             elif td == "float":
-                return LiteralFloat(v, self.pos)
+                return LiteralFloat(float(v), self.pos)
             elif td == "double":
-                return LiteralDouble(v, self.pos)
+                return LiteralDouble(float(v), self.pos)
             elif td == "string":
                 return LiteralString(v, self.pos)
             elif td == "bytes":
-- 
2.43.0


From 826ba182528d627f8582bcdd0a56a8c17a7bf78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:00 +0000
Subject: [PATCH 135/203] fix: PrettyPFA line numbers count the line breaks in
 raw strings

---
 titus/prettypfa.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/titus/prettypfa.py b/titus/prettypfa.py
index 309742e..ec1ba2b 100644
--- a/titus/prettypfa.py
+++ b/titus/prettypfa.py
@@ -1302,7 +1302,9 @@ class Parser(object):
 
         def t_RAWSTRING(t):
             r"'[^']*'"
+            newlines = len(re.findall(r"(\r\n?|\n)", t.value))
             t.value = Token("RAWSTRING", t.value[1:-1], t.lexer.lineno)
+            t.lexer.lineno += newlines
             return t
 
         def t_REPLACEMENT(t):
-- 
2.43.0


From 1cb03dd3d20a90cf2de412db617cfd455959cd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:16 +0000
Subject: [PATCH 136/203] fix: PrettyPFA expressions can contain substitutions
 that are made later, and leaving one unresolved is reported (TypeError)

---
 titus/pfaast.py | 95 +++++++++++++++++++++++++------------------------
 1 file changed, 49 insertions(+), 46 deletions(-)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index 923bd79..d0ab497 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -609,52 +609,6 @@ class Ast(object):
         else:
             return OrderedDict()
 
-class Subs(Ast):
-    """Represents an unresolved substitution in the abstract syntax tree.
-
-    PrettyPFA can make substitutions with ``<<French quotes>>``.
-
-    A PFA document is not valid if it contains any unresolved substitutions.
-    """
-
-    def __init__(self, name, lineno=None):
-        """:type name: string
-        :param name: key for substitution
-        :type lineno: integer or ``None``
-        :param lineno: line number
-        """
-        self.name = name
-        self.pos = "Substitution at line " + str(lineno)
-        self.lineno = lineno
-        self.low = lineno
-        self.high = lineno
-        self.context = None
-
-    def asExpr(self, state):
-        """Mini-AST method for representing as an expression."""
-        self.context = "expr"
-        return self
-
-    def asType(self, state):
-        """Mini-AST method for representing as a type."""
-        self.context = "type"
-        return self
-
-    def walk(self, task, version):
-        """Raises a syntax exception because unresolved substitutions are not allowed in valid PFA."""
-        raise PFASyntaxException("Unresolved substitution \"{0}\"".format(self.name), self.pos)
-
-    def toJson(self, lineNumbers=True):
-        """Raises a syntax exception because unresolved substitutions are not allowed in valid PFA."""
-        raise PFASyntaxException("Unresolved substitution \"{0}\"".format(self.name), self.pos)
-
-    def jsonNode(self, lineNumbers, memo):
-        """Inserts ``self`` into the Pythonized JSON, which would make it unserializable."""
-        return self
-
-    def __repr__(self):
-        return "<<" + self.name + ">>"
-        
 class Method(object):
     """PFA execution method may be "map", "emit", or "fold"."""
     MAP = "map"
@@ -1329,6 +1283,55 @@ class Expression(Argument):
     """Trait for all PFA expressions, which resolve to Avro-typed values."""
     pass
 
+class Subs(Expression):
+    """Represents an unresolved substitution in the abstract syntax tree.
+
+    PrettyPFA can make substitutions with ``<<French quotes>>``.
+
+    A PFA document is not valid if it contains any unresolved substitutions.
+    """
+
+    def __init__(self, name, lineno=None):
+        """:type name: string
+        :param name: key for substitution
+        :type lineno: integer or ``None``
+        :param lineno: line number
+        """
+        self.name = name
+        self.pos = "Substitution at line " + str(lineno)
+        self.lineno = lineno
+        self.low = lineno
+        self.high = lineno
+        self.context = None
+
+    def asExpr(self, state):
+        """Mini-AST method for representing as an expression."""
+        self.context = "expr"
+        return self
+
+    def asType(self, state):
+        """Mini-AST method for representing as a type: a type has to be known when the document is parsed."""
+        raise PrettyPfaException("Unresolved substitution \"{0}\" where a type is expected, at PrettyPFA line {1}".format(self.name, self.lineno))
+
+    def asJson(self):
+        """Mini-AST method for representing as JSON: data have to be known when the document is parsed."""
+        raise PrettyPfaException("Unresolved substitution \"{0}\" where JSON is expected, at PrettyPFA line {1}".format(self.name, self.lineno))
+
+    def walk(self, task, symbolTable, functionTable, engineOptions, version):
+        """Raises a syntax exception because unresolved substitutions are not allowed in valid PFA."""
+        raise PFASyntaxException("Unresolved substitution \"{0}\"".format(self.name), self.pos)
+
+    def toJson(self, lineNumbers=True):
+        """Raises a syntax exception because unresolved substitutions are not allowed in valid PFA."""
+        raise PFASyntaxException("Unresolved substitution \"{0}\"".format(self.name), self.pos)
+
+    def jsonNode(self, lineNumbers, memo):
+        """Inserts ``self`` into the Pythonized JSON, which would make it unserializable."""
+        return self
+
+    def __repr__(self):
+        return "<<" + self.name + ">>"
+
 class LiteralValue(Expression):
     """Trait for all PFA literal values, which are known constants at compile-time."""
     pass
-- 
2.43.0


From c1a5c36c3d904b9e3ac77e4f598ae58f9cb6dbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:40 +0000
Subject: [PATCH 137/203] fix: PrettyPFA syntax errors point to the line they
 are on (IndexError on the last line, or an arrow at the next)

---
 titus/prettypfa.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/titus/prettypfa.py b/titus/prettypfa.py
index ec1ba2b..e082333 100644
--- a/titus/prettypfa.py
+++ b/titus/prettypfa.py
@@ -1252,9 +1252,11 @@ class Parser(object):
 
         operands = ["NUMBER", "STRING", "RAWSTRING", "REPLACEMENT", "DOTNAME", "RPAREN", "RBRACKET", "RCURLY"]
 
-        def insertArrow(lines, which):
-            lines[which] = lines[which] + "     <----"
-            return lines
+        def insertArrow(lines, lineno):
+            first = max(0, lineno - 2)
+            out = lines[first:(lineno + 1)]
+            out[lineno - 1 - first] = out[lineno - 1 - first] + "     <----"
+            return out
 
         def t_COMMENT(t):
             r"//.*"
@@ -1468,7 +1470,7 @@ class Parser(object):
             if len(lines) < 2:
                 raise PrettyPfaException("Tokenizing syntax error: \"{0}\" at PrettyPFA line {1}: {2}".format(t.value[0], lineno, self.text))
             else:
-                offendingLine = "\n".join(insertArrow(lines[(lineno - 1):(lineno + 2)], 1))
+                offendingLine = "\n".join(insertArrow(lines, lineno))
                 raise PrettyPfaException("Tokenizing syntax error: \"{0}\" at PrettyPFA line {1}:\n{2}".format(t.value[0], lineno, offendingLine))
 
         self.lexer = lex.lex()
@@ -2134,7 +2136,7 @@ class Parser(object):
                 if len(lines) < 2:
                     raise PrettyPfaException("Parsing syntax error on line {0}: {1}".format(p.lineno, self.text))
                 else:
-                    offendingLine = "\n".join(insertArrow(lines[(lineno - 1):(lineno + 2)], 1))
+                    offendingLine = "\n".join(insertArrow(lines, lineno))
                     raise PrettyPfaException("Parsing syntax error on line {0}:\n{1}".format(p.lineno, offendingLine))
 
         self.yacc = yacc.yacc(debug=False, write_tables=False)
-- 
2.43.0


From dcc191277a128210c7a6cb416fe9927e87bd5a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:06 +0000
Subject: [PATCH 138/203] fix: what is not a cell, pool, function or name in
 the sections of a PrettyPFA document is reported as such (TypeError,
 AttributeError)

---
 titus/prettypfa.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/titus/prettypfa.py b/titus/prettypfa.py
index e082333..5c661e7 100644
--- a/titus/prettypfa.py
+++ b/titus/prettypfa.py
@@ -148,7 +148,8 @@ class Section(object):
             elif not isinstance(content, (list, tuple)):
                 self.content = [content]
         elif name == "fcns":
-            pass
+            if not isinstance(content, (list, tuple)):
+                self.content = [content]
         elif name == "zero":
             pass
         elif name == "merge":
@@ -157,9 +158,11 @@ class Section(object):
             elif not isinstance(content, (list, tuple)):
                 self.content = [content]
         elif name == "cells":
-            pass
+            if not isinstance(content, (list, tuple)):
+                self.content = [content]
         elif name == "pools":
-            pass
+            if not isinstance(content, (list, tuple)):
+                self.content = [content]
         elif name == "randseed":
             pass
         elif name == "doc":
@@ -176,6 +179,16 @@ class Section(object):
     def __repr__(self):
         return "Section({0}, {1} at {2})".format(self.name, self.content, self.pos)
 
+    def engineName(self):
+        if isinstance(self.content, (list, tuple)):
+            if len(self.content) == 1:
+                self.content, = self.content
+            else:
+                raise PrettyPfaException("Only one item allowed in name section")
+        if not isinstance(self.content, MiniDotName):
+            raise PrettyPfaException("name must be an identifier at PrettyPFA line {0}".format(self.lineno))
+        return self.content.name
+
     def input(self, state):
         if isinstance(self.content, (list, tuple)):
             if len(self.content) == 1:
@@ -312,7 +325,7 @@ class MiniAst(object):
         raise PrettyPfaException("{0} ({1}) is not a type specification at {2}".format(self, type(self), self.pos))
     def asJson(self):
         raise PrettyPfaException("{0} ({1}) is not JSON at {2}".format(self, type(self), self.pos))
-    def asFcn(self):
+    def asFcn(self, state):
         raise PrettyPfaException("{0} ({1}) is not a function definition at {2}".format(self, type(self), self.pos))
     def asCell(self, state):
         raise PrettyPfaException("{0} ({1}) is not a cell definition at {2}".format(self, type(self), self.pos))
@@ -1508,7 +1521,7 @@ class Parser(object):
                 _options = {}
 
                 if "name" in keys:
-                    _name = sectionDict["name"].content.name
+                    _name = sectionDict["name"].engineName()
                 else:
                     _name = titus.util.uniqueEngineName()
 
-- 
2.43.0


From d3ea40c7270e9a5847e97a4030ec9a21d58e95b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:24 +0000
Subject: [PATCH 139/203] fix: expressions substituted for types or JSON in
 PrettyPFA are reported as such (TypeError)

---
 titus/prettypfa.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/titus/prettypfa.py b/titus/prettypfa.py
index 5c661e7..4c83367 100644
--- a/titus/prettypfa.py
+++ b/titus/prettypfa.py
@@ -352,8 +352,12 @@ class ResolvedSubs(Token, MiniAst):
         else:
             return titus.reader._readExpression(self.value, "", _SharedTypes(state))
     def asType(self, state):
+        if isinstance(self.value, Ast):
+            return super(ResolvedSubs, self).asType(state)
         return self.value
     def asJson(self):
+        if isinstance(self.value, Ast):
+            return super(ResolvedSubs, self).asJson()
         return self.value
 
 class _SharedTypes(object):
-- 
2.43.0


From abb9b7715a2b63590b486d3c6673efc2e409dc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:25 +0000
Subject: [PATCH 140/203] fix: PrettyPFA literals, error codes and record names
 of the wrong kind are reported as such (TypeError, ValueError,
 AttributeError)

---
 titus/prettypfa.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/titus/prettypfa.py b/titus/prettypfa.py
index 4c83367..ffb7030 100644
--- a/titus/prettypfa.py
+++ b/titus/prettypfa.py
@@ -559,6 +559,12 @@ class MiniCall(MiniAst):
     def __repr__(self):
         return "MiniCall({0}, [{1}])".format(self.name, ", ".join(map(repr, self.args)))
 
+    def _literal(self, convert, value):
+        try:
+            return convert(value)
+        except (TypeError, ValueError, OverflowError):
+            raise PrettyPfaException("{0} is not a literal {1} at {2}".format(jsonlib.dumps(value), self.name, self.pos))
+
     def asExpr(self, state):
         if self.name == "json":
             if len(self.args) != 2:
@@ -572,35 +578,35 @@ class MiniCall(MiniAst):
             elif td == "long":
                 return LiteralLong(v, self.pos)
             elif td == "float":
-                return LiteralFloat(float(v), self.pos)
+                return LiteralFloat(self._literal(float, v), self.pos)
             elif td == "double":
-                return LiteralDouble(float(v), self.pos)
+                return LiteralDouble(self._literal(float, v), self.pos)
             elif td == "string":
                 return LiteralString(v, self.pos)
             elif td == "bytes":
-                return LiteralBase64(bytesToString(base64.b64decode(v)), self.pos)
+                return LiteralBase64(bytesToString(self._literal(base64.b64decode, v)), self.pos)
             else:
                 return Literal(state.avroTypeBuilder.makePlaceholder(jsonlib.dumps(td), state.avroTypeMemo), jsonlib.dumps(v), self.pos)
 
         elif self.name == "int":
             if len(self.args) != 1:
                 raise PrettyPfaException("int function must have 1 argument, not {0}, at {1}".format(len(self.args), self.pos))
-            return LiteralInt(int(self.args[0].asJson()), self.pos)
+            return LiteralInt(self._literal(int, self.args[0].asJson()), self.pos)
 
         elif self.name == "long":
             if len(self.args) != 1:
                 raise PrettyPfaException("long function must have 1 argument, not {0}, at {1}".format(len(self.args), self.pos))
-            return LiteralLong(int(self.args[0].asJson()), self.pos)
+            return LiteralLong(self._literal(int, self.args[0].asJson()), self.pos)
 
         elif self.name == "float":
             if len(self.args) != 1:
                 raise PrettyPfaException("float function must have 1 argument, not {0}, at {1}".format(len(self.args), self.pos))
-            return LiteralFloat(float(self.args[0].asJson()), self.pos)
+            return LiteralFloat(self._literal(float, self.args[0].asJson()), self.pos)
 
         elif self.name == "double":
             if len(self.args) != 1:
                 raise PrettyPfaException("double function must have 1 argument, not {0}, at {1}".format(len(self.args), self.pos))
-            return LiteralDouble(float(self.args[0].asJson()), self.pos)
+            return LiteralDouble(self._literal(float, self.args[0].asJson()), self.pos)
 
         elif self.name == "string":
             if len(self.args) != 1:
@@ -610,7 +616,7 @@ class MiniCall(MiniAst):
         elif self.name == "bytes":
             if len(self.args) != 1:
                 raise PrettyPfaException("bytes function must have 1 argument, not {0}, at {1}".format(len(self.args), self.pos))
-            b64decodedString = bytesToString(base64.b64decode(self.args[0].asJson()))
+            b64decodedString = bytesToString(self._literal(base64.b64decode, self.args[0].asJson()))
             return LiteralBase64(b64decodedString, self.pos)
 
         elif self.name == "do":
@@ -668,7 +674,7 @@ class MiniCall(MiniAst):
             elif len(params) == 1:
                 if params[0].name != "code":
                     raise PrettyPfaException("error function has only 1 optional parameter, \"code\", not {0}, at {1}".format(params[0].name, self.pos))
-                if not isinstance(params[0].typeExpr, MiniNumber) and not isinstance(params[0].typeExpr.value, int):
+                if not isinstance(params[0].typeExpr, MiniNumber) or not isinstance(params[0].typeExpr.value, int):
                     raise PrettyPfaException("error function has optional parameter \"code\" must be an integer, not {0}, at {1}".format(params[0].typeExpr, self.pos))
                 code = params[0].typeExpr.value
             else:
@@ -794,8 +800,10 @@ class MiniCall(MiniAst):
             elif len(others) == 1:
                 if isinstance(others[0], ResolvedSubs):
                     namespace, name = split(others[0].value)
-                else:
+                elif isinstance(others[0], MiniDotName):
                     namespace, name = split(others[0].name)
+                else:
+                    raise PrettyPfaException("record type name should be an identifier, not \"{0}\", at {1}".format(type(others[0]), self.pos))
             else:
                 raise PrettyPfaException("apart from the field specifiers (which have colons), record type takes 0 or 1 argument, not {0} at {1}".format(len(others), self.pos))
 
-- 
2.43.0


From 5bc86fa12b838f88525010c8977eddb7903d6bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:05 +0000
Subject: [PATCH 141/203] fix: the name of a fixed type in PrettyPFA can be a
 substitution, as for records and enums

---
 titus/prettypfa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/prettypfa.py b/titus/prettypfa.py
index ffb7030..57dc3a1 100644
--- a/titus/prettypfa.py
+++ b/titus/prettypfa.py
@@ -749,7 +749,7 @@ class MiniCall(MiniAst):
             if len(self.args) == 2:
                 if isinstance(self.args[1], MiniDotName):
                     namespace, name = split(self.args[1].name)
-                elif isinstance(self.args[1], MiniDotName):
+                elif isinstance(self.args[1], ResolvedSubs):
                     namespace, name = split(self.args[1].value)
                 else:
                     raise PrettyPfaException("fixed type second argument should be an identifier, not \"{0}\", at {1}".format(type(self.args[1]), self.pos))
-- 
2.43.0


From 3056d3a4389c50e3a95da66909e1930c2a73d476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:52 +0000
Subject: [PATCH 142/203] fix: Python code is converted to PFA in Python 3
 (statements, constants and subscripts crashed: AttributeError,
 RecursionError)

---
 titus/producer/expression.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/titus/producer/expression.py b/titus/producer/expression.py
index d62ed73..56e1f85 100644
--- a/titus/producer/expression.py
+++ b/titus/producer/expression.py
@@ -150,8 +150,8 @@ def _statement(stmt, state):
                 raise PythonToPfaException("cannot declare {0} symbols and reassign {1} in the same statement (source line {2})".format(lets, sets, stmt.lineno))
             return _form(state, stmt.lineno, {letset: out})
 
-    elif isinstance(stmt, ast.Print):
-        return _form(state, stmt.lineno, {"log": [_expression(x, state) for x in stmt.values]})
+    elif isinstance(stmt, ast.Expr) and isinstance(stmt.value, ast.Call) and isinstance(stmt.value.func, ast.Name) and stmt.value.func.id == "print" and len(stmt.value.keywords) == 0:
+        return _form(state, stmt.lineno, {"log": [_expression(x, _newscope(state)) for x in stmt.value.args]})
 
     elif isinstance(stmt, ast.For):
         if isinstance(stmt.target, ast.Name):
@@ -186,8 +186,8 @@ def _statement(stmt, state):
             return _form(state, stmt.lineno, OrderedDict([("cond", chain)]))
 
     elif isinstance(stmt, ast.Raise):
-        if isinstance(stmt.type, ast.Str):
-            return _form(state, stmt.lineno, {"error": stmt.type.s})
+        if isinstance(stmt.exc, ast.Str):
+            return _form(state, stmt.lineno, {"error": stmt.exc.s})
 
     elif isinstance(stmt, ast.Expr):
         return _expression(stmt.value, state)
@@ -338,6 +338,9 @@ def _expression(expr, state):
     elif isinstance(expr, ast.Str):
         return {"string": expr.s}
 
+    elif isinstance(expr, ast.NameConstant):
+        return expr.value
+
     elif isinstance(expr, ast.Attribute):
         return _unfold(expr, [], state)
 
@@ -369,8 +372,11 @@ def _unfold(x, path, state):
         path.insert(0, {"string": x.attr})
         return _unfold(x.value, path, state)
 
-    elif isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Index):
-        path.insert(0, _expression(x.slice.value, state))
+    elif isinstance(x, ast.Subscript):
+        index = x.slice.value if type(x.slice).__name__ == "Index" else x.slice
+        if not isinstance(index, ast.expr) or isinstance(index, (ast.Slice, ast.Tuple)):
+            raise PythonToPfaException("Python AST node {0} (source line {1}) does not have a PFA equivalent".format(ast.dump(x), x.lineno))
+        path.insert(0, _expression(index, state))
         return _unfold(x.value, path, state)
 
     else:
@@ -399,6 +405,9 @@ def _literal(expr, state):
     elif isinstance(expr, ast.Str):
         return expr.s
 
+    elif isinstance(expr, ast.NameConstant):
+        return expr.value
+
     elif isinstance(expr, ast.Name):
         if expr.id in state["subs"]:
             return state["subs"][expr.id]
-- 
2.43.0


From d9ac2f90040fe0cac2fb11c697ee2a3befbb1cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:52 +0000
Subject: [PATCH 143/203] fix: Python code without a PFA equivalent is refused
 as such (loops with else, @, in, **arguments, assignments of more or fewer
 values)

---
 titus/producer/expression.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/titus/producer/expression.py b/titus/producer/expression.py
index 56e1f85..88f9d2f 100644
--- a/titus/producer/expression.py
+++ b/titus/producer/expression.py
@@ -131,7 +131,7 @@ def _statement(stmt, state):
             state["symbols"].add(name)
             return _form(state, stmt.lineno, {letset: {name: expr}})
 
-        elif len(stmt.targets) == 1 and isinstance(stmt.targets[0], ast.Tuple) and all(isinstance(x, ast.Name) for x in stmt.targets[0].elts) and isinstance(stmt.value, ast.Tuple):
+        elif len(stmt.targets) == 1 and isinstance(stmt.targets[0], ast.Tuple) and all(isinstance(x, ast.Name) for x in stmt.targets[0].elts) and isinstance(stmt.value, ast.Tuple) and len(stmt.targets[0].elts) == len(stmt.value.elts):
             out = OrderedDict()
             lets = 0
             sets = 0
@@ -153,7 +153,7 @@ def _statement(stmt, state):
     elif isinstance(stmt, ast.Expr) and isinstance(stmt.value, ast.Call) and isinstance(stmt.value.func, ast.Name) and stmt.value.func.id == "print" and len(stmt.value.keywords) == 0:
         return _form(state, stmt.lineno, {"log": [_expression(x, _newscope(state)) for x in stmt.value.args]})
 
-    elif isinstance(stmt, ast.For):
+    elif isinstance(stmt, ast.For) and len(stmt.orelse) == 0:
         if isinstance(stmt.target, ast.Name):
             newvar = stmt.target.id
             array = _expression(stmt.iter, _newscope(state))
@@ -167,7 +167,7 @@ def _statement(stmt, state):
             body = _statements(stmt.body, _newscope(state, [keyvar, valvar]))
             return _form(state, stmt.lineno, OrderedDict([("forkey", keyvar), ("forval", valvar), ("in", mapping), ("do", body)]))
             
-    elif isinstance(stmt, ast.While):
+    elif isinstance(stmt, ast.While) and len(stmt.orelse) == 0:
         test = _expression(stmt.test, _newscope(state))
         body = _statements(stmt.body, _newscope(state))
         return _form(state, stmt.lineno, OrderedDict([("while", test), ("do", body)]))
@@ -252,6 +252,8 @@ def _expression(expr, state):
             op = "&"
         elif isinstance(expr.op, ast.FloorDiv):
             op = "//"
+        else:
+            raise PythonToPfaException("Python AST node {0} (source line {1}) does not have a PFA equivalent".format(ast.dump(expr), expr.lineno))
         return _form(state, expr.lineno, {op: [_expression(expr.left, _newscope(state)), _expression(expr.right, _newscope(state))]})
 
     elif isinstance(expr, ast.UnaryOp):
@@ -283,7 +285,7 @@ def _expression(expr, state):
             elif isinstance(x, ast.Gt): return ">"
             elif isinstance(x, ast.GtE): return ">="
             else:
-                raise PythonToPfaException("Python AST node {0} (source line {1}) does not have a PFA equivalent".format(ast.dump(x), x.lineno))
+                raise PythonToPfaException("Python AST node {0} (source line {1}) does not have a PFA equivalent".format(ast.dump(x), expr.lineno))
 
         ops = list(reversed(expr.ops))
         cmps = list(reversed(expr.comparators))
@@ -315,6 +317,8 @@ def _expression(expr, state):
             name = name.lower()
         name = coreLibrary.get(name, name)
 
+        if any(x.arg is None for x in expr.keywords):
+            raise PythonToPfaException("Python AST node {0} (source line {1}) does not have a PFA equivalent".format(ast.dump(expr), expr.lineno))
         args = [_expression(x, _newscope(state)) for x in expr.args]
         if len(args) == 1:
             args = args[0]
-- 
2.43.0


From a2928634c6e45fe81cea847ead4cb89da1d035e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:52 +0000
Subject: [PATCH 144/203] fix: Negative is the negation of PFA in converted
 Python code

---
 titus/producer/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/expression.py b/titus/producer/expression.py
index 88f9d2f..884bb89 100644
--- a/titus/producer/expression.py
+++ b/titus/producer/expression.py
@@ -310,7 +310,7 @@ def _expression(expr, state):
                 raise PythonToPfaException("Python AST node {0} (source line {1}) does not have a PFA equivalent".format(ast.dump(x), x.lineno))
 
         specialForms = ["Int", "Long", "Float", "Double", "String", "Base64", "Type", "Value", "New", "Do", "Let", "Set", "Attr", "Path", "To", "Cell", "Pool", "Init", "If", "Then", "Else", "Cond", "While", "Until", "For", "Step", "Foreach", "In", "Forkey", "Forval", "Cast", "Cases", "Partial", "Upcast", "As", "Ifnotnull", "Doc", "Error", "Log", "Namespace", "Params", "Ret", "Fcn"]
-        coreLibrary = {"Plus": "+", "Minus": "-", "Times": "*", "Divide": "/", "FloorDivide": "//", "Negative": "U-", "Modulo": "%", "Remainder": "%%", "Pow": "**", "Comparison": "cmp", "Equal": "==", "GreaterOrEqual": ">=", "GreaterThan": ">", "NotEqual": "!=", "LessThan": "<", "LessOrEqual": "<=", "Max": "max", "Min": "min", "And": "&&", "Or": "||", "XOr": "^^", "Not": "!", "BitwiseAnd": "&", "BitwiseOr": "|", "BitwiseXOr": "^", "BitwiseNot": "~"}
+        coreLibrary = {"Plus": "+", "Minus": "-", "Times": "*", "Divide": "/", "FloorDivide": "//", "Negative": "u-", "Modulo": "%", "Remainder": "%%", "Pow": "**", "Comparison": "cmp", "Equal": "==", "GreaterOrEqual": ">=", "GreaterThan": ">", "NotEqual": "!=", "LessThan": "<", "LessOrEqual": "<=", "Max": "max", "Min": "min", "And": "&&", "Or": "||", "XOr": "^^", "Not": "!", "BitwiseAnd": "&", "BitwiseOr": "|", "BitwiseXOr": "^", "BitwiseNot": "~"}
 
         name = unfold(expr.func)
         if name in specialForms:
-- 
2.43.0


From c3dcdca688c681eda09d5b558943acabce8de398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:52 +0000
Subject: [PATCH 145/203] fix: the name of a cell is the value of the cell in
 converted Python code (it was a variable without a path)

---
 titus/producer/expression.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/titus/producer/expression.py b/titus/producer/expression.py
index 884bb89..a2f6987 100644
--- a/titus/producer/expression.py
+++ b/titus/producer/expression.py
@@ -360,6 +360,8 @@ def _expression(expr, state):
             return True
         elif expr.id == "False":
             return False
+        elif expr.id in state["cells"]:
+            return _form(state, expr.lineno, {"cell": expr.id})
         else:
             return expr.id
 
-- 
2.43.0


From b538cec2add9700763c9cc80739ec604e0af99dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:52 +0000
Subject: [PATCH 146/203] fix: parameters of functions converted from Python
 can be reassigned (they were declared again)

---
 titus/producer/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/expression.py b/titus/producer/expression.py
index a2f6987..d655bca 100644
--- a/titus/producer/expression.py
+++ b/titus/producer/expression.py
@@ -100,7 +100,7 @@ def fcn(params, ret, expr, subs=None, cells=None, pools=None, options=None, **kw
     combinedOptions = dict(defaultOptions)
     if options is not None:
         combinedOptions.update(options)
-    return OrderedDict([("params", params), ("ret", ret), ("do", pfa(expr, subs, None, cells, pools, options, **kwds))])
+    return OrderedDict([("params", params), ("ret", ret), ("do", pfa(expr, subs, [name for param in params for name in param], cells, pools, options, **kwds))])
 
 def _form(state, lineno, others):
     if state["options"]["lineNumbers"] and lineno is not None:
-- 
2.43.0


From bd865d1ca27a26f364a87c59019d17ab65a5a4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:52 +0000
Subject: [PATCH 147/203] fix: the remainder of a Transformation has the sign
 of the dividend, as in PFA

---
 titus/producer/transformation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/transformation.py b/titus/producer/transformation.py
index fe9b6a6..e410d27 100644
--- a/titus/producer/transformation.py
+++ b/titus/producer/transformation.py
@@ -53,7 +53,7 @@ class Transformation(object):
         "u-": "numpy.negative",
         "**": "numpy.power",
         "%": "numpy.mod",
-        "%%": "numpy.remainder",
+        "%%": "numpy.fmod",
         
         "==": "numpy.equal",
         "!=": "numpy.not_equal",
-- 
2.43.0


From f141f479372c091f63dc5d15e142d82cae80f081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:52 +0000
Subject: [PATCH 148/203] fix: m.round of a Transformation rounds halves up, as
 in PFA

---
 titus/producer/transformation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/producer/transformation.py b/titus/producer/transformation.py
index e410d27..a1537f2 100644
--- a/titus/producer/transformation.py
+++ b/titus/producer/transformation.py
@@ -81,7 +81,7 @@ class Transformation(object):
         "m.hypot": "numpy.hypot",
         "m.ln": "numpy.log",
         "m.log10": "numpy.log10",
-        "m.round": "numpy.round",
+        "m.round": "_round",
         "m.rint": "numpy.rint",
         "m.sin": "numpy.sin",
         "m.sinh": "numpy.sinh",
@@ -90,7 +90,7 @@ class Transformation(object):
         "m.tanh": "numpy.tanh",
         }
 
-    namespace = {"math": math, "numpy": numpy}
+    namespace = {"math": math, "numpy": numpy, "_round": lambda x: numpy.floor(x + 0.5)}
 
     @staticmethod
     def findFields(x):
-- 
2.43.0


From 6be181d3690da90a4eb8764633654bf91de188ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:52 +0000
Subject: [PATCH 149/203] fix: patterns of numbers don't match booleans, nor
 true and false numbers

---
 titus/producer/tools.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/titus/producer/tools.py b/titus/producer/tools.py
index f60acd1..b876a56 100644
--- a/titus/producer/tools.py
+++ b/titus/producer/tools.py
@@ -138,14 +138,14 @@ def getmatch(pattern, haystack):
                 return None
         return out
 
-    elif isinstance(pattern, (str, int, float)):
-        if pattern == haystack:
+    elif pattern is True or pattern is False or pattern is None:
+        if pattern is haystack:
             return Match(haystack, haystack)
         else:
             return None
 
-    elif pattern in (True, False, None):
-        if pattern is haystack:
+    elif isinstance(pattern, (str, int, float)):
+        if pattern == haystack and not isinstance(haystack, bool):
             return Match(haystack, haystack)
         else:
             return None
@@ -286,7 +286,7 @@ class Approx(Matcher):
     def __repr__(self):
         return "Approx(" + repr(self.central) + ", " + repr(self.error) + ")"
     def getmatch(self, haystack):
-        if not isinstance(haystack, (int, float)) or abs(haystack - self.central) > self.error:
+        if not isinstance(haystack, (int, float)) or isinstance(haystack, bool) or abs(haystack - self.central) > self.error:
             return None
         else:
             return Match(haystack, haystack)
@@ -298,7 +298,7 @@ class LT(Matcher):
     def __repr__(self):
         return "LT(" + repr(self.value) + ")"
     def getmatch(self, haystack):
-        if not isinstance(haystack, (int, float)) or haystack >= self.value:
+        if not isinstance(haystack, (int, float)) or isinstance(haystack, bool) or haystack >= self.value:
             return None
         else:
             return Match(haystack, haystack)
@@ -310,7 +310,7 @@ class LE(Matcher):
     def __repr__(self):
         return "LE(" + repr(self.value) + ")"
     def getmatch(self, haystack):
-        if not isinstance(haystack, (int, float)) or haystack > self.value:
+        if not isinstance(haystack, (int, float)) or isinstance(haystack, bool) or haystack > self.value:
             return None
         else:
             return Match(haystack, haystack)
@@ -322,7 +322,7 @@ class GT(Matcher):
     def __repr__(self):
         return "GT(" + repr(self.value) + ")"
     def getmatch(self, haystack):
-        if not isinstance(haystack, (int, float)) or haystack <= self.value:
+        if not isinstance(haystack, (int, float)) or isinstance(haystack, bool) or haystack <= self.value:
             return None
         else:
             return Match(haystack, haystack)
@@ -334,7 +334,7 @@ class GE(Matcher):
     def __repr__(self):
         return "GE(" + repr(self.value) + ")"
     def getmatch(self, haystack):
-        if not isinstance(haystack, (int, float)) or haystack < self.value:
+        if not isinstance(haystack, (int, float)) or isinstance(haystack, bool) or haystack < self.value:
             return None
         else:
             return Match(haystack, haystack)
-- 
2.43.0


From 33bbce0103e1b4a5e757d325886ae8649b3e0953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:52 +0000
Subject: [PATCH 150/203] fix: findCopy and findAllCopy return copies (they
 could be parts of the original, or lack @ keys)

---
 titus/producer/tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/producer/tools.py b/titus/producer/tools.py
index b876a56..5f3510d 100644
--- a/titus/producer/tools.py
+++ b/titus/producer/tools.py
@@ -444,7 +444,7 @@ def findCopy(pattern, haystack):
     if x is None:
         return None
     else:
-        return x[1].original   # "original" is a copy that is identical to the original (see Match class)
+        return copy.deepcopy(get(haystack, x[0]))
 
 def findAllRef(pattern, haystack):
     """Create a generator to yield references to matching subexpressions within the original structure (for in-place modifications)."""
@@ -454,7 +454,7 @@ def findAllRef(pattern, haystack):
 def findAllCopy(pattern, haystack):
     """Create a generator to yield copies of the matching subexpressions."""
     for x in search(pattern, haystack):
-        yield x[1].original   # "original" is a copy that is identical to the original (see Match class)
+        yield copy.deepcopy(get(haystack, x[0]))
 
 ############################################## the look function presents a JSON object in an analyzable way
 
-- 
2.43.0


From 08db421fc4a4d5f4354f210be04071040b6f2dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:52 +0000
Subject: [PATCH 151/203] fix: And keeps the groups of all of its patterns

---
 titus/producer/tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/titus/producer/tools.py b/titus/producer/tools.py
index 5f3510d..9e04bb6 100644
--- a/titus/producer/tools.py
+++ b/titus/producer/tools.py
@@ -272,10 +272,13 @@ class And(Matcher):
     def getmatch(self, haystack):
         if len(self.alternatives) == 0:
             return None
+        groups = {}
         for alt in self.alternatives:
             m = getmatch(alt, haystack)
             if m is None:
                 return None
+            groups.update(m.groups)
+        m.groups = groups
         return m
 
 class Approx(Matcher):
-- 
2.43.0


From 6d536a80ec8aed8591c64002411f10e7cf6f6d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:52 +0000
Subject: [PATCH 152/203] fix: assigned and assignedAt can replace the whole
 expression (IndexError)

---
 titus/producer/tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/titus/producer/tools.py b/titus/producer/tools.py
index 9e04bb6..0d7d4be 100644
--- a/titus/producer/tools.py
+++ b/titus/producer/tools.py
@@ -55,6 +55,8 @@ def assign(expr, index, to):
 
 def assigned(expr, index, to):
     """Return a copy of expr with a replaced subexpression, leaving the original intact."""
+    if len(index) == 0:
+        return to
     expr = copy.deepcopy(expr)
     assign(expr, index, to)
     return expr
@@ -68,6 +70,8 @@ def assignedAt(pattern, expr, to):
     """Return a copy of expr with replaced subexpressions at points that match a regular expression pattern."""
     expr = copy.deepcopy(expr)
     for i in indexes(pattern, expr):
+        if len(i) == 0:
+            return to
         assign(expr, i, to)
     return expr
 
-- 
2.43.0


From 85d7fd8338b3943fd26a8a7c86982d61ed3f62cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:38 +0000
Subject: [PATCH 153/203] fix: complex numbers have no PFA equivalent

---
 titus/producer/expression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/producer/expression.py b/titus/producer/expression.py
index d655bca..ffce8b4 100644
--- a/titus/producer/expression.py
+++ b/titus/producer/expression.py
@@ -336,7 +336,7 @@ def _expression(expr, state):
 
         return _form(state, expr.lineno, out)
 
-    elif isinstance(expr, ast.Num):
+    elif isinstance(expr, ast.Num) and not isinstance(expr.n, complex):
         return expr.n
 
     elif isinstance(expr, ast.Str):
@@ -405,7 +405,7 @@ def _literal(expr, state):
                 raise PythonToPfaException("literal JSON keys must be strings or subs identifiers, not {0} (source line {1})".format(ast.dump(expr), expr.lineno))
         return out
 
-    elif isinstance(expr, ast.Num):
+    elif isinstance(expr, ast.Num) and not isinstance(expr.n, complex):
         return expr.n
 
     elif isinstance(expr, ast.Str):
-- 
2.43.0


From 96ae6464b2630b34f410ea65abfdce010b7842ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:38 +0000
Subject: [PATCH 154/203] fix: groups can be of literal JSON, like other
 patterns (AttributeError)

---
 titus/producer/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/tools.py b/titus/producer/tools.py
index 0d7d4be..715cbc8 100644
--- a/titus/producer/tools.py
+++ b/titus/producer/tools.py
@@ -169,7 +169,7 @@ class Group(Matcher):
     def __repr__(self):
         return "Group(" + repr(self.name) + "=" + repr(self.matcher) + ")"
     def getmatch(self, haystack):
-        m = self.matcher.getmatch(haystack)
+        m = getmatch(self.matcher, haystack)
         if m is not None:
             m.groups[self.name] = m.modified
             return m
-- 
2.43.0


From e4df686e88229827a8698367a1d50f588040815d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:38 +0000
Subject: [PATCH 155/203] fix: constant expressions of a Transformation are as
 long as the dataset (scalars, or a crash with other expressions)

---
 titus/producer/transformation.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/titus/producer/transformation.py b/titus/producer/transformation.py
index a1537f2..ea41232 100644
--- a/titus/producer/transformation.py
+++ b/titus/producer/transformation.py
@@ -233,6 +233,13 @@ class Transformation(object):
         else:
             computed = dict((k, v(*[dataset[f] for f in self.fields])) for k, v in list(self.lambdas.items()))
 
+        # constant expressions have the same value for each item of the dataset
+        if outType == "dict":
+            size = len(next(iter(dataset.values()))) if len(dataset) > 0 else 0
+        else:
+            size = len(dataset)
+        computed = dict((k, v if len(numpy.shape(v)) > 0 else numpy.repeat(v, size)) for k, v in list(computed.items()))
+
         # return the same type you received
         if outType == "recarray":
             return numpy.core.records.fromarrays([computed[x] for x in self.order], names=self.order)
-- 
2.43.0


From cf43d0397ea6a56cf57cb20570a9d417045c772c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:14 +0000
Subject: [PATCH 156/203] fix: a Transformation writes the full names of
 namespaced records

---
 titus/producer/transformation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/transformation.py b/titus/producer/transformation.py
index ea41232..01adb30 100644
--- a/titus/producer/transformation.py
+++ b/titus/producer/transformation.py
@@ -297,7 +297,7 @@ class Transformation(object):
                     "new": dict((k, Transformation.replace(v, subs2)) for k, v in list(self.pfas.items()))}
 
         elif isinstance(avroType, AvroRecord):
-            return {"type": avroType.name,
+            return {"type": avroType.fullName,
                     "new": dict((k, Transformation.replace(v, subs2)) for k, v in list(self.pfas.items()))}
         elif isinstance(avroType, dict) and avroType["type"] == "record" or isinstance(avroType, str):
             return {"type": avroType,
-- 
2.43.0


From 1f1eb042e0a9dc72cdbe11d4d15957d794962144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:31 +0000
Subject: [PATCH 157/203] fix: all metrics of k-means use their arguments in
 PFA (only the Euclidean gave a valid document)

---
 titus/producer/kmeans.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/titus/producer/kmeans.py b/titus/producer/kmeans.py
index eb78321..e8cba8c 100644
--- a/titus/producer/kmeans.py
+++ b/titus/producer/kmeans.py
@@ -85,8 +85,6 @@ class SquaredEuclidean(Metric):
         self.calculate = lambda dataset, cluster: numpy.sum(numpy.square(similarity.calculate(dataset, cluster)), axis=1)
         self.similarity = similarity
     def pfa(self, x, y):
-        x = "metricX"
-        y = "metricY"
         return {"metric.squaredEuclidean": [self.similarity.pfa(), x, y]}
 
 class Chebyshev(Metric):
@@ -95,8 +93,6 @@ class Chebyshev(Metric):
         self.calculate = lambda dataset, cluster: numpy.max(similarity.calculate(dataset, cluster), axis=1)
         self.similarity = similarity
     def pfa(self, x, y):
-        x = "metricX"
-        y = "metricY"
         return {"metric.chebyshev": [self.similarity.pfa(), x, y]}
 
 class Taxicab(Metric):
@@ -105,8 +101,6 @@ class Taxicab(Metric):
         self.calculate = lambda dataset, cluster: numpy.sum(similarity.calculate(dataset, cluster), axis=1)
         self.similarity = similarity
     def pfa(self, x, y):
-        x = "metricX"
-        y = "metricY"
         return {"metric.taxicab": [self.similarity.pfa(), x, y]}
 
 class Minkowski(Metric):
@@ -116,8 +110,6 @@ class Minkowski(Metric):
         self.similarity = similarity
         self.p = p
     def pfa(self, x, y):
-        x = "metricX"
-        y = "metricY"
         return {"metric.minkowski": [self.similarity.pfa(), x, y, self.p]}
 
 ### stopping conditions are functions that take iterationNumber (int),
-- 
2.43.0


From 6137617c52e3d00665fab18cd5bf39349e4ef6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:31 +0000
Subject: [PATCH 158/203] fix: the Minkowski metric of k-means can be
 calculated (AttributeError)

---
 titus/producer/kmeans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/kmeans.py b/titus/producer/kmeans.py
index e8cba8c..98ec4d7 100644
--- a/titus/producer/kmeans.py
+++ b/titus/producer/kmeans.py
@@ -106,7 +106,7 @@ class Taxicab(Metric):
 class Minkowski(Metric):
     """Minkowski metric for Numpy and PFA."""
     def __init__(self, similarity, p):
-        self.calculate = lambda dataset, cluster: numpy.pow(numpy.sum(numpy.pow(similarity.calculate(dataset, cluster), p), axis=1), 1.0/p)
+        self.calculate = lambda dataset, cluster: numpy.power(numpy.sum(numpy.power(similarity.calculate(dataset, cluster), p), axis=1), 1.0/p)
         self.similarity = similarity
         self.p = p
     def pfa(self, x, y):
-- 
2.43.0


From 2f4cb299d9d7b718039bc47d5deb6cdc6cecb4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:31 +0000
Subject: [PATCH 159/203] fix: k-means documents with populations name the
 field as their data do

---
 titus/producer/kmeans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/kmeans.py b/titus/producer/kmeans.py
index 98ec4d7..356cf49 100644
--- a/titus/producer/kmeans.py
+++ b/titus/producer/kmeans.py
@@ -582,7 +582,7 @@ class KMeans(object):
 
         if populations:
             populationsField = '''
-    populations: int,
+    population: int,
 '''
         else:
             populationsField = ""
-- 
2.43.0


From ab4045a1e2df6ab374ceddfabf836a83086ebc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:31 +0000
Subject: [PATCH 160/203] fix: k-means takes datasets of integers (their
 clusters could not move)

---
 titus/producer/kmeans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/kmeans.py b/titus/producer/kmeans.py
index 356cf49..631f19c 100644
--- a/titus/producer/kmeans.py
+++ b/titus/producer/kmeans.py
@@ -312,7 +312,7 @@ class KMeans(object):
         :return: a *copy* of a random point
         """
         # make sure to copy it, so there are no hidden connections between dataset and clusters
-        return self.uniques[random.randint(0, self.uniques.shape[0] - 1),:].copy()
+        return self.uniques[random.randint(0, self.uniques.shape[0] - 1),:].astype(numpy.dtype(float))
 
     def newCluster(self):
         """Pick a random point from the dataset and ensure that it is different from all other cluster centers.
-- 
2.43.0


From 7772b2377bf6028e78006624eb34f0cf00c3e581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:31 +0000
Subject: [PATCH 161/203] fix: weighted k-means moves clusters to the weighted
 means of their points (ValueError, or steps that grow with the weights)

---
 titus/producer/kmeans.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/titus/producer/kmeans.py b/titus/producer/kmeans.py
index 631f19c..cd3e3a0 100644
--- a/titus/producer/kmeans.py
+++ b/titus/producer/kmeans.py
@@ -396,9 +396,6 @@ class KMeans(object):
             selection = (indexOfClosestCluster == clusterIndex)
             residuals = (dataset - cluster)[selection]
 
-            # weights scale the residuals
-            if weights is not None:
-                residuals *= weights[selection]
 
             if self.minPointsInCluster is not None and numpy.sum(selection) < self.minPointsInCluster:
                 # too few points in this cluster; jump to a new random point
@@ -409,7 +406,11 @@ class KMeans(object):
             else:
                 # compute the mean of the displacements of points associated with this cluster
                 # (note that the similarity metric used here is the trivial one, possibly different from the classification metric)
-                correction = residuals.mean(axis=0)
+                if weights is None:
+                    correction = residuals.mean(axis=0)
+                else:
+                    # weights scale the residuals
+                    correction = (residuals * weights[selection][:,numpy.newaxis]).sum(axis=0) / weights[selection].sum()
                 numpy.add(cluster, correction, cluster)
 
                 if not numpy.isfinite(cluster).all():
-- 
2.43.0


From 32e5ec737003848dbe9f7819f6be6df24a9fa6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:31 +0000
Subject: [PATCH 162/203] fix: k-means goes on if a cluster jumped and stops if
 none did, as documented (was the opposite)

---
 titus/producer/kmeans.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/titus/producer/kmeans.py b/titus/producer/kmeans.py
index cd3e3a0..791ec56 100644
--- a/titus/producer/kmeans.py
+++ b/titus/producer/kmeans.py
@@ -117,7 +117,7 @@ class Minkowski(Metric):
 # return bool (continue iterating if True)
 
 ### they may be user-defined or constructed from these functions like
-# whileall(printChange("6.4f"), halfChange(0.001), clusterJumped()) to
+# whileall(printChange("6.4f"), whileany(halfChange(0.001), clusterJumped())) to
 # print iteration data, stop when at least half change by less than
 # 0.001, and keep going if one jumped
 
@@ -193,7 +193,7 @@ def clusterJumped():
     :rtype: callable that takes iterationNumber, corrections, values, datasetSize as arguments
     :return: stopping condition function
     """
-    return lambda iterationNumber, corrections, values, datasetSize: all(x is not None for x in corrections)
+    return lambda iterationNumber, corrections, values, datasetSize: any(x is None for x in corrections)
 
 def maxIterations(number):
     """Generates a stopping condition that stops after a given number of iterations have passed.
@@ -251,7 +251,7 @@ def moving():
     :rtype: callable that takes iterationNumber, corrections, values, datasetSize as arguments
     :return: stopping condition function
     """
-    return whileall(clusterJumped(), allChange(1e-15))
+    return whileany(clusterJumped(), allChange(1e-15))
 
 ### the KMeans class
 
-- 
2.43.0


From 50f8b46c7a7fe2f1afa6912af74b4ced404256ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:31 +0000
Subject: [PATCH 163/203] fix: stepup of k-means includes the largest power
 that fits in the dataset (rounding of logarithms left it out)

---
 titus/producer/kmeans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/kmeans.py b/titus/producer/kmeans.py
index 791ec56..abad32d 100644
--- a/titus/producer/kmeans.py
+++ b/titus/producer/kmeans.py
@@ -455,7 +455,7 @@ class KMeans(object):
         else:
             maxPointsForClustering = self.maxPointsForClustering
 
-        trialSizes = [base**x for x in range(int(math.log(maxPointsForClustering, base)) + 1) if base**x > minPointsInCluster]
+        trialSizes = [base**x for x in range(int(math.log(maxPointsForClustering, base)) + 2) if minPointsInCluster < base**x <= maxPointsForClustering]
 
         for trialSize in trialSizes:
             dataset, weights = self.randomSubset(trialSize)
-- 
2.43.0


From c4ee11a654878d32b737abb86903bb7e745d13a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:26 +0000
Subject: [PATCH 164/203] fix: entropy above the cut of a CART split counts the
 records above it (counted one too many, so that worse splits were preferred)

---
 titus/producer/cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/cart.py b/titus/producer/cart.py
index 4de8447..b4ce4df 100644
--- a/titus/producer/cart.py
+++ b/titus/producer/cart.py
@@ -387,7 +387,7 @@ class TreeNode(object):
         
         # for normalizing
         numInSelection = numpy.arange(1, self.datasetSize + 1, dtype=numpy.dtype(float))
-        numNotInSelection = numpy.arange(self.datasetSize, 0, -1, dtype=numpy.dtype(float))
+        numNotInSelection = self.datasetSize - numInSelection
 
         # sum over the values array using Numpy iteration
         selectionEntropy = numpy.zeros(self.datasetSize, dtype=numpy.dtype(float))
-- 
2.43.0


From bb17154daae87bd7a8e149b5e7cbbc146a4220dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:26 +0000
Subject: [PATCH 165/203] fix: CART splits between different values only (took
 the gain of cuts among equal values, which made other splits or none)

---
 titus/producer/cart.py | 54 ++++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/titus/producer/cart.py b/titus/producer/cart.py
index b4ce4df..9b373ec 100644
--- a/titus/producer/cart.py
+++ b/titus/producer/cart.py
@@ -352,6 +352,11 @@ class TreeNode(object):
         else:
             raise RuntimeError
 
+        # no field has different values
+        if self.gain == -numpy.inf:
+            self.gain = 0.0
+            return
+
         # construct a new dataset by splitting the best field, best split
         if self.field.tpe == numbers.Real:
             passSelection = self.field.data <= self.split
@@ -417,9 +422,24 @@ class TreeNode(object):
             antiSelectionEntropy -= selectionEntropyTerm
 
         # calculate gain for all possible index splits
-        # (even if some are not unique--- it's faster to just have Numpy scan over them than to try to skip them)
         gains = -(numInSelection/self.datasetSize)*selectionEntropy - (numNotInSelection/self.datasetSize)*antiSelectionEntropy
 
+        return self.bestCut(values, gains)
+
+    def bestCut(self, values, gains):
+        """Find the cut with the highest gain among those that separate the (sorted) values.
+
+        :type values: 1-d Numpy array
+        :param values: sorted values of the predictor
+        :type gains: 1-d Numpy array
+        :param gains: gain of a cut between each value and the next
+        :rtype: (number, number)
+        :return: (best gain term, best cut value); the gain term is minus infinity if all values are equal
+        """
+
+        # equal values can't be separated
+        gains = numpy.where(values[:-1] < values[1:], gains[:len(values) - 1], -numpy.inf)
+
         # find the highest gain, preferring larger indexes if there's a tie
         # (that's why we reverse the order of the list with [::-1] and then correct for the index for the reversal)
         maxGainIndex = len(gains) - 1 - numpy.argmax(gains[::-1])
@@ -427,11 +447,9 @@ class TreeNode(object):
 
         # for niceness, put the cut between the best index (assuming the cut is "<=") and the next one,
         # so that the cut could equivalently be "<"
-        # (the next higher should be exactly one higher because we picked the larger indexes in a tie above)
-        nextHigher = maxGainIndex
-        while nextHigher < self.datasetSize - 1 and values[nextHigher] == values[maxGainIndex]:
-            nextHigher += 1
-        cutValue = (values[maxGainIndex] + values[nextHigher]) / 2.0
+        cutValue = (values[maxGainIndex] + values[maxGainIndex + 1]) / 2.0
+        if not values[maxGainIndex] <= cutValue < values[maxGainIndex + 1]:
+            cutValue = values[maxGainIndex]
 
         return gainTerm, cutValue
 
@@ -479,6 +497,10 @@ class TreeNode(object):
         else:
             maxSubsetSize = min(maxSubsetSize, maxInformativeSubset)
 
+        # a single category can't be split
+        if len(remainingPredictorCategories) == 1:
+            return -numpy.inf, tuple(remainingPredictorCategories)
+
         bestGainTerm = None
         bestCombination = None
         for howMany in range(1, maxSubsetSize + 1):
@@ -547,23 +569,9 @@ class TreeNode(object):
         nTimesVarianceInAntiselection = sumxxantisel[:-1] - (sumxantisel[:-1]**2/sum1antisel[:-1])
 
         # calculate gain for all possible index splits
-        # (even if some are not unique--- it's faster to just have Numpy scan over them than to try to skip them)
         gains = -nTimesVarianceInSelection - nTimesVarianceInAntiselection
 
-        # find the highest gain, preferring larger indexes if there's a tie
-        # (that's why we reverse the order of the list with [::-1] and then correct for the index for the reversal)
-        maxGainIndex = len(gains) - 1 - numpy.argmax(gains[::-1])
-        gainTerm = gains[maxGainIndex]
-
-        # for niceness, put the cut between the best index (assuming the cut is "<=") and the next one,
-        # so that the cut could equivalently be "<"
-        # (the next higher should be exactly one higher because we picked the larger indexes in a tie above)
-        nextHigher = maxGainIndex
-        while nextHigher < self.datasetSize - 1 and values[nextHigher] == values[maxGainIndex]:
-            nextHigher += 1
-        cutValue = (values[maxGainIndex] + values[nextHigher]) / 2.0
-
-        return gainTerm, cutValue
+        return self.bestCut(values, gains)
 
     def categoricalNVarianceGainTerm(self, field, maxSubsetSize=None):
         """Split a categorical predictor in such a way that maximizes n-times-variance gain inside and outside of a subset of predictor values.
@@ -605,6 +613,10 @@ class TreeNode(object):
         else:
             maxSubsetSize = min(maxSubsetSize, maxInformativeSubset)
 
+        # a single category can't be split
+        if len(fieldUniques) == 1:
+            return -numpy.inf, tuple(fieldUniques)
+
         bestGainTerm = None
         bestCombination = None
         for howMany in range(1, maxSubsetSize + 1):
-- 
2.43.0


From d5a0057a370e42d4998f2a8ec902ba8e583dbead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:26 +0000
Subject: [PATCH 166/203] fix: CART regression splits on the categories it
 chose (below the root, took others if some weren't in the node)

---
 titus/producer/cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/cart.py b/titus/producer/cart.py
index 9b373ec..78e9645 100644
--- a/titus/producer/cart.py
+++ b/titus/producer/cart.py
@@ -642,7 +642,7 @@ class TreeNode(object):
                 # find the best one
                 if bestGainTerm is None or gainTerm > bestGainTerm:
                     bestGainTerm = gainTerm
-                    bestCombination = categorySet
+                    bestCombination = tuple(fieldUniques[selection])
 
         return bestGainTerm, bestCombination
 
-- 
2.43.0


From 5c6446f4717c5f69dd20b929640c754d6597634b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:26 +0000
Subject: [PATCH 167/203] fix: CART nodes with a single category can't be split
 (canSplit)

---
 titus/producer/cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/cart.py b/titus/producer/cart.py
index 78e9645..229068c 100644
--- a/titus/producer/cart.py
+++ b/titus/producer/cart.py
@@ -270,7 +270,7 @@ class TreeNode(object):
         if self.predictand.tpe == numbers.Real:
             return len(self.predictandUnique) > 1
         elif self.predictand.tpe == str:
-            return numpy.count_nonzero(self.predictandDistribution) > 0
+            return numpy.count_nonzero(self.predictandDistribution) > 1
         else:
             raise RuntimeError
 
-- 
2.43.0


From c5b968d685c510b3faec875675ce0520a3f9415f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:26 +0000
Subject: [PATCH 168/203] fix: splitField of a CART leaf is None, as documented

---
 titus/producer/cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/cart.py b/titus/producer/cart.py
index 229068c..9bd7c4a 100644
--- a/titus/producer/cart.py
+++ b/titus/producer/cart.py
@@ -803,7 +803,7 @@ class TreeNode(object):
 
     def splitField(self):
         """Return the name of the input field at this split or ``None`` if this is a leaf node."""
-        if hasattr(self, "fieldIndex"):
+        if hasattr(self, "passBranch"):
             return self.dataset.names[self.fieldIndex]
         else:
             return None
-- 
2.43.0


From 1f427bf1c82784ec704ab7742594552307fc95df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:26 +0000
Subject: [PATCH 169/203] fix: CART score distributions are fractions (were
 truncated to zero as int)

---
 titus/producer/cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/cart.py b/titus/producer/cart.py
index 9bd7c4a..92cf2de 100644
--- a/titus/producer/cart.py
+++ b/titus/producer/cart.py
@@ -781,7 +781,7 @@ class TreeNode(object):
         if predictandDistribution:
             if self.predictand.tpe != str:
                 raise TypeError("predictandDistribution can only be used if the predictand is a string (classification trees)")
-            out["fields"].append({"name": "scoreDistribution", "type": {"type": "map", "values": "int"}})
+            out["fields"].append({"name": "scoreDistribution", "type": {"type": "map", "values": "double"}})
 
         if predictandUnique:
             out["fields"].append({"name": "scoreValues", "type": {"type": "array", "items": scoreType}})
-- 
2.43.0


From e2718bfc6395cbc55f9f1ae96faf91744110cfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:09 +0000
Subject: [PATCH 170/203] fix: cuts of a CART tree are valid values of their
 type (integer cuts were truncated to another cut; integers beside doubles and
 strings made invalid documents)

---
 titus/producer/cart.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/titus/producer/cart.py b/titus/producer/cart.py
index 92cf2de..72ceb6e 100644
--- a/titus/producer/cart.py
+++ b/titus/producer/cart.py
@@ -27,6 +27,7 @@ import numpy
 
 from titus.signature import LabelData
 from titus.datatype import ForwardDeclarationParser
+from titus.datatype import AvroInt, AvroLong, AvroFloat, AvroDouble
 from titus.datatype import AvroUnion
 import titus.prettypfa
 
@@ -858,13 +859,15 @@ class TreeNode(object):
 
             if valueType is None:
                 valueType = self.pfaValueType(dataType)
+            numberType = valueType
+            if isinstance(valueType, AvroUnion) and operator == "<=":
+                # all numerical fields share one number type in the union
+                numberType, = [x for x in valueType.types if isinstance(x, (AvroInt, AvroLong, AvroFloat, AvroDouble))]
+            if isinstance(numberType, (AvroInt, AvroLong)) and operator == "<=":
+                # a cut between integers, as an integer
+                value = int(math.floor(value))
             if isinstance(valueType, AvroUnion):
-                specificType, = [x["type"] for x in dataType["fields"] if x["name"] == fieldName]
-                if operator == "in" or operator == "notIn":
-                    specificType = {"type": "array", "items": specificType}
-                if isinstance(specificType, dict):
-                    specificType = specificType["type"]
-                value = {specificType: value}
+                value = {{"<=": numberType.name, "==": "string", "in": "array"}[operator]: value}
             
             passBranch = self.passBranch.pfaValue(dataType, treeTypeName, nodeScores, datasetSize, predictandDistribution, predictandUnique, entropy, nTimesVariance, gain, valueType)
             failBranch = self.failBranch.pfaValue(dataType, treeTypeName, nodeScores, datasetSize, predictandDistribution, predictandUnique, entropy, nTimesVariance, gain, valueType)
-- 
2.43.0


From b09880add0521f1e36d5378536817ee9cd42b610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:09 +0000
Subject: [PATCH 171/203] fix: CART documents refer to namespaced data types by
 their full names

---
 titus/producer/cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/cart.py b/titus/producer/cart.py
index 72ceb6e..c7877f8 100644
--- a/titus/producer/cart.py
+++ b/titus/producer/cart.py
@@ -948,7 +948,7 @@ class TreeNode(object):
 
         if dataType is None:
             dataType = inputType
-        dataTypeName = dataType["name"]
+        dataTypeName = dataType["namespace"] + "." + dataType["name"] if "namespace" in dataType else dataType["name"]
 
         scoreType = self.pfaScoreType()
         treeType = self.pfaType(dataType, treeTypeName, nodeScores, datasetSize, predictandDistribution, predictandUnique, entropy, nTimesVariance, gain)
-- 
2.43.0


From a197f3e572d238d9ba8111eadb0c35727d89bf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:50 +0000
Subject: [PATCH 172/203] fix: lower limits of inspector ranges (1 < # included
 1, and 1 <= # did not)

---
 titus/inspector/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/inspector/parser.py b/titus/inspector/parser.py
index e9aac88..fd4a621 100644
--- a/titus/inspector/parser.py
+++ b/titus/inspector/parser.py
@@ -660,7 +660,7 @@ class Parser(object):
                       | INTEGER  LE "#" LE FLOATING
                       | FLOATING LE "#" LE INTEGER
                       | FLOATING LE "#" LE FLOATING'''
-            reverse = {"<": ">=", "<=": ">"}
+            reverse = {"<": ">", "<=": ">="}
             p[0] = AndChain([Range(reverse[p[2]], p[1].num, self.lexer.lexpos),
                              Range(p[4], p[5].num, self.lexer.lexpos)])
 
-- 
2.43.0


From 4d2c6728a937f89b71b406497cf113a96acf79aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:50 +0000
Subject: [PATCH 173/203] fix: inspector patterns can be compared (TypeError as
 a command's only argument)

---
 titus/inspector/parser.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/titus/inspector/parser.py b/titus/inspector/parser.py
index fd4a621..d85906b 100644
--- a/titus/inspector/parser.py
+++ b/titus/inspector/parser.py
@@ -264,7 +264,7 @@ class Approx(Ast):
         return "Approx({0}, {1})".format(repr(self.central), repr(self.error))
     def __str__(self):
         return str(self.central) + " +- " + str(self.error)
-    def __eq__(self):
+    def __eq__(self, other):
         return isinstance(other, Approx) and self.central == other.central and self.error == other.error
     def regex(self):
         return t.Approx(self.central, self.error)
@@ -288,7 +288,7 @@ class Group(Ast):
         return "Group({0}, {1})".format(repr(self.item), self.counter)
     def __str__(self):
         return "(" + str(self.item) + ")"
-    def __eq__(self):
+    def __eq__(self, other):
         return isinstance(other, Group) and self.item == other.item
     def regex(self):
         return t.Group(**{str(self.counter): self.item.regex()})
@@ -308,7 +308,7 @@ class Range(Ast):
         return "Range({0} {1})".format(self.operator, self.comparator)
     def __str__(self):
         return "# " + self.operator + " " + str(self.comparator)
-    def __eq__(self):
+    def __eq__(self, other):
         return isinstance(other, Range) and self.operator == other.operator and self.comparator == other.comparator
     def regex(self):
         if self.operator is None:
@@ -333,7 +333,7 @@ class OrChain(Ast):
         return "OrChain([{0}])".format(", ".join(map(repr, self.chain)))
     def __str__(self):
         return " | ".join(map(str, self.chain))
-    def __eq__(self):
+    def __eq__(self, other):
         return isinstance(other, OrChain) and self.chain == other.chain
     def regex(self):
         return t.Or(*[x.regex() for x in self.chain])
@@ -347,7 +347,7 @@ class AndChain(Ast):
         return "AndChain([{0}])".format(", ".join(map(repr, self.chain)))
     def __str__(self):
         return " & ".join(map(str, self.chain))
-    def __eq__(self):
+    def __eq__(self, other):
         return isinstance(other, AndChain) and self.chain == other.chain
     def regex(self):
         return t.And(*[x.regex() for x in self.chain])
-- 
2.43.0


From 5d0a46db426c2eb46222f0a25127d2daa3b273b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:50 +0000
Subject: [PATCH 174/203] fix: inspector arrays as values and as patterns are
 told apart (the second definition of value was meant to be regex)

---
 titus/inspector/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/titus/inspector/parser.py b/titus/inspector/parser.py
index d85906b..7240991 100644
--- a/titus/inspector/parser.py
+++ b/titus/inspector/parser.py
@@ -372,10 +372,10 @@ class JsonArray(Ast):
             item.checkPartial(text)
     def value(self):
         if self.startEllipsis or self.endEllipsis:
-            super(JsonObject, self).value()
+            super(JsonArray, self).value()
         else:
             return [x.value() for x in self.items]
-    def value(self):
+    def regex(self):
         if self.startEllipsis and self.endEllipsis:
             raise NotImplementedError
         elif self.startEllipsis and not self.endEllipsis:
@@ -386,7 +386,7 @@ class JsonArray(Ast):
             return [x.regex() for x in self.items]
     def replacement(self):
         if self.startEllipsis or self.endEllipsis:
-            super(JsonObject, self).replacement()
+            super(JsonArray, self).replacement()
         else:
             return [x.replacement() for x in self.items]
 
-- 
2.43.0


From 75a7fe1dbc30efa2348865bf943055aa7616d6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:50 +0000
Subject: [PATCH 175/203] fix: inspector object keys null, true and false are
 strings

---
 titus/inspector/parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/titus/inspector/parser.py b/titus/inspector/parser.py
index 7240991..6bdb1a7 100644
--- a/titus/inspector/parser.py
+++ b/titus/inspector/parser.py
@@ -224,17 +224,17 @@ class JsonObject(Ast):
         if self.ellipsis:
             super(JsonObject, self).value()
         else:
-            return dict((p.key.value(), p.value.value()) for p in self.pairs)
+            return dict((p.key.text, p.value.value()) for p in self.pairs)
     def regex(self):
         if self.ellipsis:
-            return t.Min(**dict((p.key.value(), p.value.regex()) for p in self.pairs))
+            return t.Min(**dict((p.key.text, p.value.regex()) for p in self.pairs))
         else:
-            return dict((p.key.value(), p.value.regex()) for p in self.pairs)
+            return dict((p.key.text, p.value.regex()) for p in self.pairs)
     def replacement(self):
         if self.ellipsis:
             super(JsonObject, self).replacement()
         else:
-            return dict((p.key.replacement(), p.value.replacement()) for p in self.pairs)
+            return dict((p.key.text, p.value.replacement()) for p in self.pairs)
 
 class Pair(Ast):
     """AST for a key-value pair in a JSON object."""
-- 
2.43.0


From 7b1340e27ccc963a24fe9d4b764c3ba71897f1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:50 +0000
Subject: [PATCH 176/203] fix: inspector reports unterminated and invalid
 strings as parse errors (SyntaxError)

---
 titus/inspector/parser.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/titus/inspector/parser.py b/titus/inspector/parser.py
index 6bdb1a7..7b3fca4 100644
--- a/titus/inspector/parser.py
+++ b/titus/inspector/parser.py
@@ -503,12 +503,18 @@ class Parser(object):
 
         def t_STRING(t):
             r'''"([^\\"]|\\.)*"'''
-            t.value = String(pythonast.literal_eval(t.value), False, t.lexpos)
+            try:
+                t.value = String(pythonast.literal_eval(t.value), False, t.lexpos)
+            except (SyntaxError, ValueError):
+                raise ParserError(self.text, t.lexpos)
             return t
 
         def t_PARTSTRING(t):
             r'''"([^\\"]|\\.)*$'''
-            t.value = String(pythonast.literal_eval(t.value), True, t.lexpos)
+            try:
+                t.value = String(pythonast.literal_eval(t.value + '"'), True, t.lexpos)
+            except (SyntaxError, ValueError):
+                raise ParserError(self.text, t.lexpos)
             return t
 
         def t_FLOATING(t):
-- 
2.43.0


From 47698fbe997a9cc44a2c60d01f30dc8fc2be9aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:50 +0000
Subject: [PATCH 177/203] fix: inspector reports incomplete pairs inside of
 groups as parse errors (AttributeError)

---
 titus/inspector/parser.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/titus/inspector/parser.py b/titus/inspector/parser.py
index 7b3fca4..e54f6bc 100644
--- a/titus/inspector/parser.py
+++ b/titus/inspector/parser.py
@@ -290,6 +290,9 @@ class Group(Ast):
         return "(" + str(self.item) + ")"
     def __eq__(self, other):
         return isinstance(other, Group) and self.item == other.item
+    def checkPartial(self, text):
+        super(Group, self).checkPartial(text)
+        self.item.checkPartial(text)
     def regex(self):
         return t.Group(**{str(self.counter): self.item.regex()})
     def replacement(self):
@@ -335,6 +338,10 @@ class OrChain(Ast):
         return " | ".join(map(str, self.chain))
     def __eq__(self, other):
         return isinstance(other, OrChain) and self.chain == other.chain
+    def checkPartial(self, text):
+        super(OrChain, self).checkPartial(text)
+        for item in self.chain:
+            item.checkPartial(text)
     def regex(self):
         return t.Or(*[x.regex() for x in self.chain])
 
@@ -349,6 +356,10 @@ class AndChain(Ast):
         return " & ".join(map(str, self.chain))
     def __eq__(self, other):
         return isinstance(other, AndChain) and self.chain == other.chain
+    def checkPartial(self, text):
+        super(AndChain, self).checkPartial(text)
+        for item in self.chain:
+            item.checkPartial(text)
     def regex(self):
         return t.And(*[x.regex() for x in self.chain])
 
-- 
2.43.0


From 7d631557556e25b8652b50bdcc995f1c837bab2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:50 +0000
Subject: [PATCH 178/203] fix: inspector reports invalid regular expressions as
 parse errors (re.error)

---
 titus/inspector/parser.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/titus/inspector/parser.py b/titus/inspector/parser.py
index e54f6bc..4a387ce 100644
--- a/titus/inspector/parser.py
+++ b/titus/inspector/parser.py
@@ -489,6 +489,10 @@ class Parser(object):
             r'''\?(/(([^\\/]|\\.)*)/)([ilmsuxILMSUX]+)?'''
             m = re.match(t_REGEX.__doc__, t.value)
             find = m.groups()[1]
+            try:
+                re.compile(find)
+            except re.error:
+                raise ParserError(self.text, t.lexpos)
             flags = m.groups()[3]
             t.value = Regex(t.value, find, None, flags, t.lexpos)
             return t
@@ -497,6 +501,10 @@ class Parser(object):
             r'''@(/(([^\\/]|\\.)*)/)((([^\\/]|\\.)*)/)([ilmsuxILMSUX]+)?'''
             m = re.match(t_REGEXSUBS.__doc__, t.value)
             find = m.groups()[1]
+            try:
+                re.compile(find)
+            except re.error:
+                raise ParserError(self.text, t.lexpos)
             to = m.groups()[4]
             flags = m.groups()[6]
             t.value = Regex(t.value, find, to, flags, t.lexpos)
-- 
2.43.0


From e33f64d307a44843fe54db13d9c82930702c7f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:50 +0000
Subject: [PATCH 179/203] fix: inspector commands refuse too many arguments
 (TypeError)

---
 titus/inspector/defs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/inspector/defs.py b/titus/inspector/defs.py
index e9e8b26..9ceff3d 100644
--- a/titus/inspector/defs.py
+++ b/titus/inspector/defs.py
@@ -525,7 +525,7 @@ class SimpleCommand(Command):
 
             if self.minargs is not None and len(args) < self.minargs:
                 raise InspectorError("too few arguments (at least {0} are required)".format(self.minargs))
-            if self.maxargs is not None and len(args) < self.maxargs:
+            if self.maxargs is not None and len(args) > self.maxargs:
                 raise InspectorError("too many arguments (at most {0} are required)".format(self.maxargs))
 
             out = self._action(*[x.text for x in args])
-- 
2.43.0


From 3aeb5baf1a218b097ed1fd98d2792d5dbce37bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:50 +0000
Subject: [PATCH 180/203] fix: inspector keeps a document that is renamed to
 its own name (was deleted)

---
 titus/inspector/main.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/titus/inspector/main.py b/titus/inspector/main.py
index c524e0d..28ab94b 100644
--- a/titus/inspector/main.py
+++ b/titus/inspector/main.py
@@ -87,8 +87,7 @@ class InspectorMode(Mode):
                 elif len(args) == 3 and isinstance(args[0], parser.Word) and args[1] == parser.Word("as") and isinstance(args[2], parser.Word):
                     if args[0].text not in self.mode.pfaFiles:
                         raise InspectorError("no PFA document named \"{0}\" in memory".format(args[0].text))
-                    self.mode.pfaFiles[args[2].text] = self.mode.pfaFiles[args[0].text]
-                    del self.mode.pfaFiles[args[0].text]
+                    self.mode.pfaFiles[args[2].text] = self.mode.pfaFiles.pop(args[0].text)
                 else:
                     self.syntaxError()
 
-- 
2.43.0


From dac4423ff776bb43fd698e54ea5bcc004781be4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:50 +0000
Subject: [PATCH 181/203] fix: inspector writes saved files out (were left open
 and could stay empty)

---
 titus/inspector/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/titus/inspector/main.py b/titus/inspector/main.py
index 28ab94b..7cafdc7 100644
--- a/titus/inspector/main.py
+++ b/titus/inspector/main.py
@@ -137,7 +137,8 @@ class InspectorMode(Mode):
                     if name not in self.mode.pfaFiles:
                         raise InspectorError("no PFA document named \"{0}\" in memory".format(name))
                     try:
-                        json.dump(self.mode.pfaFiles[name].obj, open(args[2].text, "w"))
+                        with open(args[2].text, "w") as outputFile:
+                            json.dump(self.mode.pfaFiles[name].obj, outputFile)
                     except IOError as err:
                         raise InspectorError(err)
                 else:
-- 
2.43.0


From e285bfa04008850f2161a9db676b5c8d5ffad1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:50 +0000
Subject: [PATCH 182/203] fix: inspector reports files that are not JSON as
 errors (stack trace)

---
 titus/inspector/main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/titus/inspector/main.py b/titus/inspector/main.py
index 7cafdc7..f48472d 100644
--- a/titus/inspector/main.py
+++ b/titus/inspector/main.py
@@ -60,8 +60,9 @@ class InspectorMode(Mode):
                     print(self.help)
                 elif len(args) == 3 and isinstance(args[0], parser.FilePath) and args[1] == parser.Word("as") and isinstance(args[2], parser.Word):
                     try:
-                        data = json.load(open(args[0].text))
-                    except IOError as err:
+                        with open(args[0].text) as inputFile:
+                            data = json.load(inputFile)
+                    except (IOError, ValueError) as err:
                         raise InspectorError(err)
                     self.mode.pfaFiles[args[2].text] = Model(data)
                 else:
-- 
2.43.0


From 18b6c9bb71e26ac160f69305ec27a0936e19e2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:50 +0000
Subject: [PATCH 183/203] fix: json change can be one of the inspector's
 initial commands (AttributeError)

---
 titus/inspector/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/inspector/main.py b/titus/inspector/main.py
index f48472d..98c3fc0 100644
--- a/titus/inspector/main.py
+++ b/titus/inspector/main.py
@@ -195,12 +195,12 @@ class InspectorMode(Mode):
         print("""Titus PFA Inspector (version {0})
 Type 'help' for a list of commands.""".format(titus.version.__version__))
 
+        super(InspectorMode, self).__init__()
+
         for initialCommand in initialCommands:
             print(initialCommand)
             self.action(initialCommand)
 
-        super(InspectorMode, self).__init__()
-
     def complete(self, established, active):
         """Handle tab-complete for this command's arguments.
 
-- 
2.43.0


From f32eb0c746c97926f186349ef97f2b45d9549cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:50 +0000
Subject: [PATCH 184/203] fix: json find reports unrecognized options
 (IndexError)

---
 titus/inspector/jsongadget.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/inspector/jsongadget.py b/titus/inspector/jsongadget.py
index 88877ef..633feca 100644
--- a/titus/inspector/jsongadget.py
+++ b/titus/inspector/jsongadget.py
@@ -366,7 +366,7 @@ class FindCommand(Command):
                     except TypeError:
                         raise InspectorError("illegal value for {0}".format(opt.word.text))
                 else:
-                    raise InspectorError("option {1} unrecognized".format(opt.word.text))
+                    raise InspectorError("option {0} unrecognized".format(opt.word.text))
 
             if not isinstance(options["maxDepth"], int) or options["maxDepth"] <= 0:
                 raise InspectorError("maxDepth must be a positive integer")
-- 
2.43.0


From ca9cdc360301747fea9a3ef11691e662910dc6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:17 +0000
Subject: [PATCH 185/203] fix: json commands report arguments that are not
 patterns or replacements (TypeError)

---
 titus/inspector/jsongadget.py | 42 +++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/titus/inspector/jsongadget.py b/titus/inspector/jsongadget.py
index 633feca..702b8f6 100644
--- a/titus/inspector/jsongadget.py
+++ b/titus/inspector/jsongadget.py
@@ -46,6 +46,34 @@ def depthGreaterThan(obj, target):
     else:
         return target < 0
         
+def getpattern(arg):
+    """Get the pattern that an argument denotes.
+
+    :type arg: titus.inspector.parser.Ast
+    :param arg: argument passed to a command
+    :rtype: pattern for titus.producer.tools
+    :return: the pattern; an argument that is not a pattern raises a titus.inspector.defs.InspectorError
+    """
+
+    try:
+        return arg.regex()
+    except TypeError as err:
+        raise InspectorError(str(err))
+
+def getreplacement(arg):
+    """Get the replacement that an argument denotes.
+
+    :type arg: titus.inspector.parser.Ast
+    :param arg: argument passed to a command
+    :rtype: Pythonized JSON, possibly with titus.inspector.parser.Replacement
+    :return: the replacement; an argument that is not a replacement raises a titus.inspector.defs.InspectorError
+    """
+
+    try:
+        return arg.replacement()
+    except TypeError as err:
+        raise InspectorError(str(err))
+
 class LookCommand(Command):
     """The 'json look' command in pfainspector."""
 
@@ -219,7 +247,7 @@ class CountCommand(Command):
             else:
                 self.syntaxError()
 
-            regex = args[-1].regex()
+            regex = getpattern(args[-1])
             print("{0} matches".format(t.count(regex, node)))
 
 class IndexCommand(Command):
@@ -286,7 +314,7 @@ class IndexCommand(Command):
             else:
                 self.syntaxError()
 
-            regex = args[-1].regex()
+            regex = getpattern(args[-1])
             def display(i):
                 if isinstance(i, str):
                     if " " in i:
@@ -389,7 +417,7 @@ class FindCommand(Command):
             else:
                 self.syntaxError()
 
-            regex = args[-1].regex()
+            regex = getpattern(args[-1])
             def display(i):
                 if isinstance(i, str):
                     if " " in i:
@@ -492,8 +520,8 @@ class ChangeCommand(Command):
                 safecopy = copy.deepcopy(node)
                 def rollback():
                     self.mode.pfaFiles[args[0].text].obj = safecopy
-                regex = args[1].regex()
-                replacement = args[3].replacement()
+                regex = getpattern(args[1])
+                replacement = getreplacement(args[3])
 
             elif len(args) == 4 and isinstance(args[0], parser.Extract):
                 if args[0].text not in self.mode.pfaFiles:
@@ -505,8 +533,8 @@ class ChangeCommand(Command):
                     self.mode.pfaFiles[args[0].text].obj = safecopy
                 items = args[0].items
                 node = extaction(args[0], node, items)
-                regex = args[1].regex()
-                replacement = args[3].replacement()
+                regex = getpattern(args[1])
+                replacement = getreplacement(args[3])
 
             else:
                 self.syntaxError()
-- 
2.43.0


From 4d62d6ab5da4a19dea316b443ef24b03ac9886f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:17 +0000
Subject: [PATCH 186/203] fix: json change asks for the word to (took any
 argument in its place)

---
 titus/inspector/jsongadget.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/titus/inspector/jsongadget.py b/titus/inspector/jsongadget.py
index 702b8f6..94899b2 100644
--- a/titus/inspector/jsongadget.py
+++ b/titus/inspector/jsongadget.py
@@ -512,7 +512,10 @@ class ChangeCommand(Command):
         if len(args) == 1 and args[0] == parser.Word("help"):
             print(self.help)
         else:
-            if len(args) == 4 and isinstance(args[0], parser.Word):
+            if len(args) == 4 and args[2] != parser.Word("to"):
+                self.syntaxError()
+
+            elif len(args) == 4 and isinstance(args[0], parser.Word):
                 if args[0].text not in self.mode.pfaFiles:
                     raise InspectorError("no PFA document named \"{0}\" in memory (try 'load <file> as {1}')".format(args[0].text, args[0].text))
                 model = self.mode.pfaFiles[args[0].text]
-- 
2.43.0


From c0c4aec52c4400c2968fbe60c9bbca42bc40d57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:17 +0000
Subject: [PATCH 187/203] fix: json change can replace the whole document or
 subexpression (IndexError)

---
 titus/inspector/jsongadget.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/titus/inspector/jsongadget.py b/titus/inspector/jsongadget.py
index 94899b2..fd99999 100644
--- a/titus/inspector/jsongadget.py
+++ b/titus/inspector/jsongadget.py
@@ -523,6 +523,7 @@ class ChangeCommand(Command):
                 safecopy = copy.deepcopy(node)
                 def rollback():
                     self.mode.pfaFiles[args[0].text].obj = safecopy
+                path = ()
                 regex = getpattern(args[1])
                 replacement = getreplacement(args[3])
 
@@ -536,6 +537,7 @@ class ChangeCommand(Command):
                     self.mode.pfaFiles[args[0].text].obj = safecopy
                 items = args[0].items
                 node = extaction(args[0], node, items)
+                path = tuple(x.num if isinstance(x, parser.Integer) else x.text for x in items)
                 regex = getpattern(args[1])
                 replacement = getreplacement(args[3])
 
@@ -567,6 +569,12 @@ class ChangeCommand(Command):
                 else:
                     return value
 
+            def assign(index, to):
+                if len(path + index) == 0:
+                    model.obj = to
+                else:
+                    t.assign(model.obj, path + index, to)
+
             def removeAts(obj):
                 if isinstance(obj, dict):
                     return dict((k, removeAts(v)) for k, v in list(obj.items()) if k != "@")
@@ -605,9 +613,9 @@ class ChangeCommand(Command):
                         action = "yes"
 
                     if action == "yes":
-                        t.assign(node, index, replacedReplacement)
+                        assign(index, replacedReplacement)
                     elif action == "all":
-                        t.assign(node, index, replacedReplacement)
+                        assign(index, replacedReplacement)
                         ask = False
                     elif action == "stop":
                         break
-- 
2.43.0


From b51d875129aa4a554e63172ad7dbdc921fe96c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:18 +0000
Subject: [PATCH 188/203] fix: pfa externalize writes its file out (was left
 open and could stay empty)

---
 titus/inspector/pfagadget.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/titus/inspector/pfagadget.py b/titus/inspector/pfagadget.py
index 75a7560..a68472c 100644
--- a/titus/inspector/pfagadget.py
+++ b/titus/inspector/pfagadget.py
@@ -592,7 +592,8 @@ class ExternalizeCommand(Command):
                     raise InspectorError("{0} \"{1}\" is not currently embedded".format(which, args[1].text))
 
                 print("Externalizing {0} \"{1}\" to {2}".format(which, args[1].text, args[2].text))
-                json.dump(obj.get("init"), open(args[2].text, "w"))
+                with open(args[2].text, "w") as outputFile:
+                    json.dump(obj.get("init"), outputFile)
 
                 obj["source"] = "json"
                 obj["init"] = args[2].text
@@ -710,7 +711,8 @@ class InternalizeCommand(Command):
                 if re.match("^[a-zA-Z][a-zA-Z0-9\+\-\.]*://", url) is not None:
                     init = json.load(urllib.request.urlopen(url))
                 else:
-                    init = json.load(open(url))
+                    with open(url) as inputFile:
+                        init = json.load(inputFile)
 
                 del obj["source"]
                 obj["init"] = init
-- 
2.43.0


From 7a110193dc556e5bdf232a566efc95f7f18f98bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:18 +0000
Subject: [PATCH 189/203] fix: pfa externalize takes file names with slashes
 and quoted ones, like save

---
 titus/inspector/pfagadget.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/inspector/pfagadget.py b/titus/inspector/pfagadget.py
index a68472c..1921861 100644
--- a/titus/inspector/pfagadget.py
+++ b/titus/inspector/pfagadget.py
@@ -562,7 +562,7 @@ class ExternalizeCommand(Command):
             if not isinstance(options["cell"], bool):
                 raise InspectorError("cell must be boolean")
 
-            if len(args) == 3 and all(isinstance(x, parser.Word) for x in args):
+            if len(args) == 3 and all(isinstance(x, parser.Word) for x in args[:2]) and isinstance(args[2], parser.FilePath):
                 if args[0].text not in self.mode.pfaFiles:
                     raise InspectorError("no PFA document named \"{0}\" in memory (try 'load <file> as {1}')".format(args[0].text, args[0].text))
                 model = self.mode.pfaFiles[args[0].text].obj
-- 
2.43.0


From 72f23206532c5b09ca03717f93d20002723598dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:25 +0000
Subject: [PATCH 190/203] fix: the inspector's number pattern # does not match
 true and false (other ranges don't)

---
 titus/inspector/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/inspector/parser.py b/titus/inspector/parser.py
index 4a387ce..82f8498 100644
--- a/titus/inspector/parser.py
+++ b/titus/inspector/parser.py
@@ -315,7 +315,7 @@ class Range(Ast):
         return isinstance(other, Range) and self.operator == other.operator and self.comparator == other.comparator
     def regex(self):
         if self.operator is None:
-            return t.Any(int, int, float)
+            return t.GE(float("-inf"))
         elif self.operator == "<":
             return t.LT(self.comparator)
         elif self.operator == "<=":
-- 
2.43.0


From 1c10740603a0aa72e455a74916d9cbeeb4589768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:25 +0000
Subject: [PATCH 191/203] fix: inspector reports invalid substitutions of
 regular expressions (re.error)

---
 titus/inspector/main.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/titus/inspector/main.py b/titus/inspector/main.py
index 98c3fc0..1e8f111 100644
--- a/titus/inspector/main.py
+++ b/titus/inspector/main.py
@@ -19,6 +19,7 @@
 
 import json
 import os
+import re
 import readline
 import sys
 
@@ -230,4 +231,7 @@ Type 'help' for a list of commands.""".format(titus.version.__version__))
                 arg.checkPartial(text)
             except parser.ParserError as err:
                 raise InspectorError(str(err))
-        self.commandGroup.action(args)
+        try:
+            self.commandGroup.action(args)
+        except re.error as err:
+            raise InspectorError("regular expression: {0}".format(err))
-- 
2.43.0


From 4860e769c7eb622b0b4ff79fbee2db2f14fb381c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:19 +0000
Subject: [PATCH 192/203] fix: inspector patterns and objects can be shown in
 messages (TypeError)

---
 titus/inspector/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/inspector/parser.py b/titus/inspector/parser.py
index 82f8498..b012366 100644
--- a/titus/inspector/parser.py
+++ b/titus/inspector/parser.py
@@ -246,7 +246,7 @@ class Pair(Ast):
     def __repr__(self):
         return "Pair({0}, {1}{2})".format(repr(self.key), repr(self.value), " partial" if self.partial else "")
     def __str__(self):
-        return self.key + ": " + str(self.value)
+        return str(self.key) + ": " + str(self.value)
     def __eq__(self, other):
         return isinstance(other, Pair) and self.key == other.key and self.value == other.value
     def checkPartial(self, text):
@@ -310,7 +310,7 @@ class Range(Ast):
     def __repr__(self):
         return "Range({0} {1})".format(self.operator, self.comparator)
     def __str__(self):
-        return "# " + self.operator + " " + str(self.comparator)
+        return "#" if self.operator is None else "# " + self.operator + " " + str(self.comparator)
     def __eq__(self, other):
         return isinstance(other, Range) and self.operator == other.operator and self.comparator == other.comparator
     def regex(self):
-- 
2.43.0


From cd049369b31aea41e10e2cb4eca616d7680b8c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:19 +0000
Subject: [PATCH 193/203] fix: inspector extractions with numbers take array
 items only (KeyError for objects, single characters of strings)

---
 titus/inspector/defs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/titus/inspector/defs.py b/titus/inspector/defs.py
index 9ceff3d..632ea28 100644
--- a/titus/inspector/defs.py
+++ b/titus/inspector/defs.py
@@ -278,6 +278,8 @@ def extaction(args0, node, items):
                 raise InspectorError("{0} has no key {1}".format(args0.strto(index), str(item)))
         elif isinstance(item, parser.Integer):
             try:
+                if not isinstance(node, (list, tuple)):
+                    raise TypeError
                 node = node[item.num]
             except (IndexError, TypeError):
                 raise InspectorError("{0} has no index {1}".format(args0.strto(index), str(item)))
-- 
2.43.0


From 79010a50d049b93af3709f4a09b3489d62b92679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:34 +0000
Subject: [PATCH 194/203] fix: pfa pools counts the elements of a parsed pool
 (TypeError)

---
 titus/inspector/pfagadget.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/inspector/pfagadget.py b/titus/inspector/pfagadget.py
index 1921861..3829cfc 100644
--- a/titus/inspector/pfagadget.py
+++ b/titus/inspector/pfagadget.py
@@ -469,7 +469,7 @@ class CellsPoolsCommand(Command):
                 if self.name == "cells":
                     preamble = "{0}: shared={1} rollback={2} type=".format(name, json.dumps(obj.shared), json.dumps(obj.rollback))
                 elif self.name == "pools":
-                    preamble = "{0}: shared={1} rollback={2} elements={3} type=".format(name, json.dumps(obj.shared), json.dumps(obj.rollback), len(json.loads(obj.init)))
+                    preamble = "{0}: shared={1} rollback={2} elements={3} type=".format(name, json.dumps(obj.shared), json.dumps(obj.rollback), len(obj.initJsonNode))
 
                 ptype = obj.avroType
                 if options["pretty"]:
-- 
2.43.0


From e1bd7cbac873a3e770823b2ce8889af7b3990ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:26 +0000
Subject: [PATCH 195/203] fix: long results of the inspector can be sent to the
 pager (TypeError)

---
 titus/inspector/defs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/inspector/defs.py b/titus/inspector/defs.py
index 632ea28..d017ce0 100644
--- a/titus/inspector/defs.py
+++ b/titus/inspector/defs.py
@@ -321,7 +321,7 @@ def pipe(command):
     :rtype: subprocess.Popen object
     :return: piped subprocess (for further processing)
     """
-    return subprocess.Popen(command, stdin=subprocess.PIPE)
+    return subprocess.Popen(command, stdin=subprocess.PIPE, universal_newlines=True)
 
 def pipewait(proc):
     """Helper function to wait for a subprocess.Popen to complete.
-- 
2.43.0


From 4a444d38688c77c5d40b884fc84ce5d0daca7860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:26 +0000
Subject: [PATCH 196/203] fix: output of external commands is text (the
 inspector's ls showed bytes, or raised TypeError or hung)

---
 titus/inspector/defs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/titus/inspector/defs.py b/titus/inspector/defs.py
index d017ce0..b1fa5fa 100644
--- a/titus/inspector/defs.py
+++ b/titus/inspector/defs.py
@@ -306,9 +306,9 @@ def run(command, *args):
             whole.extend(g)
         else:
             whole.append(arg)
-    proc = subprocess.Popen(whole, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
-    returnCode = proc.wait()
-    output = proc.stdout.read()
+    proc = subprocess.Popen(whole, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
+    output, _ = proc.communicate()
+    returnCode = proc.returncode
     if returnCode != 0:
         output += "\nsubprocesses failed with exit code {0}".format(returnCode)
     return output
-- 
2.43.0


From ca17ff8035d1df0318ef9c18d6504c952363c94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:07 +0000
Subject: [PATCH 197/203] fix: pfaexternalize runs in Python 3 (AttributeError)

---
 scripts/pfaexternalize | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/pfaexternalize b/scripts/pfaexternalize
index 79d1732..3c24f92 100644
--- a/scripts/pfaexternalize
+++ b/scripts/pfaexternalize
@@ -95,7 +95,7 @@ def doMap(parser, writer, stack, extractCells, extractPools, progress):
                 file = None
                 subwriter = writer
 
-            prefix, event, value = parser.next()
+            prefix, event, value = next(parser)
             doValue(event, value, parser, subwriter, stack + [key], extractCells, extractPools, progress)
 
             if file is not None:
-- 
2.43.0


From 74b113c36568f93b665d91199405940ce879fe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:07 +0000
Subject: [PATCH 198/203] fix: pfasize runs in Python 3 (AttributeError)

---
 scripts/pfasize | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/pfasize b/scripts/pfasize
index 931382d..74c602c 100644
--- a/scripts/pfasize
+++ b/scripts/pfasize
@@ -100,7 +100,7 @@ def doMap(parser, stack, currentCounter):
                     print("Pool: {0}".format(stack[1]))
                 currentCounter = CurrentCounter()
 
-            prefix, event, value = parser.next()
+            prefix, event, value = next(parser)
             doValue(event, value, parser, stack + [key], currentCounter)
 
             if shouldTrack:
-- 
2.43.0


From f052586348e6de21d3c50d8a9db812680bac0e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:54 +0000
Subject: [PATCH 199/203] fix: pfasize counts all of a cell or pool (left out
 what follows the start of its last container, and all of simple values)

---
 scripts/pfasize | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/pfasize b/scripts/pfasize
index 74c602c..e84bf1c 100644
--- a/scripts/pfasize
+++ b/scripts/pfasize
@@ -104,6 +104,7 @@ def doMap(parser, stack, currentCounter):
             doValue(event, value, parser, stack + [key], currentCounter)
 
             if shouldTrack:
+                sys.stdout.write("\r" + str(currentCounter))
                 currentCounter = None
                 sys.stdout.write("\n")
                 sys.stdout.flush()
-- 
2.43.0


From 98cb891566d2bf855075c86fce376fa392754116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:51 +0000
Subject: [PATCH 200/203] fix: pfarandom --check makes data for unions with
 arrays and maps (TypeError)

---
 scripts/pfarandom | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/pfarandom b/scripts/pfarandom
index ec920c9..b073c69 100644
--- a/scripts/pfarandom
+++ b/scripts/pfarandom
@@ -86,7 +86,8 @@ def makeData(avroType):
         if isinstance(which, AvroNull):
             return None
         else:
-            return {typeName(which): makeData(which)}
+            tag = which.name if isinstance(which, (AvroArray, AvroMap)) else typeName(which)
+            return {tag: makeData(which)}
 
 def makePFA(avroType, varcount=0):
     if isinstance(avroType, AvroNull):
-- 
2.43.0


From 41b2da3cd89cbf361feb061ecf65642577e05cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:40 +0000
Subject: [PATCH 201/203] fix: bytes from literals and state can be unpacked
 (TypeError)

---
 titus/genpy.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/titus/genpy.py b/titus/genpy.py
index 3083b67..bb7cd29 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -38,6 +38,7 @@ import titus.reader
 import titus.signature
 import titus.util
 from titus.util import DynamicScope
+from titus.util import stringToBytes
 import titus.version
 
 from titus.pfaast import EngineConfig
@@ -1289,6 +1290,9 @@ def unpack(state, scope, byte_s, format, thenClause):
     :return: nothing
     """
 
+    if isinstance(byte_s, str):
+        byte_s = stringToBytes(byte_s)
+
     thenScope = DynamicScope(scope)
     try:
         for s, f, l in format:
@@ -1317,6 +1321,9 @@ def unpackElse(state, scope, byte_s, format, thenClause, elseClause):
     :return: if there was no titus.genpy.MisalignedPacking exception, returns result of ``thenClause``, otherwise, returns result of ``elseClause``
     """
 
+    if isinstance(byte_s, str):
+        byte_s = stringToBytes(byte_s)
+
     thenScope = DynamicScope(scope)
     try:
         for s, f, l in format:
-- 
2.43.0


From d53495e8b05b2aa0a0a4b0fcb907db00f6eb46e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:10 +0000
Subject: [PATCH 202/203] fix: assignAt and assignedAt replace what matches the
 expression as it was, not what matches it half replaced

---
 titus/producer/tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/producer/tools.py b/titus/producer/tools.py
index 715cbc8..047ef5e 100644
--- a/titus/producer/tools.py
+++ b/titus/producer/tools.py
@@ -63,13 +63,13 @@ def assigned(expr, index, to):
 
 def assignAt(pattern, expr, to):
     """Destructively (in-place) replace subexpressions that match a regular expression pattern."""
-    for i in indexes(pattern, expr):
+    for i in list(indexes(pattern, expr)):
         assign(expr, i, to)
 
 def assignedAt(pattern, expr, to):
     """Return a copy of expr with replaced subexpressions at points that match a regular expression pattern."""
     expr = copy.deepcopy(expr)
-    for i in indexes(pattern, expr):
+    for i in list(indexes(pattern, expr)):
         if len(i) == 0:
             return to
         assign(expr, i, to)
-- 
2.43.0


From 16402d87e92cf7065e745e8329cdf25ea54115b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:47 +0000
Subject: [PATCH 203/203] fix: a record compared with a value of a union is
 taken for the record of the union that has its fields, not for one with fewer

---
 titus/datatype.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index a401dbe..523479c 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -1133,7 +1133,8 @@ def findBranch(avroType, x):
             # a number may still have the tag of the narrower type it was promoted from
             if tag in ("int", "long", "float") and isinstance(t, AvroNumber) and isinstance(value, (int, float)) and t.accepts({"int": AvroInt, "long": AvroLong, "float": AvroFloat}[tag]()):
                 return i, t, value
-    for i, t in enumerate(avroType.types):
+    # the encoder ignores keys that a record does not have, so records with exactly these keys come first
+    for i, t in sorted(enumerate(avroType.types), key=lambda it: isinstance(it[1], AvroRecord) and isinstance(x, dict) and set(x) != set(f.name for f in it[1].fields)):
         try:
             jsonEncoder(t, x)
         except titus.errors.AvroException:
-- 
2.43.0

