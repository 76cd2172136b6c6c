From 56f4906f708d6b2f0a3b86265aecfb1fddda2d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 01/64] fix: SumSizeArray: correct misspelled element name when
 the stream has no tell()

---
 src/infi/instruct/array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index ca176ba..1a44447 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -59,7 +59,7 @@ class SumSizeArrayMarshal(ArrayBase, Marshal):
             element_size = stream.tell() if has_tell else 0
             element = self.element_marshal.create_from_stream(stream, context, *args, **kwargs)
             obj.append(element)
-            element_size = stream.tell() - element_size if has_tell else self.element_marshal.sizeof(elemen)
+            element_size = stream.tell() - element_size if has_tell else self.element_marshal.sizeof(element)
             total_bytes -= element_size
         assert total_bytes == 0
         return obj
-- 
2.43.0


From c906c7e2fe55054397f9e8a96a72be4bc7a99423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:13 +0000
Subject: [PATCH 02/64] fix: SumSizeArray: report a size prefix that elements
 do not add up to as InstructError

---
 src/infi/instruct/array.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index 1a44447..cd992cb 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -1,5 +1,6 @@
 from ._compat import range
 from .base import Marshal, ConstReader, EMPTY_CONTEXT, MinMax, FixedSizer
+from .errors import InstructError
 
 class ArrayBase(object):
     def to_repr(self, obj, context=EMPTY_CONTEXT):
@@ -60,8 +61,11 @@ class SumSizeArrayMarshal(ArrayBase, Marshal):
             element = self.element_marshal.create_from_stream(stream, context, *args, **kwargs)
             obj.append(element)
             element_size = stream.tell() - element_size if has_tell else self.element_marshal.sizeof(element)
+            if element_size <= 0:
+                raise InstructError("array has %d bytes left but its elements do not consume any bytes" % (total_bytes,))
             total_bytes -= element_size
-        assert total_bytes == 0
+        if total_bytes != 0:
+            raise InstructError("array elements exceed the declared array size by %d bytes" % (-total_bytes,))
         return obj
 
     def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
-- 
2.43.0


From 85dc6b789532641aab995ff5bd8a1828349a1b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:17 +0000
Subject: [PATCH 03/64] fix: StructSelector: keep the mapping passed by the
 user

---
 src/infi/instruct/struct/selector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/struct/selector.py b/src/infi/instruct/struct/selector.py
index 8d913ca..a83f2cb 100644
--- a/src/infi/instruct/struct/selector.py
+++ b/src/infi/instruct/struct/selector.py
@@ -12,8 +12,8 @@ class StructSelectorMarshal(Marshal):
         self.mapping = {}
         self.default = default
 
-        for key, struct in self.mapping:
-            if not isinstance(struct, Struct):
+        for key, struct in mapping.items():
+            if not (isinstance(struct, type) and issubclass(struct, Struct)):
                 raise ValueError("mapping key %s must be a subclass of Struct" % key)
             self.mapping[key] = struct
 
-- 
2.43.0


From 89eff00260ccbba6d9a91b4f3e46405440cd88c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:20 +0000
Subject: [PATCH 04/64] fix: StructSelector: min/max size is the range over the
 alternatives, not their sum

---
 src/infi/instruct/struct/selector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/selector.py b/src/infi/instruct/struct/selector.py
index a83f2cb..9ca0414 100644
--- a/src/infi/instruct/struct/selector.py
+++ b/src/infi/instruct/struct/selector.py
@@ -19,7 +19,9 @@ class StructSelectorMarshal(Marshal):
 
         structs = values_list(mapping) + ([self.default] if self.default is not None else [])
 
-        self.min_max_size = sum([struct.min_max_sizeof() for struct in structs], ZERO_MIN_MAX)
+        min_maxes = [struct.min_max_sizeof() for struct in structs]
+        self.min_max_size = MinMax(min(min_max.min for min_max in min_maxes),
+                                   max(min_max.max for min_max in min_maxes)) if min_maxes else ZERO_MIN_MAX
 
     def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
         type(obj).write_to_stream(obj, stream, context)
-- 
2.43.0


From c708bc91c7acf3826b990bed3586820a937a3c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:24 +0000
Subject: [PATCH 05/64] fix: FuncStructSelector: build the leftover bytes error
 message without failing

---
 src/infi/instruct/struct/selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/selector.py b/src/infi/instruct/struct/selector.py
index 9ca0414..c9098b8 100644
--- a/src/infi/instruct/struct/selector.py
+++ b/src/infi/instruct/struct/selector.py
@@ -76,7 +76,7 @@ class FuncStructSelectorMarshal(Marshal):
         result = reader.create_from_stream(rstream, context, *args, **kwargs)
         if not rstream.is_read_ahead_empty():
             raise InstructError("deserialized object %s but still have bytes in read-ahead buffer" %
-                                (result.to_repr(context),))
+                                (type(result).to_repr(result, context),))
         return result
 
     def to_repr(self, obj, context=EMPTY_CONTEXT):
-- 
2.43.0


From efe6bfeb6233f3df29651f1fef72ad4656032a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:27 +0000
Subject: [PATCH 06/64] fix: ReadAheadStream: write() checks the read-ahead
 mode attribute that exists

---
 src/infi/instruct/utils/read_ahead_stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/utils/read_ahead_stream.py b/src/infi/instruct/utils/read_ahead_stream.py
index b569d41..404d64f 100644
--- a/src/infi/instruct/utils/read_ahead_stream.py
+++ b/src/infi/instruct/utils/read_ahead_stream.py
@@ -29,6 +29,6 @@ class ReadAheadStream(object):
     def write(self, buf):
         if len(self.buffer) > 0:
             raise IOError("cannot write while there are still bytes in the read-ahead buffer")
-        if self.read_ahead:
+        if self.read_ahead_mode:
             raise IOError("cannot write while in read-ahead mode")
         return self.stream.write(buf)
-- 
2.43.0


From 5416469d46b876362553b10283ec1bab84c51cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 07/64] fix: Lazy: pass field name, marshal and default in the
 right order

---
 src/infi/instruct/struct/lazy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/lazy.py b/src/infi/instruct/struct/lazy.py
index 0a820c2..9a67cd6 100644
--- a/src/infi/instruct/struct/lazy.py
+++ b/src/infi/instruct/struct/lazy.py
@@ -5,7 +5,7 @@ from ..base import FixedSizer, EMPTY_CONTEXT
 
 class LazyField(Field):
     def __init__(self, container, field):
-        super(LazyField, self).__init__(field.name, field.default, field.marshal)
+        super(LazyField, self).__init__(field.name, field.marshal, field.default)
         self.container = container
         self.field = field
 
-- 
2.43.0


From 4787fa83ba8b2b7f3e105cc7aba4a7d11747d2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 08/64] fix: Lazy: write lazy fields with the caller's context

---
 src/infi/instruct/struct/lazy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/lazy.py b/src/infi/instruct/struct/lazy.py
index 9a67cd6..1e76cf1 100644
--- a/src/infi/instruct/struct/lazy.py
+++ b/src/infi/instruct/struct/lazy.py
@@ -59,7 +59,7 @@ class LazyFieldListContainer(FixedSizer, FieldListContainer):
 
     def write_fields(self, obj, stream, context=EMPTY_CONTEXT):
         self.instantiate_if_needed(obj)
-        super(LazyFieldListContainer, self).write_fields(obj, stream)
+        super(LazyFieldListContainer, self).write_fields(obj, stream, context)
 
     def read_fields(self, obj, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         data = stream.read(self.size)
-- 
2.43.0


From b0e0fb8580f732ac0138d36fe827fae657dd6966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 09/64] fix: Lazy: an unset lazy field has its default value

---
 src/infi/instruct/struct/lazy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/lazy.py b/src/infi/instruct/struct/lazy.py
index 1e76cf1..928bd5a 100644
--- a/src/infi/instruct/struct/lazy.py
+++ b/src/infi/instruct/struct/lazy.py
@@ -1,6 +1,6 @@
 from .._compat import StringIO
 
-from . import FieldBase, Field, FieldListContainer
+from . import FieldBase, Field, FieldListContainer, copy_if_supported
 from ..base import FixedSizer, EMPTY_CONTEXT
 
 class LazyField(Field):
@@ -15,6 +15,8 @@ class LazyField(Field):
     def prepare_instance(self, obj, args, kwargs):
         if self.name in kwargs:
             setattr(obj, self.name, kwargs.pop(self.name))
+        elif self.name not in obj.__dict__ and self.container.is_instantiated(obj):
+            setattr(obj, self.name, copy_if_supported(self.default))
 
     def write_fields(self, obj, stream, context=EMPTY_CONTEXT):
         self.field.write_fields(obj, stream, context)
-- 
2.43.0


From 5b59213a5d22bcd3adb7f9a876d1d1e58d4b6428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:41 +0000
Subject: [PATCH 10/64] fix: Lazy: raise NotEnoughDataError when the stream
 ends inside a lazy container

---
 src/infi/instruct/struct/lazy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/infi/instruct/struct/lazy.py b/src/infi/instruct/struct/lazy.py
index 928bd5a..889b91b 100644
--- a/src/infi/instruct/struct/lazy.py
+++ b/src/infi/instruct/struct/lazy.py
@@ -2,6 +2,7 @@ from .._compat import StringIO
 
 from . import FieldBase, Field, FieldListContainer, copy_if_supported
 from ..base import FixedSizer, EMPTY_CONTEXT
+from ..errors import NotEnoughDataError
 
 class LazyField(Field):
     def __init__(self, container, field):
@@ -65,6 +66,8 @@ class LazyFieldListContainer(FixedSizer, FieldListContainer):
 
     def read_fields(self, obj, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         data = stream.read(self.size)
+        if len(data) < self.size:
+            raise NotEnoughDataError(expected=self.size, actually_read=len(data))
         setattr(obj, self.lazy_key, dict(data=data, context=context, args=args, kwargs=kwargs))
 
     def is_instantiated(self, obj):
-- 
2.43.0


From d8d2cbb4e127a122358aed03011a682d97f06093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:45 +0000
Subject: [PATCH 11/64] fix: Struct.sizeof measures the object's own fields

---
 src/infi/instruct/struct/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index 7e08aab..b47cf47 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -186,7 +186,7 @@ class Struct(object):
 
     @classmethod
     def sizeof(cls, obj):
-        return cls._container_.sizeof(obj)
+        return type(obj)._container_.sizeof(obj)
 
     @classmethod
     def write_to_string(cls, obj, context=EMPTY_CONTEXT):
-- 
2.43.0


From d5dcc1c7952f723f68308819f716bf0f36a2a485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 12/64] fix: NumericMarshal: accept the create_from_stream
 arguments every field passes on

---
 src/infi/instruct/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/numeric.py b/src/infi/instruct/numeric.py
index c7af8e3..f0c1e11 100644
--- a/src/infi/instruct/numeric.py
+++ b/src/infi/instruct/numeric.py
@@ -17,7 +17,7 @@ class NumericMarshal(FixedSizer, Marshal):
         self.type = type
         self.size = struct.calcsize(format_string)
 
-    def create_from_stream(self, stream, context=EMPTY_CONTEXT):
+    def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         packed_value = stream.read(self.size)
         if len(packed_value) < self.size:
             raise NotEnoughDataError(expected=self.size, actually_read=len(packed_value))
-- 
2.43.0


From bef3468e6d4d23ee66e4250404caa7eee1176018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:52 +0000
Subject: [PATCH 13/64] fix: NumericMarshal: report a value that overflows the
 format as InstructError

---
 src/infi/instruct/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/numeric.py b/src/infi/instruct/numeric.py
index f0c1e11..d57c5cb 100644
--- a/src/infi/instruct/numeric.py
+++ b/src/infi/instruct/numeric.py
@@ -29,7 +29,7 @@ class NumericMarshal(FixedSizer, Marshal):
     def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
         try:
             stream.write(struct.pack(self.format_string, obj))
-        except struct.error:
+        except (struct.error, OverflowError):
             raise chain_exceptions(InstructError("Packing error occurred"))
 
     def to_repr(self, obj, context=EMPTY_CONTEXT):
-- 
2.43.0


From fa3c30f1448ade419c5936e56bf2c52818dd2b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:56 +0000
Subject: [PATCH 14/64] fix: BytePadding: raise NotEnoughDataError when the
 stream ends inside the padding

---
 src/infi/instruct/padding.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/padding.py b/src/infi/instruct/padding.py
index 31c4c09..f278b2d 100644
--- a/src/infi/instruct/padding.py
+++ b/src/infi/instruct/padding.py
@@ -1,4 +1,5 @@
 from .base import FixedSizer, Marshal, EMPTY_CONTEXT
+from .errors import NotEnoughDataError
 
 class BytePaddingMarshal(FixedSizer, Marshal):
     def __init__(self, size, char=b"\x00"):
@@ -11,7 +12,9 @@ class BytePaddingMarshal(FixedSizer, Marshal):
         stream.write(self.char * self.size)
 
     def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
-        stream.read(self.size)
+        data = stream.read(self.size)
+        if len(data) < self.size:
+            raise NotEnoughDataError(expected=self.size, actually_read=len(data))
 
     def to_repr(self, obj, context=EMPTY_CONTEXT):
         return "<%d bytes padding>" % (self.size,)
-- 
2.43.0


From 2a1903ce94150a2ba0dafe7504fd023fe1592408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:41 +0000
Subject: [PATCH 15/64] fix: VarSizeString: size of the length prefix is the
 size of the length, not of the string

---
 src/infi/instruct/string.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/string.py b/src/infi/instruct/string.py
index 21e88a5..e8b00fd 100644
--- a/src/infi/instruct/string.py
+++ b/src/infi/instruct/string.py
@@ -56,7 +56,8 @@ class VarSizeStringMarshal(Marshal):
         return repr(obj)
 
     def sizeof(self, obj):
-        return self.size_marshal.sizeof(obj) + len(_strip(obj, self.padding_direction, self.padding))
+        stripped_len = len(_strip(obj, self.padding_direction, self.padding))
+        return self.size_marshal.sizeof(stripped_len) + stripped_len
 
     def min_max_sizeof(self):
         size_min_max = self.size_marshal.min_max_sizeof()
-- 
2.43.0


From 64fda76afc3781a7bdc4dc8199eb10319b4ac424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:46 +0000
Subject: [PATCH 16/64] fix: PaddedString: reject values that do not fit the
 declared size

---
 src/infi/instruct/string.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/infi/instruct/string.py b/src/infi/instruct/string.py
index e8b00fd..22466e9 100644
--- a/src/infi/instruct/string.py
+++ b/src/infi/instruct/string.py
@@ -70,6 +70,11 @@ class PaddedStringMarshal(FixedSizer, VarSizeStringMarshal):
 
     def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
         stripped_obj = _strip(obj, self.padding_direction, self.padding)
+        if len(stripped_obj) > self.size:
+            raise InvalidValueError("value is %d bytes long but the declared size is %d" % (len(stripped_obj), self.size))
+        if len(stripped_obj) < self.size and len(self.padding) == 0:
+            raise InvalidValueError("value is %d bytes long, the declared size is %d and there is no padding" %
+                                    (len(stripped_obj), self.size))
         stream.write(stripped_obj)
         if len(stripped_obj) < self.size:
             stream.write(pad(self.padding[0], (self.size - len(stripped_obj))))
-- 
2.43.0


From ced75c7bdd17db58cd352981f5c7664c028bcae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 17/64] fix: FixedSizeArray: reject values whose element count
 is not the declared one

---
 src/infi/instruct/array.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index cd992cb..641a194 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -1,6 +1,6 @@
 from ._compat import range
 from .base import Marshal, ConstReader, EMPTY_CONTEXT, MinMax, FixedSizer
-from .errors import InstructError
+from .errors import InstructError, InvalidValueError
 
 class ArrayBase(object):
     def to_repr(self, obj, context=EMPTY_CONTEXT):
@@ -42,6 +42,11 @@ class FixedSizeArrayMarshal(VarSizeArrayMarshal):
         super(FixedSizeArrayMarshal, self).__init__(ConstReader(size), element_marshal)
         self.size = size
 
+    def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
+        if len(obj) != self.size:
+            raise InvalidValueError("array has %d elements but the declared size is %d" % (len(obj), self.size))
+        super(FixedSizeArrayMarshal, self).write_to_stream(obj, stream, context)
+
     def min_max_sizeof(self):
         element_min_max = self.element_marshal.min_max_sizeof()
         return MinMax(element_min_max.min * self.size, element_min_max.max * self.size)
-- 
2.43.0


From 021baf7e62d828bca82dbc277a2289187a3eb3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:53 +0000
Subject: [PATCH 18/64] fix: VarSizeString: default padding is bytes

---
 src/infi/instruct/string_macros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/string_macros.py b/src/infi/instruct/string_macros.py
index 3309aca..0b68149 100644
--- a/src/infi/instruct/string_macros.py
+++ b/src/infi/instruct/string_macros.py
@@ -6,7 +6,7 @@ def PaddedString(name, size, padding=b"\x00", padding_direction=PADDING_DIRECTIO
         assert len(default) <= size
     return Field(name, PaddedStringMarshal(size, padding, padding_direction), default)
 
-def VarSizeString(name, size_marshal, padding="\x00", padding_direction=PADDING_DIRECTION_RIGHT, default=None):
+def VarSizeString(name, size_marshal, padding=b"\x00", padding_direction=PADDING_DIRECTION_RIGHT, default=None):
     return Field(name, VarSizeStringMarshal(size_marshal, padding, padding_direction), default)
 
 # Backward compatibility
-- 
2.43.0


From 2fec01103754be7c3c96eae024e5cf4f5c50bc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:56 +0000
Subject: [PATCH 19/64] fix: BitFields: raise NotEnoughDataError when the
 stream ends inside a bit field group

---
 src/infi/instruct/struct/bit.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/infi/instruct/struct/bit.py b/src/infi/instruct/struct/bit.py
index c8e62a8..fd78ed4 100644
--- a/src/infi/instruct/struct/bit.py
+++ b/src/infi/instruct/struct/bit.py
@@ -1,6 +1,6 @@
 from . import FieldListContainer
 from ..base import FixedSizer, Marshal, MinMax, EMPTY_CONTEXT
-from ..errors import InstructError, BitFieldNotInByteBoundry, FieldTypeNotSupportedError
+from ..errors import InstructError, NotEnoughDataError, BitFieldNotInByteBoundry, FieldTypeNotSupportedError
 from ..utils.bitstringio import BitStringIO
 
 class BitMarshal(FixedSizer, Marshal):
@@ -27,6 +27,12 @@ class BitPaddingMarshal(BitMarshal):
     def to_repr(self, obj, context=EMPTY_CONTEXT):
         return "<%d bits padding>" % (self.size,)
 
+def _read_bit_stream(stream, size):
+    data = stream.read(size)
+    if len(data) < size:
+        raise NotEnoughDataError(expected=size, actually_read=len(data))
+    return BitStringIO(data)
+
 class BitFieldListContainer(FixedSizer, FieldListContainer):
     def __init__(self, fields):
         super(BitFieldListContainer, self).__init__(fields)
@@ -44,7 +50,7 @@ class BitFieldListContainer(FixedSizer, FieldListContainer):
         stream.write(bit_stream.getvalue())
 
     def read_fields(self, obj, stream, context=EMPTY_CONTEXT, *args, **kwargs):
-        bit_stream = BitStringIO(stream.read(self.size))
+        bit_stream = _read_bit_stream(stream, self.size)
         for field in self.fields:
             field.read_fields(obj, bit_stream, context, *args, **kwargs)
 
@@ -103,6 +109,6 @@ class PositionalBitFieldListContainer(FixedSizer, FieldListContainer):
         stream.write(bit_stream.getvalue())
 
     def read_fields(self, obj, stream, context=EMPTY_CONTEXT, *args, **kwargs):
-        bit_stream = BitStringIO(stream.read(self.size))
+        bit_stream = _read_bit_stream(stream, self.size)
         for field in self.fields:
             field.read_fields(obj, bit_stream, context, *args, **kwargs)
-- 
2.43.0


From af20f0341c4bfdbb24f2a0e93960b5596f9c28a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:41 +0000
Subject: [PATCH 20/64] fix: str_type_factory: default padding and strip are
 bytes

---
 src/infi/instruct/buffer/macros.py    | 2 +-
 src/infi/instruct/buffer/serialize.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/macros.py b/src/infi/instruct/buffer/macros.py
index 9159fa0..04660dc 100644
--- a/src/infi/instruct/buffer/macros.py
+++ b/src/infi/instruct/buffer/macros.py
@@ -67,7 +67,7 @@ self_ref = SelfProxy()
 input_buffer_length = InputBufferLengthReference()
 
 
-def str_type_factory(encoding='ascii', padding=' ', strip='\x00', justify='left', byte_size=None):
+def str_type_factory(encoding='ascii', padding=b' ', strip=b'\x00', justify='left', byte_size=None):
     kwargs = dict(encoding=encoding, padding=padding, strip=strip, justify=justify)
     if byte_size:
         kwargs['byte_size'] = byte_size
diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 0194088..778f49f 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -176,7 +176,7 @@ JUSTIFY_OPTIONS = ('left', 'right', 'center')
 
 
 def str_args_from_kwargs(kwargs):
-    args = copy_defaults_and_override_with_kwargs(dict(encoding='ascii', padding=' ', justify='left'), kwargs)
+    args = copy_defaults_and_override_with_kwargs(dict(encoding='ascii', padding=b' ', strip=b'\x00', justify='left'), kwargs)
     assert_kwarg_enum(args, 'justify', JUSTIFY_OPTIONS)
     assert len(args['padding']) == 1, "padding must be exactly one character but instead got {0!r}".format(args['padding'])
     return args
-- 
2.43.0


From 4747ae2788640a968705b7cf9a4e0341563d9a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:44 +0000
Subject: [PATCH 21/64] fix: float fields: unpack 8-byte floats as double, as
 they are packed

---
 src/infi/instruct/buffer/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 778f49f..5ebe98c 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -165,7 +165,7 @@ def unpack_float(buffer, **kwargs):
 
 STRUCT_FLOAT_UNPACKERS = {
     4: keep_kwargs_partial(unpack_struct_float, format_char='f'),
-    8: keep_kwargs_partial(unpack_struct_float, format_char='q')
+    8: keep_kwargs_partial(unpack_struct_float, format_char='d')
 }
 
 
-- 
2.43.0


From ba10549e7954701b77831e106a211fb5e5f45b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:48 +0000
Subject: [PATCH 22/64] fix: int fields: 'unspecified' endianness uses the
 declared byte size

---
 src/infi/instruct/buffer/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 5ebe98c..f11daf6 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -44,7 +44,7 @@ class UnpackError(InstructError):
         super(UnpackError, self).__init__(UnpackError.MESSAGE.format(unpack_ref=unpack_ref, buffer=buffer))
 
 
-ENDIAN_NAME_TO_FORMAT = {'unspecified': '@', 'native': '=', 'big': '>', 'little': '<'}
+ENDIAN_NAME_TO_FORMAT = {'unspecified': '=', 'native': '=', 'big': '>', 'little': '<'}
 
 
 #
-- 
2.43.0


From 1afcc5e4ed97cf47d2cf3f744fea35348032b86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:51 +0000
Subject: [PATCH 23/64] fix: int fields: honour endianness for whole-byte sizes
 other than 1, 2, 4 and 8

---
 src/infi/instruct/buffer/serialize.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index f11daf6..97ce220 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -52,10 +52,18 @@ ENDIAN_NAME_TO_FORMAT = {'unspecified': '=', 'native': '=', 'big': '>', 'little'
 #
 
 
+def is_big_endian_bit_int(byte_size, kwargs):
+    # Byte order is only meaningful for whole bytes; bit ranges are always assembled from the least significant bit.
+    endian = kwargs.get("endian", "native")
+    return int(byte_size) == byte_size and (endian == "big" or (endian != "little" and byteorder == "big"))
+
+
 def pack_bit_int(value, byte_size, **kwargs):
     assert byte_size is not None
     result = BitAwareByteArray(bytearray(int(math.ceil(byte_size))), 0, byte_size)
     result[0:] = value
+    if is_big_endian_bit_int(byte_size, kwargs):
+        result = BitAwareByteArray(bytearray(reversed(result)), 0, byte_size)
     return result
 
 
@@ -90,7 +98,7 @@ def pack_int(value, **kwargs):
 
 def unpack_bit_int(buffer, byte_size, **kwargs):
     result = 0
-    l = reversed(buffer[0:byte_size]) if kwargs.get("endian", "big") else buffer[0:byte_size]
+    l = buffer[0:byte_size] if is_big_endian_bit_int(byte_size, kwargs) else reversed(buffer[0:byte_size])
     for b in l:
         result *= 256
         result += b
-- 
2.43.0


From d540f35c37fff11de68a01c3fdfeeeacb5cb849a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:55 +0000
Subject: [PATCH 24/64] fix: int fields: do not decode an integer from fewer
 bytes than its size

---
 src/infi/instruct/buffer/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 97ce220..22ede84 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -98,6 +98,8 @@ def pack_int(value, **kwargs):
 
 def unpack_bit_int(buffer, byte_size, **kwargs):
     result = 0
+    if buffer.length() < byte_size:
+        raise ValueError("int byte_size is {} but got buffer with len {}".format(byte_size, buffer.length()))
     l = buffer[0:byte_size] if is_big_endian_bit_int(byte_size, kwargs) else reversed(buffer[0:byte_size])
     for b in l:
         result *= 256
-- 
2.43.0


From 8cef03831b2ff1ca22f6527dc9cac1b2314e5c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:59 +0000
Subject: [PATCH 25/64] fix: bit ranges: reject negative integers instead of
 storing their low byte

---
 src/infi/instruct/buffer/io_buffer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index e2ce9b3..31508d1 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -258,6 +258,8 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
             value_len = len(value)
         elif isinstance(value, integer_types):
             # Short circuit: make bit ranges accept int values by their bit length.
+            if value < 0:
+                raise ValueError("trying to assign negative int {0} to a bit range".format(value))
             bit_length = max(1, value.bit_length())
             if bit_length > int_value_len * 8:
                 # Safety measure for short circuit: if user is assigning an int with more bits than the range of
-- 
2.43.0


From 741c7f3c0add4ba7421049b46c513fe5026a7c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:03 +0000
Subject: [PATCH 26/64] fix: buffer_field: keep the buffer type when byte_size
 is given

---
 src/infi/instruct/buffer/macros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/macros.py b/src/infi/instruct/buffer/macros.py
index 04660dc..9bb7803 100644
--- a/src/infi/instruct/buffer/macros.py
+++ b/src/infi/instruct/buffer/macros.py
@@ -276,7 +276,7 @@ def buffer_field(type,
                                     default=default)
     marshal_kwargs = dict(type=type)
     if byte_size:
-        marshal_kwargs = dict(byte_size=byte_size)
+        marshal_kwargs['byte_size'] = byte_size
     builder.set_packer(pack_buffer, **marshal_kwargs)
     unpack = unpack_selector_decorator(unpack_selector) if unpack_selector else unpack_buffer
     builder.set_unpacker(unpack, **marshal_kwargs)
-- 
2.43.0


From 357a665ad6fe860d49c1c2132b0e1c9367879505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:08 +0000
Subject: [PATCH 27/64] fix: set_after_unpack: assign the value to the field
 and accept references

---
 src/infi/instruct/buffer/field_reference_builder.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/infi/instruct/buffer/field_reference_builder.py b/src/infi/instruct/buffer/field_reference_builder.py
index 48fc8be..9e12c43 100644
--- a/src/infi/instruct/buffer/field_reference_builder.py
+++ b/src/infi/instruct/buffer/field_reference_builder.py
@@ -226,10 +226,11 @@ class FieldReferenceBuilder(object):
         field_unpack_ref = FieldUnpackerReference(self.field.unpack_ref)
         if self.set_after_unpack is not None:
             if not isinstance(self.set_after_unpack, Reference):
-                unpack_value_ref = FuncCallReference(self.numeric, self.set_after_unpack, field_unpack_ref)
-        else:
-            unpack_value_ref = AssignAttrReference(self.numeric, self.get_obj_from_ctx_ref, self.field.attr_name_ref,
-                                                   field_unpack_ref)
+                field_unpack_ref = FuncCallReference(self.numeric, self.set_after_unpack, field_unpack_ref)
+            else:
+                field_unpack_ref = self.set_after_unpack
+        unpack_value_ref = AssignAttrReference(self.numeric, self.get_obj_from_ctx_ref, self.field.attr_name_ref,
+                                               field_unpack_ref)
 
         self.field.unpack_value_ref = unpack_value_ref
 
-- 
2.43.0


From 03791568265c91356facae3f492264c1ff9a69e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:12 +0000
Subject: [PATCH 28/64] fix: str fields: an unpacked string consumes its own
 size, not the whole buffer

---
 src/infi/instruct/buffer/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 22ede84..d4d1681 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -226,7 +226,7 @@ def unpack_str(buffer, **kwargs):
         else:  # center
             value = value.strip(strip).strip(padding)
     value = value.decode(args['encoding'])
-    return value, len(buffer)
+    return value, len(buffer) if byte_size is None else byte_size
 
 
 def pack_json(value, **kwargs):
-- 
2.43.0


From 7da57030f441685e8f626575f1243632e5702e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 29/64] fix: list fields: stop with an error when an element
 does not consume any bytes

---
 src/infi/instruct/buffer/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index d4d1681..6cfff1a 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -306,6 +306,8 @@ def unpack_list(buffer, elem_unpacker, **kwargs):
     while offset < buffer.length() and (n is None or index < n):
         unpacker_kwargs = copy_and_remove_kwargs(kwargs, ('buffer', 'n', 'index', 'container'))
         item, item_len = elem_unpacker(buffer[offset:byte_size], index=index, n=n, container=result, **unpacker_kwargs)
+        if n is None and item_len <= 0:
+            raise ValueError("list element {0} does not consume any bytes".format(index))
         result.append(item)
         offset += item_len
         index += 1
-- 
2.43.0


From 731f247b33a9cc507cfdc71fc37827593cce2a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:20 +0000
Subject: [PATCH 30/64] fix: total_size: do not count fields that are not
 packed

---
 src/infi/instruct/buffer/reference/total_size.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/reference/total_size.py b/src/infi/instruct/buffer/reference/total_size.py
index 160d9dc..a5b97d8 100644
--- a/src/infi/instruct/buffer/reference/total_size.py
+++ b/src/infi/instruct/buffer/reference/total_size.py
@@ -16,7 +16,8 @@ class TotalSizeReference(Reference):
             return size
 
         if ctx.is_pack():
-            lists = [field.pack_absolute_position_ref.deref(ctx) for field in ctx.fields]
+            lists = [field.pack_absolute_position_ref.deref(ctx) for field in ctx.fields
+                     if field.pack_if.deref(ctx)]
             positions = SequentialRangeList(itertools.chain(*lists))
             result = positions.max_stop()  # total_size calculation
         else:
-- 
2.43.0


From 632bc4829cb6de85cccc0b507665e1870d65104e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:24 +0000
Subject: [PATCH 31/64] fix: Buffer.calc_byte_size: count inherited fields

---
 src/infi/instruct/buffer/buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index 895710a..cccbc2d 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -150,7 +150,7 @@ class Buffer(object):
         Returns this instance's size. If the size has to be calculated it may require packing some of the fields.
         """
         if ctx is None:
-            ctx = PackContext(self, type(self).__fields__)
+            ctx = PackContext(self, self._all_fields())
         return TotalSizeReference().deref(ctx)
 
     def _all_fields(self):
-- 
2.43.0


From 075edcb8c570957783c96d9ca44b1c850e252c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:27 +0000
Subject: [PATCH 32/64] fix: Buffer: a field overridden in a subclass replaces
 the inherited field

---
 src/infi/instruct/buffer/buffer.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index cccbc2d..ebbea31 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -154,10 +154,15 @@ class Buffer(object):
         return TotalSizeReference().deref(ctx)
 
     def _all_fields(self):
-        fields = []
-        for cls in type(self).mro():
-            cls_fields = getattr(cls, '__fields__', [])
-            fields.extend(cls_fields)
+        return type(self)._all_class_fields()
+
+    @classmethod
+    def _all_class_fields(cls):
+        fields, names = [], set()
+        for base in cls.mro():
+            base_fields = [field for field in base.__dict__.get('__fields__', []) if field.attr_name() not in names]
+            fields.extend(base_fields)
+            names.update(field.attr_name() for field in base_fields)
         return fields
 
     def _all_field_names(self):
-- 
2.43.0


From 3172abaa55239333334e2fd915d84b3b64ee7916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:30 +0000
Subject: [PATCH 33/64] fix: Buffer: static byte size includes inherited fields

---
 src/infi/instruct/buffer/buffer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index ebbea31..ceeb654 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -62,8 +62,9 @@ class BufferType(type):
                 attr.init(attr_name)
                 fields.append(attr)
 
-        setattr(new_cls, 'byte_size', attrs['byte_size'] if 'byte_size' in attrs else cls.calc_byte_size(name, fields))
         setattr(new_cls, '__fields__', fields)
+        setattr(new_cls, 'byte_size', attrs['byte_size'] if 'byte_size' in attrs
+                else cls.calc_byte_size(name, new_cls._all_class_fields()))
         return new_cls
 
     @classmethod
-- 
2.43.0


From 87511b5c00a8ac3ecadc08fdc5d8cc992e030106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:33 +0000
Subject: [PATCH 34/64] fix: Buffer: instances do not share a mutable field
 default

---
 src/infi/instruct/buffer/buffer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index ceeb654..7cc5720 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -6,6 +6,7 @@ import six
 from infi.exceptools import chain as chain_exceptions
 from infi.instruct.utils.safe_repr import safe_repr
 from infi.instruct.errors import InstructError
+from infi.instruct.struct import copy_if_supported
 
 from .range import SequentialRangeList
 from .reference import Reference, FieldReference, PackContext, UnpackContext, TotalSizeReference
@@ -98,7 +99,7 @@ class Buffer(object):
         # Set to default all fields that don't have a value (we know that since they're still FieldReference objects)
         for field in self._all_fields():
             if isinstance(getattr(self, field.attr_name()), FieldReference):
-                setattr(self, field.attr_name(), field.default)
+                setattr(self, field.attr_name(), copy_if_supported(field.default))
 
     def pack(self):
         """Packs the object and returns a buffer representing the packed object."""
-- 
2.43.0


From 164e6ba2064d14459f59fa582107d7a6b170b7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:36 +0000
Subject: [PATCH 35/64] fix: Buffer.pack: report errors raised while evaluating
 pack_if as InstructBufferError

---
 src/infi/instruct/buffer/buffer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index 7cc5720..6dcbf04 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -107,12 +107,12 @@ class Buffer(object):
         ctx = PackContext(self, fields)
 
         for field in fields:
-            if field.pack_if.deref(ctx):
-                try:
+            try:
+                if field.pack_if.deref(ctx):
                     ctx.output_buffer.set(field.pack_ref.deref(ctx), field.pack_absolute_position_ref.deref(ctx))
-                except:
-                    raise chain_exceptions(InstructBufferError("Pack error occured", ctx, type(self),
-                                                               field.attr_name()))
+            except:
+                raise chain_exceptions(InstructBufferError("Pack error occured", ctx, type(self),
+                                                           field.attr_name()))
 
         result = bytearray(ctx.output_buffer.get())
 
-- 
2.43.0


From daee1ac620e033b613627312c604935b9560816d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:40 +0000
Subject: [PATCH 36/64] fix: references: arithmetic on a non-numeric reference
 is rejected whatever the other operand is

---
 src/infi/instruct/buffer/reference/reference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/reference/reference.py b/src/infi/instruct/buffer/reference/reference.py
index cee4bc7..a0fa0c8 100644
--- a/src/infi/instruct/buffer/reference/reference.py
+++ b/src/infi/instruct/buffer/reference/reference.py
@@ -145,7 +145,7 @@ class Reference(object):
             return False
 
     def __check_binary_expression_for_numeric(self, other):
-        return self.is_numeric() and isinstance(other, Number)or (isinstance(other, Reference) and other.is_numeric())
+        return self.is_numeric() and (isinstance(other, Number) or (isinstance(other, Reference) and other.is_numeric()))
 
     def __add__(self, other):
         if not self.__check_binary_expression_for_numeric(other):
-- 
2.43.0


From 3b713121928ff604be20060d8f6cf8cf10dd956e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:44 +0000
Subject: [PATCH 37/64] fix: references: the truth value of a unary expression
 is rejected like that of a binary one

---
 src/infi/instruct/buffer/reference/reference.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/infi/instruct/buffer/reference/reference.py b/src/infi/instruct/buffer/reference/reference.py
index a0fa0c8..94e7ee3 100644
--- a/src/infi/instruct/buffer/reference/reference.py
+++ b/src/infi/instruct/buffer/reference/reference.py
@@ -266,6 +266,9 @@ class NumericUnaryExpression(Reference):
     def __nonzero__(self):
         raise NotImplementedError("not supported")
 
+    def __bool__(self):
+        raise NotImplementedError("not supported")
+
 
 class NumericBinaryExpression(Reference):
     """
-- 
2.43.0


From 0bea589341de8ebbf03257e23eb888eaa20dbc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:48 +0000
Subject: [PATCH 38/64] fix: StructTypeAdapter: read whole bytes and report a
 short stream

---
 src/infi/instruct/buffer/compat.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/compat.py b/src/infi/instruct/buffer/compat.py
index aa8ebea..49118be 100644
--- a/src/infi/instruct/buffer/compat.py
+++ b/src/infi/instruct/buffer/compat.py
@@ -1,4 +1,7 @@
+import math
+
 from .._compat import PY2
+from ..errors import NotEnoughDataError
 
 class StructTypeAdapter(object):
     def __init__(self, buffer_type):
@@ -18,7 +21,10 @@ class StructTypeAdapter(object):
 
     def create_from_stream(self, stream, context=None, *args, **kwargs):
         if self.buffer_type.byte_size is not None:
-            packed_data = stream.read(self.buffer_type.byte_size)
+            byte_size = int(math.ceil(self.buffer_type.byte_size))
+            packed_data = stream.read(byte_size)
+            if len(packed_data) < byte_size:
+                raise NotEnoughDataError(expected=byte_size, actually_read=len(packed_data))
             result = self.buffer_type()
             result.unpack(packed_data)
             return result
-- 
2.43.0


From 4fd354a2c5d6e1c35a27e1034e19db98f752667b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:00 +0000
Subject: [PATCH 39/64] fix: repr of a Struct with unset fields shows <not set>
 instead of failing

---
 src/infi/instruct/struct/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index b47cf47..3d24e6d 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -67,7 +67,8 @@ class Field(FieldBase):
             setattr(obj, self.name, copy_if_supported(self.default))
 
     def to_repr(self, obj, context=EMPTY_CONTEXT):
-        return "%s=%s" % (self.name, super(Field, self).to_repr(obj, context))
+        value_repr = "<not set>" if self.get_value(obj) is None else super(Field, self).to_repr(obj, context)
+        return "%s=%s" % (self.name, value_repr)
 
     def get_value(self, obj):
         return getattr(obj, self.name, self.default)
-- 
2.43.0


From 8758775663fa0b6e70287775c0262ada698ad5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:04 +0000
Subject: [PATCH 40/64] fix: repr of function call references works on Python 3

---
 src/infi/instruct/buffer/reference/func_call.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/reference/func_call.py b/src/infi/instruct/buffer/reference/func_call.py
index 6499902..5f12390 100644
--- a/src/infi/instruct/buffer/reference/func_call.py
+++ b/src/infi/instruct/buffer/reference/func_call.py
@@ -28,7 +28,7 @@ class FuncCallReference(Reference):
         # Small hacks to make repr look better:
         if isinstance(self.func_ref, ObjectReference) \
                 and isinstance(self.func_ref.obj, (types.FunctionType, types.MethodType)):
-            func_ref_repr = self.func_ref.obj.func_name
+            func_ref_repr = self.func_ref.obj.__name__
         else:
             func_ref_repr = safe_repr(self.func_ref)
         return "{0}({1}))".format(func_ref_repr, self._args_and_kwargs_repr())
-- 
2.43.0


From 698630f117d5e761f263700e21ac386fd7966c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:08 +0000
Subject: [PATCH 41/64] fix: repr of pack position references uses the
 attribute that exists

---
 src/infi/instruct/buffer/field_reference_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/field_reference_builder.py b/src/infi/instruct/buffer/field_reference_builder.py
index 9e12c43..f1e5619 100644
--- a/src/infi/instruct/buffer/field_reference_builder.py
+++ b/src/infi/instruct/buffer/field_reference_builder.py
@@ -37,7 +37,7 @@ class PackAbsolutePositionReference(Reference):
             return position_list
 
     def __safe_repr__(self):
-        return "pack_abs_position({0!r}, {1!r})".format(self.field, self.position_list)
+        return "pack_abs_position({0!r}, {1!r})".format(self.field, self.pack_position_ref)
 
 
 class UnpackAbsolutePositionReference(Reference):
-- 
2.43.0


From ad82219a4eafcc68fde818485f793e34b1e6e9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:11 +0000
Subject: [PATCH 42/64] fix: repr of after_ref does not depend on a name that
 is not imported

---
 src/infi/instruct/buffer/reference/after_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/reference/after_field.py b/src/infi/instruct/buffer/reference/after_field.py
index 99196ff..9c75824 100644
--- a/src/infi/instruct/buffer/reference/after_field.py
+++ b/src/infi/instruct/buffer/reference/after_field.py
@@ -27,4 +27,4 @@ class AfterFieldReference(Reference):
         return offset
 
     def __safe_repr__(self):
-        return "after({0})".format(self.field_ref.attr_name_ref.deref(Context()))
+        return "after({0})".format(self.field_ref.attr_name())
-- 
2.43.0


From ff8e195b67a0e977ae1a48654a726b760f52b7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 43/64] fix: repr of range lists shows the ranges

---
 src/infi/instruct/buffer/reference/range.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/reference/range.py b/src/infi/instruct/buffer/reference/range.py
index 3bf00cb..c4638d0 100644
--- a/src/infi/instruct/buffer/reference/range.py
+++ b/src/infi/instruct/buffer/reference/range.py
@@ -37,7 +37,7 @@ class ListRangeReference(RangeReference):
         return SequentialRangeList(reduce(operator.add, [ref.deref(ctx) for ref in self.list]))
 
     def __safe_repr__(self):
-        return "[{0}]".format(", ".join(safe_repr(o for o in self.list)))
+        return "[{0}]".format(", ".join(safe_repr(o) for o in self.list))
 
 
 class BitContainer(object):
-- 
2.43.0


From 0accbce527e900400bed0bb81d2a34c6df8b7d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 44/64] fix: BitView.to_bytearray: mask bits outside a range
 that ends inside a byte

---
 src/infi/instruct/buffer/io_buffer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index 31508d1..b245728 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -62,8 +62,8 @@ class BitView(abc.Sequence):
         return "".join(str(n) for n in reversed(result))
 
     def to_bytearray(self):
-        if int(self.start) == self.start:
-            return self.buffer[int(self.start):int(math.ceil(self.stop))]
+        if int(self.start) == self.start and int(self.stop) == self.stop:
+            return self.buffer[int(self.start):int(self.stop)]
         else:
             return bytearray(list(self))  # very inefficient.
 
-- 
2.43.0


From 73d7398a45740e2719faec90ee55c75c28ea25d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:06 +0000
Subject: [PATCH 45/64] fix: Lazy: decode fields of nested groups on first
 access and keep constants constant

---
 src/infi/instruct/struct/lazy.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/infi/instruct/struct/lazy.py b/src/infi/instruct/struct/lazy.py
index 889b91b..85ff83a 100644
--- a/src/infi/instruct/struct/lazy.py
+++ b/src/infi/instruct/struct/lazy.py
@@ -1,8 +1,11 @@
+from copy import copy
+
 from .._compat import StringIO
 
 from . import FieldBase, Field, FieldListContainer, copy_if_supported
 from ..base import FixedSizer, EMPTY_CONTEXT
 from ..errors import NotEnoughDataError
+from .const import ConstField
 
 class LazyField(Field):
     def __init__(self, container, field):
@@ -50,16 +53,26 @@ class LazyFieldListContainer(FixedSizer, FieldListContainer):
         for field in fields:
             if not field.is_fixed_size():
                 raise ValueError("%s must be a fixed-size field inside a lazy container" % (field,))
-            if isinstance(field, Field):
-                new_fields.append(LazyField(self, field))
-            else:
-                new_fields.append(field)
+            new_fields.append(self._make_lazy(field))
 
         super(LazyFieldListContainer, self).__init__(new_fields)
 
         self.size = sum([field.min_max_sizeof().min for field in self.fields])
         self.lazy_key = "_lazy_container_%s" % id(self)
 
+    def _make_lazy(self, field):
+        if isinstance(field, LazyFieldListContainer):
+            # The fields of a nested lazy container are decoded along with our own.
+            return FieldListContainer([self._make_lazy(f.field if isinstance(f, LazyField) else f)
+                                       for f in field.fields])
+        elif isinstance(field, FieldListContainer):
+            field = copy(field)
+            field.fields = [self._make_lazy(f) for f in field.fields]
+            return field
+        elif isinstance(field, Field) and not isinstance(field, ConstField):
+            return LazyField(self, field)
+        return field
+
     def write_fields(self, obj, stream, context=EMPTY_CONTEXT):
         self.instantiate_if_needed(obj)
         super(LazyFieldListContainer, self).write_fields(obj, stream, context)
-- 
2.43.0


From 2caf9ea5c0056e95a632c534a490705048e0acdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:48 +0000
Subject: [PATCH 46/64] fix: ConstField: a struct constant is compared by its
 serialized form

---
 src/infi/instruct/struct/const.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/infi/instruct/struct/const.py b/src/infi/instruct/struct/const.py
index 07dbad5..8064bcb 100644
--- a/src/infi/instruct/struct/const.py
+++ b/src/infi/instruct/struct/const.py
@@ -1,6 +1,7 @@
-from . import Field
+from . import Field, Struct
 from ..base import EMPTY_CONTEXT
 from ..errors import InstructError
+from ..utils.safe_repr import safe_repr
 
 class ConstField(Field):
     def __init__(self, name, marshal, value):
@@ -17,7 +18,7 @@ class ConstField(Field):
 
     def read_fields(self, obj, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         value = self.marshal.create_from_stream(stream, context, *args, **kwargs)
-        if value != self.value:
+        if not self.is_const_value(value):
             raise InstructError("constant field %s of class %s should have the value %s but instead got %s" %
                                 (self.name, type(obj), self.marshal.to_repr(self.value, context),
                                  self.marshal.to_repr(value, context)))
@@ -35,6 +36,13 @@ class ConstField(Field):
         return self.value
 
     def __set__(self, obj, value):
-        if value != self.value:
+        if not self.is_const_value(value):
             raise InstructError("trying to set a new value (%s) to const field %s of class %s" %
-                                (value, self.name, type(obj)))
+                                (safe_repr(value), self.name, type(obj)))
+
+    def is_const_value(self, value):
+        # Structs are compared by their serialized form.
+        if isinstance(self.value, Struct):
+            return value is self.value or (type(value) is type(self.value) and
+                                           value.to_bytes() == self.value.to_bytes())
+        return value == self.value
-- 
2.43.0


From 6c69d4d19f655ffefd24e81abcf943bb4eb3d6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:28 +0000
Subject: [PATCH 47/64] fix: Struct: fields of a nested struct refer to the
 nested struct, not to the outermost one

---
 src/infi/instruct/struct/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index 3d24e6d..10684fd 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -223,6 +223,8 @@ class Struct(object):
         else:
             new_context = WritableContext(dict(struct=obj))
         new_context.update(context.get_dict())
+        # Fields refer to the struct that declares them, also when that struct is nested inside another one.
+        new_context.put('struct', obj)
         return new_context
 
     def to_bytes(self):
-- 
2.43.0


From 5fabf3b38367f845cf59a889114c684e134d63cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:28 +0000
Subject: [PATCH 48/64] fix: PaddedString: pad on the left when the padding
 direction is left

---
 src/infi/instruct/string.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/string.py b/src/infi/instruct/string.py
index 22466e9..60a7d06 100644
--- a/src/infi/instruct/string.py
+++ b/src/infi/instruct/string.py
@@ -75,9 +75,13 @@ class PaddedStringMarshal(FixedSizer, VarSizeStringMarshal):
         if len(stripped_obj) < self.size and len(self.padding) == 0:
             raise InvalidValueError("value is %d bytes long, the declared size is %d and there is no padding" %
                                     (len(stripped_obj), self.size))
-        stream.write(stripped_obj)
+        padding = b''
         if len(stripped_obj) < self.size:
-            stream.write(pad(self.padding[0], (self.size - len(stripped_obj))))
+            padding = pad(self.padding[0], (self.size - len(stripped_obj)))
+        if self.padding_direction == PADDING_DIRECTION_LEFT:
+            stream.write(padding + stripped_obj)
+        else:
+            stream.write(stripped_obj + padding)
 
 class VarSizeBufferMarshal(VarSizeStringMarshal):
     def __init__(self, size_marshal):
-- 
2.43.0


From b2db8f1bac1fa9c881d503c493644622e2cf71fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:26 +0000
Subject: [PATCH 49/64] fix: BitAwareByteArray: inserting and deleting bits
 moves exactly the bits behind them

---
 src/infi/instruct/buffer/io_buffer.py | 29 ++++++++++++++++-----------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index b245728..4e81c0f 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -203,7 +203,8 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
             ofs = start
             bit_len_frac = stop - start
             while (ofs + bit_len_frac) < self.stop:
-                self._set_byte_bits(ofs, 8, self._get_byte_bits(ofs + bit_len_frac, 8))
+                bit_len = min(8, int((self.stop - ofs - bit_len_frac) * 8))
+                self._set_byte_bits(ofs, bit_len, self._get_byte_bits(ofs + bit_len_frac, bit_len))
                 ofs += 1
             self.stop -= bit_len_frac
             if int(math.ceil(self.stop)) < len(self.buffer):
@@ -216,25 +217,29 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
         whole_byte_delta = stop_byte - start_byte
 
         # If we can insert whole bytes to the buffer, we'll do that first.
-        if whole_byte_delta >= 1:
+        if whole_byte_delta >= 1 and start in (start_byte, self.stop):
             self.buffer[start_byte:start_byte] = bytearray(whole_byte_delta)
             self.stop += whole_byte_delta
-            stop -= whole_byte_delta
+        else:
+            whole_byte_delta = 0
 
-        if stop > start:
-            assert stop - start <= 2, "start={0}, stop={1}".format(start, stop)
-            bit_len_frac = stop - start
+        bit_len_frac = stop - start - whole_byte_delta
+        if bit_len_frac > 0:
             while int(math.ceil(self.stop + bit_len_frac)) > len(self.buffer):
                 self.buffer.append(0)
 
-            if start < self.stop:
-                # Inserting in the middle, so we copy from end to start.
-                ofs = self.stop + bit_len_frac - 1
-                while ofs >= start:
-                    self._set_byte_bits(ofs, 8, self._get_byte_bits(ofs - bit_len_frac, 8))
-                    ofs -= 1
+            # Inserting in the middle, so we copy from end to start.
+            ofs = self.stop
+            while ofs > start:
+                bit_len = min(8, int((ofs - start) * 8))
+                ofs -= bit_len * 0.125
+                self._set_byte_bits(ofs + bit_len_frac, bit_len, self._get_byte_bits(ofs, bit_len))
             self.stop += bit_len_frac
 
+        if bit_len_frac > 0 or start != start_byte:
+            # The bits we made room for aren't necessarily zero.
+            self._copy_to_range(start, bytearray(int(math.ceil(stop - start))), stop - start)
+
     def _set_byte_bits(self, ofs, bit_len, value):
         byte_ofs, bit_ofs = float_to_byte_bit_pair(ofs)
         if bit_ofs == 0 and bit_len == 8:
-- 
2.43.0


From aa3bba1293741b696fedf6d001ebd7c742661a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:33 +0000
Subject: [PATCH 50/64] fix: bit ranges: assigning a small int also clears the
 high bits of the range

---
 src/infi/instruct/buffer/io_buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index 4e81c0f..a9f3dd6 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -272,7 +272,7 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
                 raise ValueError("trying to assign int {0} with bit length {1} to bit length {2}".format(value,
                                  bit_length, int(int_value_len * 8)))
             l = []
-            for n in range(0, bit_length, 8):
+            for n in range(0, int(max(bit_length, int_value_len * 8)), 8):
                 l.append(value % 256)
                 value //= 256
             value = l
-- 
2.43.0


From 82d20eb05f4591701a9159a89897b3d06a765c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:03 +0000
Subject: [PATCH 51/64] fix: BitView: an index past the end of the view is an
 error, not the bits behind it

---
 src/infi/instruct/buffer/io_buffer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index a9f3dd6..d2fb8f1 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -36,6 +36,8 @@ class BitView(abc.Sequence):
         if isinstance(key, slice):
             return self._get_range(start, stop)
         else:  # must be int/float otherwise _key_to_range would raise an error
+            if not -self.length() <= key < self.length():
+                raise IndexError("index {0!r} is out of range for length {1!r}".format(key, self.length()))
             return self._get_byte_bits(start, min(8, int((self.stop - start) * 8)))
 
     def __len__(self):
-- 
2.43.0


From 54d7f6b4b3792b5c40b6ee7a8172bf4485538cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:08 +0000
Subject: [PATCH 52/64] fix: bit ranges over several byte ranges count bits
 along the byte ranges

---
 src/infi/instruct/buffer/range.py           |  4 ++--
 src/infi/instruct/buffer/reference/range.py | 26 ++++++++-------------
 2 files changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/infi/instruct/buffer/range.py b/src/infi/instruct/buffer/range.py
index 312fe5e..3265765 100644
--- a/src/infi/instruct/buffer/range.py
+++ b/src/infi/instruct/buffer/range.py
@@ -182,10 +182,10 @@ class SequentialRangeList(list, SequentialRangeMixin):
     def find_relative_container_index(self, point):
         sum_length = 0
         for i in range(len(self)):
-            if self[i].is_open() or ((point - sum_length - self[i].byte_length()) <= 0):
+            if self[i].is_open() or ((point - sum_length - self[i].byte_length()) < 0):
                 return i, sum_length
             sum_length += self[i].byte_length()
-        return None
+        return None, None
 
     def __add__(self, other):
         return SequentialRangeList(super(SequentialRangeList, self).__add__(other))
diff --git a/src/infi/instruct/buffer/reference/range.py b/src/infi/instruct/buffer/reference/range.py
index c4638d0..32bd2c6 100644
--- a/src/infi/instruct/buffer/reference/range.py
+++ b/src/infi/instruct/buffer/reference/range.py
@@ -146,33 +146,27 @@ class BitSliceRangeReference(BitRangeReference):
 
         bit_range = SequentialRange(float(self.start.deref(ctx)) / 8, float(self.stop.deref(ctx)) / 8)
 
-        i, sum_length = range_list.find_relative_container_index(bit_range.start)
-        if i is None:
-            raise ValueError("Bit offset {0} is out of range for range sequence {1!r}".format(
-                int(bit_range.start * 8), range_list))
-
-        if bit_range.is_open():
-            subrange_start = range_list[i].start + bit_range.start - sum_length
-            return SequentialRangeList([SequentialRange(subrange_start, range_list[i].stop)] + range_list[i + 1:])
+        if not range_list.is_open() and bit_range.stop > range_list.byte_length():
+            raise ValueError("Bit range {0!r} is out of range for parent range {1!r}".format(bit_range, range_list))
 
         bit_range_remaining_len = bit_range.byte_length()
         result = []
-        for i in range(i, len(range_list)):
-            r = range_list[i]
-            subrange_start = r.start + bit_range.start - sum_length
+        sum_length = 0
+        for r in range_list:
+            # Bits are counted along the parent ranges, so this is where what's left of the bit range starts inside r.
+            subrange_start = r.start + max(bit_range.start - sum_length, 0)
             if r.is_open() or (r.stop - subrange_start) >= bit_range_remaining_len:
                 subrange_stop = subrange_start + bit_range_remaining_len
             else:
                 subrange_stop = r.stop
 
-            result.append(SequentialRange(subrange_start, subrange_stop))
+            if subrange_start < subrange_stop:
+                result.append(SequentialRange(subrange_start, subrange_stop))
+                bit_range_remaining_len -= (subrange_stop - subrange_start)
 
-            bit_range_remaining_len -= (subrange_stop - subrange_start)
             if bit_range_remaining_len == 0:
                 break
-
-        if bit_range_remaining_len > 0:
-            raise ValueError("Bit range {0!r} is out of range for parent range {1!r}".format(bit_range, range_list))
+            sum_length += r.byte_length()
 
         return SequentialRangeList(result)
 
-- 
2.43.0


From 8aaeb59fddc8ff35b663c38752f6663edae527ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:22 +0000
Subject: [PATCH 53/64] fix: bit ranges accept open slices and numeric
 references like byte ranges

---
 src/infi/instruct/buffer/reference/range.py | 23 +++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/infi/instruct/buffer/reference/range.py b/src/infi/instruct/buffer/reference/range.py
index 32bd2c6..05cd279 100644
--- a/src/infi/instruct/buffer/reference/range.py
+++ b/src/infi/instruct/buffer/reference/range.py
@@ -132,9 +132,12 @@ class BitNumericRangeReference(BitRangeReference):
 class BitSliceRangeReference(BitRangeReference):
     def __init__(self, parent_range_ref, slic):
         assert slic.step in (1, None)
-        assert slic.start is None or slic.start >= 0
-        assert slic.stop is None or slic.stop >= 0
-        assert (slic.start is None or slic.stop is None) or (slic.start <= slic.stop)
+        assert slic.start is None or Reference.is_numeric_ref(slic.start) or slic.start >= 0
+        assert slic.stop is None or Reference.is_numeric_ref(slic.stop) or slic.stop >= 0
+        assert ((slic.start is None or slic.stop is None)
+                or Reference.is_numeric_ref(slic.start)
+                or Reference.is_numeric_ref(slic.stop)
+                or (slic.start <= slic.stop))
 
         super(BitSliceRangeReference, self).__init__(parent_range_ref)
         self.start = Reference.to_ref(slic.start)
@@ -144,7 +147,10 @@ class BitSliceRangeReference(BitRangeReference):
         range_list = self.parent_range_ref.deref(ctx)
         assert len(range_list) >= 1
 
-        bit_range = SequentialRange(float(self.start.deref(ctx)) / 8, float(self.stop.deref(ctx)) / 8)
+        start, stop = self.start.deref(ctx), self.stop.deref(ctx)
+        if stop is None and not range_list.is_open():
+            stop = range_list.byte_length() * 8
+        bit_range = SequentialRange(float(start or 0) / 8, float(stop) / 8 if stop is not None else None)
 
         if not range_list.is_open() and bit_range.stop > range_list.byte_length():
             raise ValueError("Bit range {0!r} is out of range for parent range {1!r}".format(bit_range, range_list))
@@ -155,14 +161,19 @@ class BitSliceRangeReference(BitRangeReference):
         for r in range_list:
             # Bits are counted along the parent ranges, so this is where what's left of the bit range starts inside r.
             subrange_start = r.start + max(bit_range.start - sum_length, 0)
-            if r.is_open() or (r.stop - subrange_start) >= bit_range_remaining_len:
+            if r.is_open() and bit_range.is_open():
+                result.append(SequentialRange(subrange_start, None))
+                break
+
+            if r.is_open() or not bit_range.is_open() and (r.stop - subrange_start) >= bit_range_remaining_len:
                 subrange_stop = subrange_start + bit_range_remaining_len
             else:
                 subrange_stop = r.stop
 
             if subrange_start < subrange_stop:
                 result.append(SequentialRange(subrange_start, subrange_stop))
-                bit_range_remaining_len -= (subrange_stop - subrange_start)
+                if not bit_range.is_open():
+                    bit_range_remaining_len -= (subrange_stop - subrange_start)
 
             if bit_range_remaining_len == 0:
                 break
-- 
2.43.0


From 5dcc65a67c96fd3501f980b9e5260d314ad8b906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:14 +0000
Subject: [PATCH 54/64] fix: total_size and after_ref are whole numbers when
 the buffer ends with a bit range on a byte boundary

---
 src/infi/instruct/buffer/range.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/range.py b/src/infi/instruct/buffer/range.py
index 3265765..685061e 100644
--- a/src/infi/instruct/buffer/range.py
+++ b/src/infi/instruct/buffer/range.py
@@ -5,6 +5,13 @@ from .._compat import range
 BIT = 0.125
 
 
+def whole_if_possible(n):
+    """
+    :returns: an int if `n` is a whole number of bytes (bit ranges are calculated in floats), otherwise `n`
+    """
+    return int(n) if int(n) == n else n
+
+
 class SequentialRangeMixin(object):
     """Common interface between SquentialRange and SequentialRangeList"""
 
@@ -154,7 +161,7 @@ class SequentialRangeList(list, SequentialRangeMixin):
             if r.is_open():
                 return None
             m = max(m, r.stop)
-        return m
+        return whole_if_possible(m)
 
     def sorted(self):
         """
@@ -174,7 +181,7 @@ class SequentialRangeList(list, SequentialRangeMixin):
         remaining_bytes = bytes
         for r in self:
             if r.is_open() or r.byte_length() >= remaining_bytes:
-                return r.start + remaining_bytes
+                return whole_if_possible(r.start + remaining_bytes)
             else:
                 remaining_bytes -= r.byte_length()
         assert False, "requested byte offset {0!r} is outside the range list {1!r}".format(bytes, self)
-- 
2.43.0


From 4bdc02d334d1abf559dff98029d9167f1b036280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:58 +0000
Subject: [PATCH 55/64] fix: an open range packs the bytes the closed ranges of
 its field leave, wherever it stands in the list

---
 src/infi/instruct/buffer/field_reference_builder.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/infi/instruct/buffer/field_reference_builder.py b/src/infi/instruct/buffer/field_reference_builder.py
index f1e5619..2823703 100644
--- a/src/infi/instruct/buffer/field_reference_builder.py
+++ b/src/infi/instruct/buffer/field_reference_builder.py
@@ -26,13 +26,9 @@ class PackAbsolutePositionReference(Reference):
             # We need the serialization result of this field to set the range. Note that we already checked if the
             # position has overlapping ranges, so there may be only a single open range.
             packed_field = self.field.pack_ref.deref(ctx)
-            current_length = 0
-            absolute_position_list = []
-            for pos in position_list:
-                abs_pos = pos.to_closed(pos.start + len(packed_field) - current_length)
-                absolute_position_list.append(abs_pos)
-                current_length += abs_pos.byte_length()
-            return absolute_position_list
+            closed_length = sum(pos.byte_length() for pos in position_list if not pos.is_open())
+            return SequentialRangeList(pos.to_closed(pos.start + len(packed_field) - closed_length) if pos.is_open()
+                                       else pos for pos in position_list)
         else:
             return position_list
 
-- 
2.43.0


From 3d7edebe10bacb506d7ae0327803f3827747d3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:14 +0000
Subject: [PATCH 56/64] fix: the unpacked size of a field in several places is
 the highest byte it reached, not the last one it read

---
 src/infi/instruct/buffer/range.py                 | 14 ++++++++++++++
 src/infi/instruct/buffer/reference/after_field.py |  4 ++--
 src/infi/instruct/buffer/reference/total_size.py  |  4 ++--
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/infi/instruct/buffer/range.py b/src/infi/instruct/buffer/range.py
index 685061e..2e2d378 100644
--- a/src/infi/instruct/buffer/range.py
+++ b/src/infi/instruct/buffer/range.py
@@ -186,6 +186,20 @@ class SequentialRangeList(list, SequentialRangeMixin):
                 remaining_bytes -= r.byte_length()
         assert False, "requested byte offset {0!r} is outside the range list {1!r}".format(bytes, self)
 
+    def max_offset(self, bytes):
+        """
+        :returns: the highest offset reached by the first `bytes` bytes of the sequence. Unlike byte_offset, the ranges
+                  don't have to be in ascending order.
+        :rtype: int or float
+        """
+        highest, remaining_bytes = 0, bytes
+        for r in self:
+            if r.is_open() or r.byte_length() >= remaining_bytes:
+                break
+            highest = max(highest, r.stop)
+            remaining_bytes -= r.byte_length()
+        return max(highest, self.byte_offset(bytes))
+
     def find_relative_container_index(self, point):
         sum_length = 0
         for i in range(len(self)):
diff --git a/src/infi/instruct/buffer/reference/after_field.py b/src/infi/instruct/buffer/reference/after_field.py
index 9c75824..cb649b4 100644
--- a/src/infi/instruct/buffer/reference/after_field.py
+++ b/src/infi/instruct/buffer/reference/after_field.py
@@ -20,8 +20,8 @@ class AfterFieldReference(Reference):
                 # Since all reference results are cached, we can ask the unpack result again w/o performance problems.
                 _, byte_size = self.field_ref.unpack_ref.deref(ctx)
                 position_list = self.field_ref.unpack_absolute_position_ref.unpack_position_ref.deref(ctx)
-                # Since we want the "highest" byte, we need to sort the ranges.
-                offset = position_list.sorted().byte_offset(byte_size)
+                # The ranges aren't necessarily in order, so we want the "highest" byte the field reached.
+                offset = position_list.max_offset(byte_size)
             else:
                 offset = self.field_ref.unpack_absolute_position_ref.deref(ctx).max_stop()
         return offset
diff --git a/src/infi/instruct/buffer/reference/total_size.py b/src/infi/instruct/buffer/reference/total_size.py
index a5b97d8..2525325 100644
--- a/src/infi/instruct/buffer/reference/total_size.py
+++ b/src/infi/instruct/buffer/reference/total_size.py
@@ -23,7 +23,7 @@ class TotalSizeReference(Reference):
         else:
             # For each field we do the following and then take the maximum:
             #   We fetch the field's unpack size from unpack_ref (should already be cached).
-            #   We then fetch the field's absolute position and calculate the byte offset from that.
+            #   We then fetch the field's absolute position and calculate the highest byte offset from that.
             result = max(self._unpack_position_list_for_field(ctx, field) for field in ctx.fields)
 
         assert result is not None
@@ -32,7 +32,7 @@ class TotalSizeReference(Reference):
     def _unpack_position_list_for_field(self, ctx, field):
         if field.unpack_if.deref(ctx):
             _, size = field.unpack_ref.deref(ctx)
-            result = field.unpack_absolute_position_ref.deref(ctx).byte_offset(size)
+            result = field.unpack_absolute_position_ref.deref(ctx).max_offset(size)
             return result
         else:
             return 0
-- 
2.43.0


From b4eca28a35583ec18e64e57ae4e72aee8b23c161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:38 +0000
Subject: [PATCH 57/64] fix: bit array index assignment and deletion stay
 within the array

Deleting an index past the end removed the last byte, deleting an index with fewer than 8 bits left removed more bits than
there were, and assigning there failed half way.
---
 src/infi/instruct/buffer/io_buffer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index d2fb8f1..a0acef3 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -36,9 +36,7 @@ class BitView(abc.Sequence):
         if isinstance(key, slice):
             return self._get_range(start, stop)
         else:  # must be int/float otherwise _key_to_range would raise an error
-            if not -self.length() <= key < self.length():
-                raise IndexError("index {0!r} is out of range for length {1!r}".format(key, self.length()))
-            return self._get_byte_bits(start, min(8, int((self.stop - start) * 8)))
+            return self._get_byte_bits(start, int((stop - start) * 8))
 
     def __len__(self):
         return int(math.ceil(self.stop - self.start))
@@ -100,8 +98,10 @@ class BitView(abc.Sequence):
             stop = self._translate_offset(key.stop if key.stop is not None else self.length())
             assert start <= stop and start >= 0, "start={0!r}, stop={1!r}".format(start, stop)
         elif isinstance(key, integer_types + (float,)):
+            if not -self.length() <= key < self.length():
+                raise IndexError("index {0!r} is out of range for length {1!r}".format(key, self.length()))
             start = self._translate_offset(key)
-            stop = start + 1
+            stop = min(start + 1, self.stop)
         else:
             raise TypeError("index must be int, float or a slice")
         return start, stop
-- 
2.43.0


From 61b70f66799d42172d7503f99a7bdfe784fe5859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:02 +0000
Subject: [PATCH 58/64] fix: bit arrays accept themselves as values and refuse
 values that aren't bytes

The value is read after room has been made for it, so extending, inserting or assigning an array (or a view of it) to itself
failed or copied the wrong bytes; list elements over 255 written at an unaligned position changed bits outside of it.
---
 src/infi/instruct/buffer/io_buffer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index a0acef3..f98f3a7 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -142,8 +142,9 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
     def extend(self, other):
         if isinstance(other, BitView):
             offset = self.stop
-            self._insert_zeros(offset, offset + other.length())
-            self._copy_to_range(offset, other, other.length())
+            other, other_len = self._value_to_value_and_length(other)
+            self._insert_zeros(offset, offset + other_len)
+            self._copy_to_range(offset, other, other_len)
         else:
             super(BitAwareByteArray, self).extend(other)
 
@@ -258,8 +259,7 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
         value_len = 0
         if isinstance(value, BitView):
             value_len = value.length()
-        elif isinstance(value, abc.Sized):
-            value_len = len(value)
+            value = list(value)  # it may be a view of the buffer we're about to change
         elif isinstance(value, abc.Iterable):
             value = bytearray(value)
             value_len = len(value)
-- 
2.43.0


From 5b57b5be42db538494e9ca166f49ab5871555bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:51 +0000
Subject: [PATCH 59/64] fix: nested buffers that end within a byte consume the
 whole byte they were packed into

A list of such buffers, or a field placed after one, was unpacked from the middle of the byte.
---
 src/infi/instruct/buffer/macros.py    | 4 +---
 src/infi/instruct/buffer/serialize.py | 3 ++-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/infi/instruct/buffer/macros.py b/src/infi/instruct/buffer/macros.py
index 9bb7803..7402825 100644
--- a/src/infi/instruct/buffer/macros.py
+++ b/src/infi/instruct/buffer/macros.py
@@ -239,9 +239,7 @@ def unpack_selector_decorator(selector):
     def my_selector(obj, buffer, *args, **kwargs):
         o = selector(obj, buffer, *args, **kwargs)
         if isinstance(o, BufferType):
-            result = o()
-            byte_size = result.unpack(buffer)
-            return result, byte_size
+            return unpack_buffer(buffer, type=o)
         elif isinstance(o, (list, tuple)):
             assert len(o) == 2, "selector returned a list but not a (obj, byte_size)-kind of list"
             return o
diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 6cfff1a..8f1a9ec 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -264,7 +264,8 @@ def pack_buffer(value, **kwargs):
 def unpack_buffer(buffer, **kwargs):
     obj = kwargs['type']()
     byte_size = obj.unpack(buffer)
-    return obj, byte_size
+    # A buffer that ends within a byte is packed into the whole byte.
+    return obj, byte_size if int(byte_size) == byte_size else min(int(math.ceil(byte_size)), buffer.length())
 
 
 def unpack_selector_decorator(selector):
-- 
2.43.0


From 20367772038b9205d85c70cec95b2cb1420c62f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:51 +0000
Subject: [PATCH 60/64] fix: single byte references are initialized as
 references

BitContainer doesn't continue the chain of constructors, so bytes_ref[n] had no 'numeric' attribute and comparing or combining it, or using it as an index, ended in AttributeError.
---
 src/infi/instruct/buffer/reference/range.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/reference/range.py b/src/infi/instruct/buffer/reference/range.py
index 05cd279..bc6dce5 100644
--- a/src/infi/instruct/buffer/reference/range.py
+++ b/src/infi/instruct/buffer/reference/range.py
@@ -77,7 +77,9 @@ class ByteSliceRangeReference(BitContainer, RangeReference):
 class ByteNumericRangeReference(BitContainer, RangeReference):
     def __init__(self, ref):
         assert Reference.is_numeric_ref(ref) or ref >= 0
-        super(ByteNumericRangeReference, self).__init__()
+        BitContainer.__init__(self)
+        RangeReference.__init__(self)
+
         self.ref = Reference.to_ref(ref)
 
     def evaluate(self, ctx):
-- 
2.43.0


From c4807cd779091ed5f27e667818425a7664a7b864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:51 +0000
Subject: [PATCH 61/64] fix: negating a non numeric reference raises TypeError

It returned NotImplemented, which then was used as the value.
---
 src/infi/instruct/buffer/reference/reference.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/reference/reference.py b/src/infi/instruct/buffer/reference/reference.py
index 94e7ee3..0aab260 100644
--- a/src/infi/instruct/buffer/reference/reference.py
+++ b/src/infi/instruct/buffer/reference/reference.py
@@ -209,7 +209,8 @@ class Reference(object):
 
     def __neg__(self):
         if not self.is_numeric():
-            return NotImplemented
+            # There's no reflected operand to try here, so returning NotImplemented would make it the operator's result.
+            raise TypeError("bad operand type for unary -: {0}".format(type(self).__name__))
         return NumericUnaryExpression(self, operator.neg)
 
     # FIXME: add rest of the operators, including unary ones
-- 
2.43.0


From 7f0ce043cb2e452ed48c7d8a2ce9cdc60e686655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:35 +0000
Subject: [PATCH 62/64] fix: fields of a plain base class belong to every
 Buffer class that inherits it

---
 src/infi/instruct/buffer/buffer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index 6dcbf04..e53cd2c 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -56,12 +56,16 @@ class BufferType(type):
         new_cls = super(BufferType, cls).__new__(cls, name, bases, attrs)
 
         # First off, assign names and getters/setters to all the field references and find all the fields.
+        # A field may already have its name if it's declared in a plain base class (mixin) of another Buffer class.
         fields = []
+        inherited_fields = set(id(field) for base in new_cls.mro() for field in base.__dict__.get('__fields__', []))
         for attr_name in dir(new_cls):
             attr = getattr(new_cls, attr_name)
             if isinstance(attr, FieldReference) and not attr.is_initialized():
                 attr.init(attr_name)
                 fields.append(attr)
+            elif isinstance(attr, FieldReference) and attr.attr_name() == attr_name and id(attr) not in inherited_fields:
+                fields.append(attr)
 
         setattr(new_cls, '__fields__', fields)
         setattr(new_cls, 'byte_size', attrs['byte_size'] if 'byte_size' in attrs
-- 
2.43.0


From 940926b5559389644c2d8346004b7acd1a2fc19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:38 +0000
Subject: [PATCH 63/64] fix: failures while the byte size is calculated are
 reported as InstructBufferError

---
 src/infi/instruct/buffer/buffer.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index e53cd2c..1acef55 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -157,6 +157,17 @@ class Buffer(object):
         """
         if ctx is None:
             ctx = PackContext(self, self._all_fields())
+        if type(self).byte_size is None:
+            for field in ctx.fields:  # we resolve the fields one by one so we'll know which field raised an error
+                try:
+                    if ctx.is_pack():
+                        if field.pack_if.deref(ctx):
+                            field.pack_absolute_position_ref.deref(ctx)
+                    elif field.unpack_if.deref(ctx):
+                        field.unpack_ref.deref(ctx)
+                except:
+                    raise chain_exceptions(InstructBufferError("Error while calculating byte size", ctx, type(self),
+                                                               field.attr_name()))
         return TotalSizeReference().deref(ctx)
 
     def _all_fields(self):
-- 
2.43.0


From 17983d9cb5f29e51d1d21adb5b5e3cceb6c2e008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:41 +0000
Subject: [PATCH 64/64] fix: unpacked bytearrays don't share memory with the
 input

---
 src/infi/instruct/buffer/io_buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index f98f3a7..7c8f0a2 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -63,7 +63,7 @@ class BitView(abc.Sequence):
 
     def to_bytearray(self):
         if int(self.start) == self.start and int(self.stop) == self.stop:
-            return self.buffer[int(self.start):int(self.stop)]
+            return bytearray(self.buffer[int(self.start):int(self.stop)])
         else:
             return bytearray(list(self))  # very inefficient.
 
-- 
2.43.0

