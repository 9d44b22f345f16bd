From 5218da7fe25bcb136590a4726aae0db920dc1ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:15 +0000
Subject: [PATCH 01/86] fix: return bytes when reading from a buffer or
 memoryview

BufferUnpacker.read returned a slice of the wrapped object, so that a
class unpacked from a memoryview failed on the first UTF-8 constant.
---
 javatools/pack.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/javatools/pack.py b/javatools/pack.py
index 36bbe9a..d99cd37 100644
--- a/javatools/pack.py
+++ b/javatools/pack.py
@@ -227,8 +227,8 @@ class BufferUnpacker(Unpacker):
 
     def read(self, count):
         """
-        read count bytes from the underlying buffer and return them as a
-        str. Raises an UnpackException if there is not enough data in
+        read count bytes from the underlying buffer and return them as
+        bytes. Raises an UnpackException if there is not enough data in
         the underlying buffer.
         """
 
@@ -242,7 +242,7 @@ class BufferUnpacker(Unpacker):
             raise UnpackException(None, count, avail)
 
         self.offset = offset + count
-        return self.data[offset:self.offset]
+        return bytes(self.data[offset:self.offset])
 
 
     def close(self):
-- 
2.43.0


From f71162749e419e24f657b8bdd52a2362a6c82f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:19 +0000
Subject: [PATCH 02/86] fix: keep reading when a stream delivers less than
 asked for

Raw streams (pipes, sockets, unbuffered files) may return fewer bytes
than requested before the end of the data; StreamUnpacker took that for
the end of the stream.
---
 javatools/pack.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/javatools/pack.py b/javatools/pack.py
index d99cd37..9458ed7 100644
--- a/javatools/pack.py
+++ b/javatools/pack.py
@@ -268,6 +268,24 @@ class StreamUnpacker(Unpacker):
         self.data = data
 
 
+    def _read_fully(self, count):
+        """
+        read count bytes from the underlying stream, which is allowed to
+        deliver less than it is asked for. Returns less than count
+        bytes only at the end of the stream
+        """
+
+        buff = self.data.read(count)
+
+        while len(buff) < count:
+            more = self.data.read(count - len(buff))
+            if not more:
+                break
+            buff += more
+
+        return buff
+
+
     def unpack(self, fmt):
         """
         unpacks the given fmt from the underlying stream and returns the
@@ -281,7 +299,7 @@ class StreamUnpacker(Unpacker):
         if not self.data:
             raise UnpackException(fmt, size, 0)
 
-        buff = self.data.read(size)
+        buff = self._read_fully(size)
         if len(buff) < size:
             raise UnpackException(fmt, size, len(buff))
 
@@ -300,7 +318,7 @@ class StreamUnpacker(Unpacker):
         if not self.data:
             raise UnpackException(struct.format, size, 0)
 
-        buff = self.data.read(size)
+        buff = self._read_fully(size)
         if len(buff) < size:
             raise UnpackException(struct.format, size, len(buff))
 
@@ -317,7 +335,7 @@ class StreamUnpacker(Unpacker):
         if not self.data:
             raise UnpackException(None, count, 0)
 
-        buff = self.data.read(count)
+        buff = self._read_fully(count)
         if len(buff) < count:
             raise UnpackException(None, count, len(buff))
 
-- 
2.43.0


From 0d14a6c75a4f47b072edaaa215c8767d772039fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:23 +0000
Subject: [PATCH 03/86] fix: accept the already read magic header as bytes

unpack_class documents that the four magic bytes read from a stream may
be passed along as a str or tuple, but rejected anything but a tuple.
---
 javatools/__init__.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index 4cb55db..20e2c00 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -501,10 +501,7 @@ class JavaClassInfo(object):
         # only unpack the magic bytes if it wasn't specified
         magic = magic or unpacker.unpack_struct(_BBBB)
 
-        if isinstance(magic, (str, buffer)):
-            magic = tuple(ord(m) for m in magic)
-        else:
-            magic = tuple(magic)
+        magic = _magic_tuple(magic)
 
         if magic != JAVA_CLASS_MAGIC:
             raise ClassUnpackException("Not a Java class file")
@@ -2398,6 +2395,15 @@ def _pretty_class(s):
 # Functions for dealing with buffers and files
 
 
+def _magic_tuple(magic):
+    """
+    the magic header bytes, given as str, bytes, buffer, or a sequence
+    of integers, as a tuple of integers
+    """
+
+    return tuple(m if isinstance(m, int) else ord(m) for m in magic)
+
+
 def is_class(data):
     """
     checks that the data (which is a string, buffer, or a stream
@@ -2446,7 +2452,7 @@ def unpack_class(data, magic=None):
     """
 
     with unpack(data) as up:
-        magic = magic or up.unpack_struct(_BBBB)
+        magic = _magic_tuple(magic or up.unpack_struct(_BBBB))
         if magic != JAVA_CLASS_MAGIC:
             raise ClassUnpackException("Not a Java class file")
 
-- 
2.43.0


From 0f081423d8ced253bdd10f642db16bf8f4d9d806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:27 +0000
Subject: [PATCH 04/86] fix: recognise the empty Deprecated and Synthetic
 attributes

Both are markers with no data, so testing the truth of their (always
empty) contents never found them.
---
 javatools/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index 20e2c00..924dc2c 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -689,7 +689,7 @@ class JavaClassInfo(object):
         reference: http://docs.oracle.com/javase/specs/jvms/se7/html/jvms-4.html#jvms-4.7.15
         """  # noqa
 
-        return bool(self.get_attribute("Deprecated"))
+        return self.get_attribute("Deprecated") is not None
 
 
     def get_super(self):
@@ -1231,7 +1231,7 @@ class JavaMemberInfo(object):
         """  # noqa
 
         return ((self.access_flags & ACC_SYNTHETIC) or
-                bool(self.get_attribute("Synthetic")))
+                self.get_attribute("Synthetic") is not None)
 
 
     def is_enum(self):
@@ -1257,7 +1257,7 @@ class JavaMemberInfo(object):
         reference: http://docs.oracle.com/javase/specs/jvms/se5.0/html/ClassFile.doc.html#78232
         """  # noqa
 
-        return bool(self.get_attribute("Deprecated"))
+        return self.get_attribute("Deprecated") is not None
 
 
     def _get_annotations(self, python_attr_name, java_attr_name,
-- 
2.43.0


From d9f2801c52d21b420281f64e6f5f817afccbf814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:15 +0000
Subject: [PATCH 05/86] fix: decode supplementary characters in modified UTF-8
 constants

They are stored as two encoded surrogates, which the fallback decoding
dropped, so such strings lost characters.
---
 javatools/__init__.py | 51 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 8 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index 924dc2c..4301c11 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -31,6 +31,8 @@ References
 """  # noqa
 
 
+import re
+
 from functools import partial
 from six.moves import range
 
@@ -2109,6 +2111,46 @@ def platform_from_version(major, minor):
 # Utility functions for the constants pool
 
 
+# a character outside of the basic multilingual plane, as a pair of
+# surrogates of three bytes each
+_SURROGATES = re.compile(b"\xED([\xA0-\xAF])([\x80-\xBF])"
+                         b"\xED([\xB0-\xBF])([\x80-\xBF])")
+
+
+def _join_surrogates(match):
+    """
+    the UTF-8 encoding of the character matched by _SURROGATES
+    """
+
+    a, b, c, d = (ord(g) & 0x3F for g in match.groups())
+    high = ((a & 0x0F) << 6) | b
+    low = ((c & 0x0F) << 6) | d
+    code = 0x10000 + (high << 10) + low
+
+    return _BBBB.pack(0xF0 | (code >> 18),
+                      0x80 | ((code >> 12) & 0x3F),
+                      0x80 | ((code >> 6) & 0x3F),
+                      0x80 | (code & 0x3F))
+
+
+def _decode_modified_utf8(val):
+    """
+    decode java's modified utf-8 encoding
+    """
+
+    try:
+        return val.decode("utf8")
+
+    except UnicodeDecodeError:
+        # NUL is encoded in two bytes, and characters outside of the
+        # basic multilingual plane as a pair of encoded surrogates.
+        # we want at least some data, thus we ignore unknown
+        # characters
+        val = val.replace(b"\xC0\x80", b"\x00")
+        val = _SURROGATES.sub(_join_surrogates, val)
+        return val.decode("utf8", "ignore")
+
+
 def _unpack_const_item(unpacker):
     """
     unpack a constant pool item, which will consist of a type byte
@@ -2121,14 +2163,7 @@ def _unpack_const_item(unpacker):
     if typecode == CONST_Utf8:
         (slen,) = unpacker.unpack_struct(_H)
         val = unpacker.read(slen)
-        try:
-            val = val.decode("utf8")
-        except UnicodeDecodeError:
-            # easiest hack to handle java's modified utf-8 encoding
-            # also we want at least some data, thus we ignore
-            # unknown characters
-            val = val.replace(b"\xC0\x80", b"\x00") \
-                     .decode("utf8", errors="ignore")
+        val = _decode_modified_utf8(val)
 
     elif typecode == CONST_Integer:
         (val,) = unpacker.unpack(">i")
-- 
2.43.0


From 76beb2f9efc2cfb199c8d14906c89c41b55bdcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:18 +0000
Subject: [PATCH 06/86] fix: decode the SourceDebugExtension attribute

str() of the buffer gave its repr, not the text.
---
 javatools/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index 4301c11..118e1c6 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -778,7 +778,7 @@ class JavaClassInfo(object):
         """  # noqa
 
         buff = self.get_attribute("SourceDebugExtension")
-        return (buff and str(buff)) or None
+        return (buff and _decode_modified_utf8(buff)) or None
 
 
     def get_innerclasses(self):
-- 
2.43.0


From ecc0da4bcc4e0e7bb4d0b239c89a4afe170d03c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:21 +0000
Subject: [PATCH 07/86] fix: find bridge methods for any sequence of argument
 types

get_method accepts lists and iterables, get_method_bridges only ever
matched a tuple.
---
 javatools/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index 118e1c6..8cf489d 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -594,6 +594,9 @@ class JavaClassInfo(object):
         those in arg_types.
         """
 
+        # as in get_method
+        arg_types = tuple(arg_types)
+
         for m in self.get_methods_by_name(name):
             if ((m.is_bridge() and
                  m.get_arg_type_descriptors() == arg_types)):
-- 
2.43.0


From 16f381376cb6ed8d3142c4f07675f60ea6542459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:24 +0000
Subject: [PATCH 08/86] fix: str() of an exception table entry

The entry's offsets are integers, which cannot be joined as strings.
---
 javatools/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index 8cf489d..b25c11b 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -1868,7 +1868,7 @@ class JavaExceptionInfo(object):
 
 
     def __str__(self):
-        return "(%s)" % ",".join(self.info())
+        return "(%s)" % ",".join(str(i) for i in self.info())
 
 
 class JavaInnerClassInfo(object):
-- 
2.43.0


From 85b18c7c80056e16b49f0b8921c0201cce84aef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:28 +0000
Subject: [PATCH 09/86] fix: unpack AnnotationDefault as an element value

The attribute holds a tagged element value, not a constant pool index;
reading its first two bytes as an index gave garbage.
---
 javatools/__init__.py | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index b25c11b..f6be740 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -1342,8 +1342,9 @@ class JavaMemberInfo(object):
 
     def get_annotationdefault(self):
         """
-        The AnnotationDefault attribute, only present upon fields in an
-        annotaion.
+        The AnnotationDefault attribute, only present upon methods of an
+        annotation. A tuple of the tag and the data of the element
+        value, as for the values of a `JavaAnnotation`
 
         reference: http://docs.oracle.com/javase/specs/jvms/se7/html/jvms-4.html#jvms-4.7.20
         """  # noqa
@@ -1353,9 +1354,7 @@ class JavaMemberInfo(object):
             return None
 
         with unpack(buff) as up:
-            (ti, ) = up.unpack_struct(_H)
-
-        return ti
+            return _unpack_annotation_val(up, self.cpool)
 
 
     def deref_annotationdefault(self):
@@ -1363,11 +1362,11 @@ class JavaMemberInfo(object):
         dereferences the AnnotationDefault attribute
         """
 
-        index = self.get_annotationdefault()
-        if index is None:
+        val = self.get_annotationdefault()
+        if val is None:
             return None
         else:
-            return self.deref_const(index)
+            return _deref_annotation_val(val, self.cpool)
 
 
     def get_code(self):
@@ -2050,6 +2049,28 @@ def _unpack_annotation_val(unpacker, cpool):
     return tag, data
 
 
+def _deref_annotation_val(val, cpool):
+    """
+    the dereferenced value of a tag and data pair annotation value.
+    For an enum this is a tuple of the type and constant name, for an
+    array a list, and for a nested annotation the `JavaAnnotation`
+    """
+
+    tag, data = val
+
+    if tag == 'e':
+        return tuple(cpool.deref_const(d) for d in data)
+
+    elif tag == '@':
+        return data
+
+    elif tag == '[':
+        return [_deref_annotation_val(d, cpool) for d in data]
+
+    else:
+        return cpool.deref_const(data)
+
+
 def _pretty_annotation_val(val, cpool):
     """
     a pretty display of a tag and data pair annotation value
-- 
2.43.0


From aa8b9ded62b596f9f626303950e81b729d9c75a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:53 +0000
Subject: [PATCH 10/86] fix: pretty_deref_const of MethodHandle, MethodType,
 Module, Package

Single index constants were subscripted, deref_cons does not exist, and
MethodHandle was missing, so each of them raised.
---
 javatools/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index f6be740..cb2bb2e 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -399,14 +399,17 @@ class JavaConstantPool(object):
             # TODO: v[0] needs to come from the bootstrap methods table
             result = "Dynamic %r %r" % (v[0], self.deref_const(v[1]))
 
+        elif t == CONST_MethodHandle:
+            result = "MethodHandle %r %r" % (v[0], self.deref_const(v[1]))
+
         elif t == CONST_MethodType:
-            result = "MethodType %r %r" % (v[0], self.deref_const(v[1]))
+            result = "MethodType %s" % self.deref_const(v)
 
         elif t == CONST_Module:
-            result = "Module %s" % self.deref_cons(v[0])
+            result = "Module %s" % self.deref_const(v)
 
         elif t == CONST_Package:
-            result = "Package %s" % self.deref_cons(v[0])
+            result = "Package %s" % self.deref_const(v)
 
         elif not t:
             # the skipped-type, meaning the prior index was a
-- 
2.43.0


From 054d06a46544a6e5aea96c3ef62f31eb33574056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 11/86] fix: pretty_const of Dynamic constants

A class with a CONSTANT_Dynamic could be unpacked but its constants not
be listed.
---
 javatools/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index cb2bb2e..d9f6085 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -2276,6 +2276,9 @@ def _pretty_const_type_val(typecode, val):
     elif typecode == CONST_MethodType:
         typestr = "MethodType"
         val = repr(val)
+    elif typecode == CONST_Dynamic:
+        typestr = "Dynamic"
+        val = repr(val)
     elif typecode == CONST_InvokeDynamic:
         typestr = "InvokeDynamic"
         val = repr(val)
-- 
2.43.0


From 1408f6c3de01ada8dffac09f512665fda22335da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:01 +0000
Subject: [PATCH 12/86] fix: require the element type of multi-dimensional
 arrays

Only the first dimension was removed before looking for a class.
---
 javatools/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index d9f6085..5f5297b 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -984,9 +984,9 @@ class JavaClassInfo(object):
                     # the event that this was a method or field on the
                     # array, we'll throw away that as well, and just
                     # emit the type contained in the array.
-                    t = _typeseq(pv)[0]
-                    if t[1] == "L":
-                        pv = _pretty_type(t[1:])
+                    t = _typeseq(pv)[0].lstrip("[")
+                    if t[0] == "L":
+                        pv = _pretty_type(t)
                     else:
                         pv = None
 
-- 
2.43.0


From 120fb9ba72028b3d9dec57839557ca49dea39f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:04 +0000
Subject: [PATCH 13/86] fix: the operand of bipush is signed

---
 javatools/opcodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/opcodes.py b/javatools/opcodes.py
index 6914b1d..8238396 100644
--- a/javatools/opcodes.py
+++ b/javatools/opcodes.py
@@ -282,7 +282,7 @@ OP_athrow = __op('athrow', 0xbf)
 
 OP_baload = __op('baload', 0x33)
 OP_bastore = __op('bastore', 0x54)
-OP_bipush = __op('bipush', 0x10, fmt='>B')
+OP_bipush = __op('bipush', 0x10, fmt='>b')
 
 OP_caload = __op('caload', 0x34)
 OP_castore = __op('castore', 0x55)
-- 
2.43.0


From acdc4c1655fbdd7baa885da3f0ff269e88d245ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:08 +0000
Subject: [PATCH 14/86] fix: multianewarray has a constant pool argument

---
 javatools/opcodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/opcodes.py b/javatools/opcodes.py
index 8238396..e477718 100644
--- a/javatools/opcodes.py
+++ b/javatools/opcodes.py
@@ -457,7 +457,7 @@ OP_lxor = __op('lxor', 0x83)
 
 OP_monitorentry = __op('monitorentry', 0xc2)
 OP_monitorexit = __op('monitorexit', 0xc3)
-OP_multianewarray = __op('multianewarray', 0xc5, fmt='>HB')
+OP_multianewarray = __op('multianewarray', 0xc5, fmt='>HB', const=True)
 
 OP_new = __op('new', 0xbb, fmt='>H', const=True)
 OP_newarray = __op('newarray', 0xbc, fmt='>B')
-- 
2.43.0


From a193cd49a98764feac9a57342a72e0747d50acd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:12 +0000
Subject: [PATCH 15/86] fix: the mnemonic of opcode 0xc2 is monitorenter

---
 javatools/opcodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/opcodes.py b/javatools/opcodes.py
index e477718..14dccda 100644
--- a/javatools/opcodes.py
+++ b/javatools/opcodes.py
@@ -455,7 +455,7 @@ OP_lsub = __op('lsub', 0x65)
 OP_lushr = __op('lushr', 0x7d)
 OP_lxor = __op('lxor', 0x83)
 
-OP_monitorentry = __op('monitorentry', 0xc2)
+OP_monitorentry = __op('monitorenter', 0xc2)
 OP_monitorexit = __op('monitorexit', 0xc3)
 OP_multianewarray = __op('multianewarray', 0xc5, fmt='>HB', const=True)
 
-- 
2.43.0


From 68a943bc82d60f39844624ac90586f3f0cec0df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:49 +0000
Subject: [PATCH 16/86] fix: the name of an anonymous inner class

Its name reference is zero, which is not a constant.
---
 javatools/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index 5f5297b..2981959 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -1904,10 +1904,10 @@ class JavaInnerClassInfo(object):
 
     def get_name(self):
         """
-        the name of this inner-class
+        the name of this inner-class, or None if it is anonymous
         """
 
-        return self.cpool.deref_const(self.name_ref)
+        return self.cpool.deref_const(self.name_ref) if self.name_ref else None
 
 
 class JavaAnnotation(dict):
-- 
2.43.0


From 9aa72813083398dd8e7b31b8374be34354097f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:23 +0000
Subject: [PATCH 17/86] fix: compare floating point constants by representation

A class with a NaN constant differed from itself, and a change from 0.0
to -0.0 went unnoticed.
---
 javatools/__init__.py  | 20 +++++++++++++++++---
 javatools/classdiff.py | 10 +++++++---
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index 2981959..825fea6 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -183,8 +183,11 @@ class JavaConstantPool(object):
 
 
     def __eq__(self, other):
-        return (isinstance(other, JavaConstantPool) and
-                (self.consts == other.consts))
+        if not isinstance(other, JavaConstantPool):
+            return False
+
+        return ([(t, _comparable(v)) for t, v in self.consts] ==
+                [(t, _comparable(v)) for t, v in other.consts])
 
 
     def __ne__(self, other):
@@ -1994,7 +1997,8 @@ def _annotation_val_eq(left_tag, left_data, left_cpool,
     rconst = right_cpool.deref_const
 
     if left_tag in 'BCDFIJSZs':
-        return lconst(left_data) == rconst(right_data)
+        return (_comparable(lconst(left_data)) ==
+                _comparable(rconst(right_data)))
 
     elif left_tag == 'e':
         return ((lconst(left_data[0]) == rconst(right_data[0])) and
@@ -2226,6 +2230,16 @@ def _unpack_const_item(unpacker):
     return typecode, val
 
 
+def _comparable(val):
+    """
+    given the value of a constant, returns something to compare in its
+    stead. This is the value itself, except for floating point numbers,
+    where the same NaN is not equal to itself and 0.0 is equal to -0.0
+    """
+
+    return ("float", repr(val)) if isinstance(val, float) else val
+
+
 def _pretty_const_type_val(typecode, val):
     """
     given a typecode and a value, returns the appropriate pretty
diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index 5323bd6..a4822b2 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -31,7 +31,7 @@ from abc import ABCMeta
 from argparse import ArgumentParser, Action
 from six import add_metaclass
 
-from . import unpack_classfile
+from . import unpack_classfile, _comparable
 from .change import GenericChange, SuperChange
 from .change import Addition, Removal
 from .change import yield_sorted_by_type
@@ -445,8 +445,8 @@ class CodeConstantsChange(GenericChange):
 
             if has_const_arg(l[1]):
                 largs, rargs = list(largs), list(rargs)
-                largs[0] = left.cpool.deref_const(largs[0])
-                rargs[0] = right.cpool.deref_const(rargs[0])
+                largs[0] = _comparable(left.cpool.deref_const(largs[0]))
+                rargs[0] = _comparable(right.cpool.deref_const(rargs[0]))
 
             if largs != rargs:
                 offsets.append(l[0])
@@ -726,6 +726,10 @@ class FieldConstvalueChange(GenericChange):
         return c.deref_constantvalue()
 
 
+    def fn_differ(self, left_data, right_data):
+        return _comparable(left_data) != _comparable(right_data)
+
+
     def fn_pretty(self, c):
         return repr(c.deref_constantvalue())
 
-- 
2.43.0


From 7eaf65beefb8c8b458a43c52d52739bc2c639acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:26 +0000
Subject: [PATCH 18/86] fix: compare the types of the constants code refers to

With --ignore-pool, loading the String "a" instead of the class a, or
the int 1 instead of the float 1.0, was not reported.
---
 javatools/classdiff.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index a4822b2..fb39b43 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -423,6 +423,16 @@ class CodeConstantsChange(GenericChange):
         return pr
 
 
+    def _comparable_const(self, code, index):
+        """
+        the type and dereferenced value of a constant. The value alone
+        isn't enough, eg. for 1 and 1.0, or a string and a class
+        """
+
+        ctype, _val = code.cpool.get_const(index)
+        return ctype, _comparable(code.deref_const(index))
+
+
     def check_impl(self):
         left = self.ldata
         right = self.rdata
@@ -445,8 +455,8 @@ class CodeConstantsChange(GenericChange):
 
             if has_const_arg(l[1]):
                 largs, rargs = list(largs), list(rargs)
-                largs[0] = _comparable(left.cpool.deref_const(largs[0]))
-                rargs[0] = _comparable(right.cpool.deref_const(rargs[0]))
+                largs[0] = self._comparable_const(left, largs[0])
+                rargs[0] = self._comparable_const(right, rargs[0])
 
             if largs != rargs:
                 offsets.append(l[0])
-- 
2.43.0


From d18de1bcce2b50b1ba96b751026fc67409f605bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:28 +0000
Subject: [PATCH 19/86] fix: honor --ignore-platform, --ignore-platform-up and
 -down

The options were accepted, but nothing looked at them.
---
 javatools/classdiff.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index fb39b43..cad72ff 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -130,8 +130,11 @@ class ClassPlatformChange(GenericChange):
         lver = self.ldata.version
         rver = self.rdata.version
 
-        return ((o.ignore_version_up and lver < rver) or
-                (o.ignore_version_down and lver > rver))
+        ignore_up = o.ignore_version_up or o.ignore_platform_up
+        ignore_down = o.ignore_version_down or o.ignore_platform_down
+
+        return ((ignore_up and lver < rver) or
+                (ignore_down and lver > rver))
 
 
 class ClassSuperclassChange(GenericChange):
-- 
2.43.0


From 7de582add9b53e6614350ac943e8acf5b33d87d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:31 +0000
Subject: [PATCH 20/86] fix: honor --ignore-added

The option was accepted, but nothing looked at it.
---
 javatools/classdiff.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index cad72ff..5989b2e 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -278,6 +278,10 @@ class MemberAdded(Addition):
         return "%s: %s" % (self.label, self.rdata.pretty_descriptor())
 
 
+    def is_ignored(self, o):
+        return o.ignore_added
+
+
 @add_metaclass(ABCMeta)
 class MemberRemoved(Removal):
     """
-- 
2.43.0


From 78fede3a8490ceced5dba241ab0ad5115c937512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:46 +0000
Subject: [PATCH 21/86] fix: let --ignore=lines,version,platform work as their
 own options do

--ignore-lines implies both of --ignore-absolute-lines and
--ignore-relative-lines, --ignore=lines had no effect at all.
---
 javatools/classdiff.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index 5989b2e..8345dc7 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -1037,6 +1037,14 @@ def add_classdiff_optgroup(parser):
                    action=_opt_cb_ign_version)
 
 
+# options which are a shorthand for a number of other options
+_composite_ignores = {
+    "ignore_lines": ("ignore_absolute_lines", "ignore_relative_lines"),
+    "ignore_version": ("ignore_version_up", "ignore_version_down"),
+    "ignore_platform": ("ignore_platform_up", "ignore_platform_down"),
+}
+
+
 class _opt_cb_ignore(Action):
     """
     handle the --ignore option, which trigges other options
@@ -1055,7 +1063,10 @@ class _opt_cb_ignore(Action):
         ign = (i for i in ign if i)
         for i in ign:
             ignore.append(i)
-            setattr(options, "ignore_" + i.replace("-", "_"), True)
+            name = "ignore_" + i.replace("-", "_")
+            setattr(options, name, True)
+            for sub in _composite_ignores.get(name, ()):
+                setattr(options, sub, True)
 
 
 class _opt_cb_ign_lines(Action):
-- 
2.43.0


From 0a8ad2ad4fc86037e5cd7405b98e02ae1382c2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:01 +0000
Subject: [PATCH 22/86] fix: default_classdiff_options,
 default_jardiff_options, default_distdiff_options

They still assumed optparse: argparse insists on the positional
arguments, returns no tuple, and its options have no _update_careful.
---
 javatools/classdiff.py | 8 +++++---
 javatools/distdiff.py  | 8 +++++---
 javatools/jardiff.py   | 8 +++++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index 8345dc7..10e37e3 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -1165,11 +1165,13 @@ def default_classdiff_options(updates=None):
     """
 
     parser = create_optparser()
-    options, _args = parser.parse_args(list())
+    # the two positional arguments are required
+    options = parser.parse_args(["", ""])
 
     if updates:
-        # pylint: disable=W0212
-        options._update_careful(updates)
+        for key, val in updates.items():
+            if hasattr(options, key):
+                setattr(options, key, val)
 
     return options
 
diff --git a/javatools/distdiff.py b/javatools/distdiff.py
index 5da4d79..e43eb25 100644
--- a/javatools/distdiff.py
+++ b/javatools/distdiff.py
@@ -651,11 +651,13 @@ def default_distdiff_options(updates=None):
     """
 
     parser = create_optparser()
-    options = parser.parse_args(list())
+    # the two positional arguments are required
+    options = parser.parse_args(["", ""])
 
     if updates:
-        # pylint: disable=W0212
-        options._update_careful(updates)
+        for key, val in updates.items():
+            if hasattr(options, key):
+                setattr(options, key, val)
 
     return options
 
diff --git a/javatools/jardiff.py b/javatools/jardiff.py
index 08d09c6..cf8ca59 100644
--- a/javatools/jardiff.py
+++ b/javatools/jardiff.py
@@ -610,11 +610,13 @@ def default_jardiff_options(updates=None):
     """
 
     parser = create_optparser()
-    options, _args = parser.parse_args(list())
+    # the two positional arguments are required
+    options = parser.parse_args(["", ""])
 
     if updates:
-        # pylint: disable=W0212
-        options._update_careful(updates)
+        for key, val in updates.items():
+            if hasattr(options, key):
+                setattr(options, key, val)
 
     return options
 
-- 
2.43.0


From 331af2a91c8c7db4bf73e809cec160c6fac78361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:04 +0000
Subject: [PATCH 23/86] fix: simplify a changed super change without options

The options are optional, but were handed to is_ignored of the
children, which need them.
---
 javatools/change.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/javatools/change.py b/javatools/change.py
index ba4fbcd..a2fb61b 100644
--- a/javatools/change.py
+++ b/javatools/change.py
@@ -510,7 +510,8 @@ class SuperChange(GenericChange):
         subs = list()
         for s in self.collect():
             if s.is_change():
-                if show_ignored or not s.is_ignored(options):
+                if (show_ignored or options is None or
+                        not s.is_ignored(options)):
                     subs.append(s)
             elif show_unchanged:
                 subs.append(s)
-- 
2.43.0


From fc738e9c3f946bdd8e25707a2ad703820b28c505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:10 +0000
Subject: [PATCH 24/86] fix: compare the contents of files, not their size and
 time

---
 javatools/dirutils.py | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/javatools/dirutils.py b/javatools/dirutils.py
index b5c2174..9b67448 100644
--- a/javatools/dirutils.py
+++ b/javatools/dirutils.py
@@ -25,7 +25,7 @@ trees
 from filecmp import dircmp
 from fnmatch import fnmatch
 from os import makedirs, walk
-from os.path import exists, isdir, join, relpath
+from os.path import exists, getsize, isdir, join, relpath
 from shutil import copy
 
 
@@ -36,6 +36,9 @@ SAME = "same"
 BOTH = SAME  # meh, synonyms
 
 
+_CHUNKSIZE = 2 ** 14
+
+
 def fnmatches(entry, *pattern_list):
     """
     returns true if entry matches any of the glob patterns, false
@@ -124,15 +127,20 @@ def _gen_from_dircmp(dc, lpath, rpath):
         else:
             yield (RIGHT, relpath(fp, rpath))
 
-    diff_files = dc.diff_files
-    diff_files.sort()
+    diff_files = list()
+    same_files = list()
+
+    # dircmp would take files of equal size and modification time to
+    # be the same, without looking at them
+    for f in sorted(dc.common_files):
+        if _same_content(join(dc.left, f), join(dc.right, f)):
+            same_files.append(f)
+        else:
+            diff_files.append(f)
 
     for f in diff_files:
         yield (DIFF, join(relpath(dc.right, rpath), f))
 
-    same_files = dc.same_files
-    same_files.sort()
-
     for f in same_files:
         yield (BOTH, join(relpath(dc.left, lpath), f))
 
@@ -143,6 +151,25 @@ def _gen_from_dircmp(dc, lpath, rpath):
             yield event
 
 
+def _same_content(left, right):
+    """
+    true if the files left and right have the same content
+    """
+
+    if getsize(left) != getsize(right):
+        return False
+
+    with open(left, "rb") as lfd, open(right, "rb") as rfd:
+        while True:
+            ldata = lfd.read(_CHUNKSIZE)
+            rdata = rfd.read(_CHUNKSIZE)
+
+            if ldata != rdata:
+                return False
+            elif not ldata:
+                return True
+
+
 def collect_compare(left, right):
     """
     returns a tuple of four lists describing the file paths that have
-- 
2.43.0


From f7e5cf25eb60e269f3a2fc8de914c90b2a115e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:24 +0000
Subject: [PATCH 25/86] fix: report a file that became a directory or vice
 versa

---
 javatools/dirutils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/javatools/dirutils.py b/javatools/dirutils.py
index 9b67448..289368c 100644
--- a/javatools/dirutils.py
+++ b/javatools/dirutils.py
@@ -101,7 +101,12 @@ def _gen_from_dircmp(dc, lpath, rpath):
     do the work of comparing the dircmp
     """
 
-    left_only = dc.left_only
+    # names which are e.g. a file on one side and a directory on the
+    # other have nothing in common
+    mixed = [f for f in dc.common_funny
+             if isdir(join(dc.left, f)) != isdir(join(dc.right, f))]
+
+    left_only = dc.left_only + mixed
     left_only.sort()
 
     for f in left_only:
@@ -114,7 +119,7 @@ def _gen_from_dircmp(dc, lpath, rpath):
         else:
             yield (LEFT, relpath(fp, lpath))
 
-    right_only = dc.right_only
+    right_only = dc.right_only + mixed
     right_only.sort()
 
     for f in right_only:
-- 
2.43.0


From 161ba0acd1f3ad7b221d0a730b3fdc1c29dba326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:28 +0000
Subject: [PATCH 26/86] fix: no ./ in front of the names of top level files

---
 javatools/dirutils.py | 4 ++--
 javatools/distdiff.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/javatools/dirutils.py b/javatools/dirutils.py
index 289368c..a10d28c 100644
--- a/javatools/dirutils.py
+++ b/javatools/dirutils.py
@@ -144,10 +144,10 @@ def _gen_from_dircmp(dc, lpath, rpath):
             diff_files.append(f)
 
     for f in diff_files:
-        yield (DIFF, join(relpath(dc.right, rpath), f))
+        yield (DIFF, relpath(join(dc.right, f), rpath))
 
     for f in same_files:
-        yield (BOTH, join(relpath(dc.left, lpath), f))
+        yield (BOTH, relpath(join(dc.left, f), lpath))
 
     subdirs = dc.subdirs.values()
     subdirs = sorted(subdirs)
diff --git a/javatools/distdiff.py b/javatools/distdiff.py
index e43eb25..c4bce69 100644
--- a/javatools/distdiff.py
+++ b/javatools/distdiff.py
@@ -344,7 +344,7 @@ class DistChange(SuperChange):
                 elif event == SAME:
                     yield DistTextChange(ld, rd, entry, False)
 
-            elif deep and fnmatches(entry, "*/MANIFEST.MF"):
+            elif deep and fnmatches(entry, "MANIFEST.MF", "*/MANIFEST.MF"):
                 if event == LEFT:
                     yield DistContentRemoved(ld, rd, entry)
                 elif event == RIGHT:
-- 
2.43.0


From 411352f4539d758ff02fb1e2e1ae4b4cf158fd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:46 +0000
Subject: [PATCH 27/86] fix: create nested directories where they belong

---
 javatools/dirutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/dirutils.py b/javatools/dirutils.py
index a10d28c..6d6b8a2 100644
--- a/javatools/dirutils.py
+++ b/javatools/dirutils.py
@@ -73,7 +73,7 @@ def copydir(orig, dest):
     for root, dirs, files in walk(orig):
         for d in dirs:
             # ensure directories exist
-            makedirsp(join(dest, d))
+            makedirsp(join(dest, relpath(join(root, d), orig)))
 
         for f in files:
             root_f = join(root, f)
-- 
2.43.0


From d9cc721ce27cd57ed3444dda9790bef9ad95603a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:49 +0000
Subject: [PATCH 28/86] fix: keep the archives open while ziputils.compare
 reads them

---
 javatools/ziputils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/javatools/ziputils.py b/javatools/ziputils.py
index 4b92ca3..23b6fbc 100644
--- a/javatools/ziputils.py
+++ b/javatools/ziputils.py
@@ -54,7 +54,8 @@ def compare(left, right):
     """
 
     with open_zip(left) as lz, open_zip(right) as rz:
-        return compare_zips(lz, rz)
+        for event in compare_zips(lz, rz):
+            yield event
 
 
 def compare_zips(left, right):
-- 
2.43.0


From bfb18dcdee1dba70fb75150306c3ae2ba63278c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:52 +0000
Subject: [PATCH 29/86] fix: open the entries of an exploded archive as binary

---
 javatools/ziputils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/javatools/ziputils.py b/javatools/ziputils.py
index 23b6fbc..d03411c 100644
--- a/javatools/ziputils.py
+++ b/javatools/ziputils.py
@@ -289,7 +289,10 @@ class ExplodedZipFile(object):
         return self.members.values()
 
 
-    def open(self, name, mode='rb'):
+    def open(self, name, mode='r'):
+        # like those of a ZipFile, entries are always binary
+        if 'b' not in mode:
+            mode += 'b'
         return open(join(self.fn, name), mode)
 
 
-- 
2.43.0


From b813382a15a50c9f92323aa17f1c03bd8a69f14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:55 +0000
Subject: [PATCH 30/86] fix: let is_zipstream work upon bytes

---
 javatools/ziputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/ziputils.py b/javatools/ziputils.py
index d03411c..8da999f 100644
--- a/javatools/ziputils.py
+++ b/javatools/ziputils.py
@@ -191,7 +191,7 @@ def is_zipstream(data):
     rewound after being tested.
     """
 
-    if isinstance(data, (str, buffer)):
+    if isinstance(data, (bytes, bytearray, buffer)):
         data = BytesIO(data)
 
     if hasattr(data, "read"):
-- 
2.43.0


From 4339cf88d8334870f39c98bb1bd8db0b584c0651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:12 +0000
Subject: [PATCH 31/86] fix: collect the children of a change only once if
 there are none

---
 javatools/change.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/javatools/change.py b/javatools/change.py
index a2fb61b..bb2abf3 100644
--- a/javatools/change.py
+++ b/javatools/change.py
@@ -409,7 +409,8 @@ class SuperChange(GenericChange):
 
     def __init__(self, ldata, rdata):
         super(SuperChange, self).__init__(ldata, rdata)
-        self.changes = tuple()
+        # None until collected
+        self.changes = None
 
 
     def fn_pretty(self, c):
@@ -423,7 +424,7 @@ class SuperChange(GenericChange):
 
         super(SuperChange, self).clear()
 
-        for c in self.changes:
+        for c in self.changes or tuple():
             c.clear()
         self.changes = tuple()
 
@@ -449,7 +450,7 @@ class SuperChange(GenericChange):
         time, unless force is True
         """
 
-        if force or not self.changes:
+        if force or self.changes is None:
             self.changes = tuple(self.collect_impl())
         return self.changes
 
-- 
2.43.0


From 6e5f8df67ec7a3cca6433c0046d35f8748c76a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:33 +0000
Subject: [PATCH 32/86] fix: report changed files of no particular kind

---
 javatools/distdiff.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/javatools/distdiff.py b/javatools/distdiff.py
index c4bce69..859039b 100644
--- a/javatools/distdiff.py
+++ b/javatools/distdiff.py
@@ -107,6 +107,14 @@ class DistContentChange(SuperChange):
         return tuple()
 
 
+    def check_impl(self):
+        if self.collect():
+            return super(DistContentChange, self).check_impl()
+        else:
+            # nothing more concrete than whether the files differ
+            return self.changed, None
+
+
     def get_description(self):
         c = "has changed" if self.is_change() else "is unchanged"
         return "%s %s: %s" % (self.label, c, self.entry)
-- 
2.43.0


From 8bd8a8f41aff6ea1e9a3aad305d8edc6a22d6ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:35 +0000
Subject: [PATCH 33/86] fix: compare text files whatever their encoding and
 line endings

---
 javatools/distdiff.py | 49 +++++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/javatools/distdiff.py b/javatools/distdiff.py
index 859039b..8d20a94 100644
--- a/javatools/distdiff.py
+++ b/javatools/distdiff.py
@@ -143,6 +143,24 @@ class DistContentRemoved(DistContentChange, Removal):
         return "%s: %s" % (self.label, self.entry)
 
 
+def _text_lines(data):
+    """
+    the lines of the content of a text file
+    """
+
+    data = data.replace(b"\r\n", b"\n").replace(b"\r", b"\n")
+    return data.split(b"\n")
+
+
+def _text_decode(data):
+    """
+    the content of a text file, which may be in any encoding, as text
+    """
+
+    data = data.decode("utf-8", "replace")
+    return data.replace("\r\n", "\n").replace("\r", "\n")
+
+
 class DistTextChange(DistContentChange):
 
     label = "Distributed Text"
@@ -158,16 +176,15 @@ class DistTextChange(DistContentChange):
         # check if the only difference is in the trailing whitespace,
         # and if so, set lineending to true so we can optionally
         # ignore the change later.
-        with self.open_left(mode="rt") as lfd:
-            with self.open_right(mode="rt") as rfd:
-                for li, ri in zip_longest(lfd, rfd, fillvalue=""):
-                    if li.rstrip() != ri.rstrip():
-                        self.lineending = False
-                        break
-                else:
-                    # we went through every line, and they were all
-                    # equal when stripped of their trailing whitespace
-                    self.lineending = True
+        with self.open_left() as lfd, self.open_right() as rfd:
+            llines = _text_lines(lfd.read())
+            rlines = _text_lines(rfd.read())
+
+        # lineending if all lines are equal when stripped of their
+        # trailing whitespace
+        pairs = zip_longest(llines, rlines, fillvalue=b"")
+        self.lineending = all(li.rstrip() == ri.rstrip()
+                              for li, ri in pairs)
 
         return super(DistTextChange, self).check()
 
@@ -177,13 +194,13 @@ class DistTextChange(DistContentChange):
                 (self.lineending and options.ignore_trailing_whitespace))
 
     def collect_impl(self):
-        with self.open_left(mode="rt") as lfd, \
-             self.open_right(mode="rt") as rfd:
+        with self.open_left() as lfd, self.open_right() as rfd:
+            left = _text_decode(lfd.read())
+            right = _text_decode(rfd.read())
 
-            left = lfd.read()
-            right = rfd.read()
-            if left != right:
-                yield GenericChange(left, right)
+        # nothing to show for bytes which are no text in either
+        if left != right:
+            yield GenericChange(left, right)
 
 
 class DistManifestChange(DistContentChange):
-- 
2.43.0


From 99dbdcb2ccce5b5c16731c03a96b02df0a0b1815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:48 +0000
Subject: [PATCH 34/86] fix: unfold manifest lines before decoding them

---
 javatools/manifest.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 7f27418..48a11e4 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -374,8 +374,6 @@ class Manifest(ManifestSection):
         :type data: bytes
         """
 
-        # we want at least some data, thus we ignore unknown characters
-        data = data.decode('utf-8', errors="ignore")
         self.linesep = detect_linesep(data)
 
         # the first section is the main one for the manifest. It's
@@ -695,9 +693,9 @@ def b64_encoded_digest(data, algorithm):
 
 def detect_linesep(data):
     """
-    :type data: unicode in Py2, str in Py3
+    :type data: bytes
     """
-    return "\r\n" if "\r\n" in data else "\n"
+    return "\r\n" if b"\r\n" in data else "\n"
 
 
 def parse_sections(data):
@@ -711,7 +709,20 @@ def parse_sections(data):
     present if the value is long enough to require line continuations
     in which case simply concatenate the vals together to get the full
     value.
-    :type data: unicode in Py2, str in Py3
+    :type data: bytes
+    """
+
+    for section in _parse_raw_sections(data):
+        # lines are broken at any byte, also inside of a character. We
+        # want at least some data, thus we ignore unknown characters
+        yield [(key.decode("utf-8", "ignore"),
+                [b"".join(vals).decode("utf-8", "ignore")])
+               for key, vals in section]
+
+
+def _parse_raw_sections(data):
+    """
+    as parse_sections, but yields keys and vals as bytes
     """
 
     if not data:
@@ -722,7 +733,7 @@ def parse_sections(data):
 
     for lineno, line in enumerate(data.splitlines()):
         # Clean up the line
-        cleanline = line.replace('\x00', '')
+        cleanline = line.replace(b'\x00', b'')
 
         if not cleanline:
             # blank line means end of current section (if any)
@@ -730,7 +741,7 @@ def parse_sections(data):
                 yield curr
                 curr = None
 
-        elif cleanline[0] == ' ':
+        elif cleanline.startswith(b' '):
             # line beginning with a space means a continuation
             if curr is None:
                 raise MalformedManifest("bad line continuation, "
@@ -745,7 +756,7 @@ def parse_sections(data):
                 curr = list()
 
             try:
-                key, val = cleanline.split(':', 1)
+                key, val = cleanline.split(b':', 1)
                 curr.append((key, [val[1:]]))
             except ValueError:
                 raise MalformedManifest(
-- 
2.43.0


From bc736ef6012205e70e520b76ceb762c650b0bad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:07 +0000
Subject: [PATCH 35/86] fix: parse an empty manifest

---
 javatools/manifest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 48a11e4..2f26384 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -379,7 +379,7 @@ class Manifest(ManifestSection):
         # the first section is the main one for the manifest. It's
         # also where we will check for our newline separator
         sections = parse_sections(data)
-        self.load(next(sections))
+        self.load(next(sections, ()))
 
         # and all following sections are considered sub-sections
         for section in sections:
-- 
2.43.0


From 08ba0ffae0f3dc6a27de3acda7556792c5be0262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:10 +0000
Subject: [PATCH 36/86] fix: refuse a manifest line without a space after the
 colon

---
 javatools/manifest.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 2f26384..3599bb1 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -757,6 +757,8 @@ def _parse_raw_sections(data):
 
             try:
                 key, val = cleanline.split(b':', 1)
+                if val and not val.startswith(b' '):
+                    raise ValueError("no space after colon")
                 curr.append((key, [val[1:]]))
             except ValueError:
                 raise MalformedManifest(
-- 
2.43.0


From 9215c4876ebd78f61e10ae3a333bb10fcec0227f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:13 +0000
Subject: [PATCH 37/86] fix: merge manifest sections of the same name

---
 javatools/manifest.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 3599bb1..3fcda37 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -385,7 +385,13 @@ class Manifest(ManifestSection):
         for section in sections:
             next_section = ManifestSection(None)
             next_section.load(section)
-            self.sub_sections[next_section.primary()] = next_section
+
+            # sections of the same name are to be merged
+            known = self.sub_sections.get(next_section.primary(), None)
+            if known is not None:
+                known.load(section)
+            else:
+                self.sub_sections[next_section.primary()] = next_section
 
 
     def store(self, stream, linesep=None):
-- 
2.43.0


From bd44769cb679ec6800f77645eb907ae34bd230cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:17 +0000
Subject: [PATCH 38/86] fix: write manifest attributes with an empty value

---
 javatools/manifest.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 3fcda37..f2bb0c6 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -790,8 +790,8 @@ def write_key_val(stream, key, val, linesep=os.linesep):
     if hasattr(stream, 'buffer'):
         stream = stream.buffer
 
-    key = key.encode('utf-8') or ""
-    val = val.encode('utf-8') or ""
+    key = key.encode('utf-8')
+    val = val.encode('utf-8')
     linesep = linesep.encode('utf-8')
 
     if not (0 < len(key) < 69):
-- 
2.43.0


From 3d64c0f75b0edbfd097b51ce2ab80254c4614b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:19 +0000
Subject: [PATCH 39/86] fix: digest the manifest in the order it is stored in

---
 javatools/manifest.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index f2bb0c6..331d5c0 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -536,16 +536,16 @@ class SignatureManifest(Manifest):
         sect_key = java_algorithm + "-Digest"
 
         digest = _get_digest(java_algorithm)
-        accum = manifest.get_main_section()
-        self[main_key] = b64_encoded_digest(accum, digest)
+        main_data = manifest.get_main_section()
+        self[main_key] = b64_encoded_digest(main_data, digest)
 
         for sub_section in manifest.sub_sections.values():
             sub_data = sub_section.get_data(linesep)
             sf_sect = self.create_section(sub_section.primary())
             sf_sect[sect_key] = b64_encoded_digest(sub_data, digest)
-            accum += sub_data
 
-        self[all_key] = b64_encoded_digest(accum, digest)
+        # of the manifest as it is stored, with its sections in order
+        self[all_key] = b64_encoded_digest(manifest.get_data(), digest)
 
 
     def verify_manifest_main_checksum(self, manifest):
-- 
2.43.0


From be148aa66b94fe8d632fc3d9714a025bd4040e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:40 +0000
Subject: [PATCH 40/86] fix: strip only the suffix in keys_with_suffix

---
 javatools/manifest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 331d5c0..2c9fa01 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -302,7 +302,7 @@ class ManifestSection(OrderedDict):
         """
         :return: list of keys ending with given :suffix:.
         """
-        return [k.rstrip(suffix) for k in self.keys() if k.endswith(suffix)]
+        return [k[:-len(suffix)] for k in self.keys() if k.endswith(suffix)]
 
 
 class Manifest(ManifestSection):
-- 
2.43.0


From 22e89ed6e824929d7ef9011170fd4fc815896ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:43 +0000
Subject: [PATCH 41/86] fix: name files relative to the directory a manifest is
 created for

---
 javatools/manifest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 2c9fa01..f5d2bf7 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -874,7 +874,8 @@ def directory_generator(dirname, trim=0):
 
     for dirpath, dirnames, filenames in walk(dirname):
         for fname in filenames:
-            yield join(dirpath, fname[trim:]), file_chunk(join(dirpath, fname))
+            pathname = join(dirpath, fname)
+            yield pathname[trim:], file_chunk(pathname)
 
 
 def multi_path_generator(pathnames):
-- 
2.43.0


From e71574fc7ac2f59217b929d8eae1922378b471c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:45 +0000
Subject: [PATCH 42/86] fix: manifest c -r works upon the path given

---
 javatools/manifest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index f5d2bf7..a4de8cc 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -972,7 +972,7 @@ def cli_create(argument_list):
     use_digests = [_get_digest(digest) for digest in requested_digests]
 
     if args.recursive:
-        entries = multi_path_generator(args.content)
+        entries = multi_path_generator([args.content])
     else:
         entries = single_path_generator(args.content)
 
-- 
2.43.0


From b876ad29bb5d0e72b100956a11f5ee35682ce6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:48 +0000
Subject: [PATCH 43/86] fix: accept manifest c -i more than once

---
 javatools/manifest.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index a4de8cc..28a1cc2 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -979,8 +979,8 @@ def cli_create(argument_list):
     mf = Manifest()
 
     ignores = ["META-INF/*"]
-    if args.ignore:
-        ignores.extend(*args.ignore)
+    for patterns in args.ignore or ():
+        ignores.extend(patterns)
 
     for name, chunks in entries:
         # skip the stuff that we were told to ignore
-- 
2.43.0


From b547a126b8f1cfcfa932d4149827a7f6e06ec0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:51 +0000
Subject: [PATCH 44/86] fix: --ignore-manifest-key is case-insensitive

---
 javatools/manifest.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 28a1cc2..a48dd73 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -124,6 +124,15 @@ _add_digest("SHA-384", "sha384")
 _add_digest("SHA-512", "sha512")
 
 
+def _ignored_keys(options):
+    """
+    the set of the manifest keys to ignore, in lower case
+    """
+
+    ikeys = getattr(options, "ignore_manifest_key", None)
+    return set(k.lower() for k in ikeys or ())
+
+
 class ManifestSectionChange(GenericChange):
     label = "Manifest Subsection"
 
@@ -141,11 +150,12 @@ class ManifestSectionChange(GenericChange):
         if getattr(options, "ignore_manifest_subsections", False):
             return True
 
-        ikeys = set(getattr(options, "ignore_manifest_key", set()))
+        ikeys = _ignored_keys(options)
         if ikeys:
             lset = set(self.ldata.items())
             rset = set(self.rdata.items())
-            changed = set(k for k, _v in lset.symmetric_difference(rset))
+            changed = set(k.lower() for k, _v
+                          in lset.symmetric_difference(rset))
             return changed.issubset(ikeys)
 
         else:
@@ -189,11 +199,12 @@ class ManifestMainChange(GenericChange):
 
 
     def is_ignored(self, options):
-        ikeys = set(getattr(options, "ignore_manifest_key", set()))
+        ikeys = _ignored_keys(options)
         if ikeys:
             lset = set(self.ldata.items())
             rset = set(self.rdata.items())
-            changed = set(k for k, _v in lset.symmetric_difference(rset))
+            changed = set(k.lower() for k, _v
+                          in lset.symmetric_difference(rset))
             return changed.issubset(ikeys)
 
         else:
-- 
2.43.0


From 16df816cdae1ae1ae961f00f4b297c797790147b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:14 +0000
Subject: [PATCH 45/86] fix: a digest of unknown algorithm does not match

---
 javatools/manifest.py | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index a48dd73..df431a1 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -467,11 +467,8 @@ class Manifest(ManifestSection):
 
             for java_digest in digests:
                 read_digest = file_section.get(java_digest + "-Digest")
-                calculated_digest = b64_encoded_digest(
-                    zip_file.read(filename),
-                    _get_digest(java_digest))
-
-                if calculated_digest == read_digest:
+                if _digest_matches(zip_file.read(filename),
+                                   java_digest, read_digest):
                     # found a match
                     break
             else:
@@ -572,12 +569,11 @@ class SignatureManifest(Manifest):
         # We see no security risk: it is the signer of the .SF file
         # who shall check, what is being signed.
         for java_digest in self.keys_with_suffix("-Digest-Manifest"):
-            whole_mf_digest = b64_encoded_digest(
-                manifest.get_data(),
-                _get_digest(java_digest))
+            whole_mf_digest = self.get(java_digest + "-Digest-Manifest")
 
             # It is enough for at least one digest to be correct
-            if whole_mf_digest == self.get(java_digest + "-Digest-Manifest"):
+            if _digest_matches(manifest.get_data(),
+                               java_digest, whole_mf_digest):
                 return True
 
         return False
@@ -591,12 +587,9 @@ class SignatureManifest(Manifest):
 
         keys = self.keys_with_suffix("-Digest-Manifest-Main-Attributes")
         for java_digest in keys:
-            mf_main_attr_digest = b64_encoded_digest(
-                manifest.get_main_section(),
-                _get_digest(java_digest))
-
             attr = java_digest + "-Digest-Manifest-Main-Attributes"
-            if mf_main_attr_digest == self.get(attr):
+            if _digest_matches(manifest.get_main_section(),
+                               java_digest, self.get(attr)):
                 return True
         else:
             return False
@@ -630,11 +623,8 @@ class SignatureManifest(Manifest):
                 continue
 
             for java_digest in digests:
-                section_digest = b64_encoded_digest(
-                    s.get_data(manifest.linesep),
-                    _get_digest(java_digest))
-
-                if section_digest == sf_section.get(java_digest + "-Digest"):
+                if _digest_matches(s.get_data(manifest.linesep), java_digest,
+                                   sf_section.get(java_digest + "-Digest")):
                     # found a match, verified
                     break
             else:
@@ -708,6 +698,17 @@ def b64_encoded_digest(data, algorithm):
     return _b64encode_to_str(h.digest())
 
 
+def _digest_matches(data, java_digest, expected):
+    """
+    true if the digest of data by the named algorithm is the expected
+    one. Nothing matches by an algorithm which is not supported
+    """
+
+    algorithm = JAVA_TO_OPENSSL_DIGESTS.get(java_digest)
+    return algorithm is not None and \
+        b64_encoded_digest(data, algorithm) == expected
+
+
 def detect_linesep(data):
     """
     :type data: bytes
-- 
2.43.0


From ba1fbaf803cff001574fe49fccd639ebade5c701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:16 +0000
Subject: [PATCH 46/86] fix: check manifest sections by the digests of the
 signature file

---
 javatools/manifest.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index df431a1..51a3030 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -617,7 +617,9 @@ class SignatureManifest(Manifest):
         for s in manifest.sub_sections.values():
             sf_section = self.create_section(s.primary(), overwrite=False)
 
-            digests = s.keys_with_suffix("-Digest")
+            # the digests of the manifest section are those which the
+            # signature file has for it
+            digests = sf_section.keys_with_suffix("-Digest")
             if not digests and strict:
                 failures.append(s.primary())
                 continue
-- 
2.43.0


From 2703b1c17218a60478cec10b162446bbe5f809a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:50 +0000
Subject: [PATCH 47/86] fix: entries without digest do not fail unless strict

---
 javatools/manifest.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 51a3030..173d56d 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -461,8 +461,9 @@ class Manifest(ManifestSection):
             file_section = self.create_section(filename, overwrite=False)
 
             digests = file_section.keys_with_suffix("-Digest")
-            if not digests and strict:
-                verify_failures.append(filename)
+            if not digests:
+                if strict:
+                    verify_failures.append(filename)
                 continue
 
             for java_digest in digests:
@@ -620,8 +621,9 @@ class SignatureManifest(Manifest):
             # the digests of the manifest section are those which the
             # signature file has for it
             digests = sf_section.keys_with_suffix("-Digest")
-            if not digests and strict:
-                failures.append(s.primary())
+            if not digests:
+                if strict:
+                    failures.append(s.primary())
                 continue
 
             for java_digest in digests:
-- 
2.43.0


From d1df89400a40b77db860c1beabab960220c96b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:53 +0000
Subject: [PATCH 48/86] fix: --ignore-jar-entry covers signature files as well

---
 javatools/jardiff.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/javatools/jardiff.py b/javatools/jardiff.py
index cf8ca59..73a9c9e 100644
--- a/javatools/jardiff.py
+++ b/javatools/jardiff.py
@@ -114,7 +114,8 @@ class JarContentChange(SuperChange):
 
 
     def is_ignored(self, options):
-        return fnmatches(self.entry, *options.ignore_jar_entry) or \
+        patterns = getattr(options, "ignore_jar_entry", ())
+        return fnmatches(self.entry, *patterns) or \
             super(JarContentChange, self).is_ignored(options)
 
 
@@ -206,7 +207,8 @@ class JarSignatureFileChange(JarContentChange):
     label = "Jar Signature File"
 
     def is_ignored(self, options):
-        return options.ignore_jar_signature
+        return options.ignore_jar_signature or \
+            super(JarSignatureFileChange, self).is_ignored(options)
 
     def collect_impl(self):
         if self.is_change():
@@ -226,7 +228,8 @@ class JarSignatureFileAdded(JarContentAdded):
     label = "Jar Signature File Added"
 
     def is_ignored(self, options):
-        return options.ignore_jar_signature
+        return options.ignore_jar_signature or \
+            super(JarSignatureFileAdded, self).is_ignored(options)
 
 
 class JarSignatureFileRemoved(JarContentRemoved):
@@ -234,7 +237,8 @@ class JarSignatureFileRemoved(JarContentRemoved):
     label = "Jar Signature File Removed"
 
     def is_ignored(self, options):
-        return options.ignore_jar_signature
+        return options.ignore_jar_signature or \
+            super(JarSignatureFileRemoved, self).is_ignored(options)
 
 
 class JarSignatureBlockFileChange(JarContentChange):
@@ -242,7 +246,8 @@ class JarSignatureBlockFileChange(JarContentChange):
     label = "Jar Signature Block File"
 
     def is_ignored(self, options):
-        return options.ignore_jar_signature
+        return options.ignore_jar_signature or \
+            super(JarSignatureBlockFileChange, self).is_ignored(options)
 
     def collect_impl(self):
         if self.is_change():
@@ -258,7 +263,8 @@ class JarSignatureBlockFileAdded(JarContentAdded):
 
 
     def is_ignored(self, options):
-        return options.ignore_jar_signature
+        return options.ignore_jar_signature or \
+            super(JarSignatureBlockFileAdded, self).is_ignored(options)
 
 
 class JarSignatureBlockFileRemoved(JarContentRemoved):
@@ -267,7 +273,8 @@ class JarSignatureBlockFileRemoved(JarContentRemoved):
 
 
     def is_ignored(self, options):
-        return options.ignore_jar_signature
+        return options.ignore_jar_signature or \
+            super(JarSignatureBlockFileRemoved, self).is_ignored(options)
 
 
 class GenericFileChange(GenericChange):
-- 
2.43.0


From 52af678c197ddad8f737c83d175903471c03424e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:11 +0000
Subject: [PATCH 49/86] fix: sort sub-directories by name

---
 javatools/dirutils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/javatools/dirutils.py b/javatools/dirutils.py
index 6d6b8a2..8712e6a 100644
--- a/javatools/dirutils.py
+++ b/javatools/dirutils.py
@@ -149,9 +149,7 @@ def _gen_from_dircmp(dc, lpath, rpath):
     for f in same_files:
         yield (BOTH, relpath(join(dc.left, f), lpath))
 
-    subdirs = dc.subdirs.values()
-    subdirs = sorted(subdirs)
-    for sub in subdirs:
+    for _name, sub in sorted(dc.subdirs.items()):
         for event in _gen_from_dircmp(sub, lpath, rpath):
             yield event
 
-- 
2.43.0


From 9e0fb3fcb077980630be7acd915477da509d5add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:01 +0000
Subject: [PATCH 50/86] fix: report a failing worker of distdiff instead of
 waiting forever

---
 javatools/distdiff.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/javatools/distdiff.py b/javatools/distdiff.py
index 8d20a94..79f36f9 100644
--- a/javatools/distdiff.py
+++ b/javatools/distdiff.py
@@ -31,6 +31,7 @@ from argparse import ArgumentParser
 from multiprocessing import cpu_count
 from os.path import join
 from six.moves import range, zip_longest
+from traceback import format_exc
 
 from . import unpack_classfile
 from .change import GenericChange, SuperChange, Addition, Removal
@@ -494,9 +495,15 @@ class DistReport(DistChange):
                     change.check()
 
             # get all of the results and feed them back into our change
+            failures = list()
             for _i in range(0, task_count):
-                index, change = results.get()
+                index, change, failure = results.get()
                 changes[index] = change
+                if failure:
+                    failures.append((index, failure))
+
+            if failures:
+                raise Exception("\n".join(f for _i, f in sorted(failures)))
 
         except KeyboardInterrupt:
             # drain the tasks queue so it will exit gracefully
@@ -559,16 +566,22 @@ def _mp_run_check(tasks, results, options):
             # this is the part that takes up all of our time and
             # produces side-effects like writing out files for all of
             # the report formats.
-            change.check()
+            squashed = failure = None
+            try:
+                change.check()
+
+                # rather than serializing the completed change (which
+                # could be rather large now that it's been realized),
+                # we send back only what we want, which is the
+                # squashed overview, and throw away the used bits.
+                squashed = squash(change, options=options)
+                change.clear()
 
-            # rather than serializing the completed change (which
-            # could be rather large now that it's been realized), we
-            # send back only what we want, which is the squashed
-            # overview, and throw away the used bits.
-            squashed = squash(change, options=options)
-            change.clear()
+            except Exception:
+                # the parent process is waiting for an answer
+                failure = format_exc()
 
-            results.put((index, squashed))
+            results.put((index, squashed, failure))
 
     except KeyboardInterrupt:
         # prevent a billion lines of backtrace from hitting the user
-- 
2.43.0


From 0766865489683adf0d19e13b37ad0d7157951ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:12 +0000
Subject: [PATCH 51/86] fix: classinfo labels of minor and major version

---
 javatools/classinfo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javatools/classinfo.py b/javatools/classinfo.py
index ac8b84b..64a8d9b 100644
--- a/javatools/classinfo.py
+++ b/javatools/classinfo.py
@@ -244,8 +244,8 @@ def cli_print_classinfo(options, info):
         if info.get_enclosingmethod():
             print("  EnclosingMethod:", info.get_enclosingmethod())
         major, minor = info.get_version()
-        print("  minor version:", major)
-        print("  major version:", minor)
+        print("  minor version:", minor)
+        print("  major version:", major)
         platform = platform_from_version(*info.version) or "unknown"
         print("  Platform:", platform)
 
-- 
2.43.0


From 50eccce0ca7c873d4aaace5d336473ff32cc29a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:15 +0000
Subject: [PATCH 52/86] fix: classinfo --json with fields or methods

---
 javatools/classinfo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javatools/classinfo.py b/javatools/classinfo.py
index 64a8d9b..62327b3 100644
--- a/javatools/classinfo.py
+++ b/javatools/classinfo.py
@@ -327,7 +327,7 @@ def cli_simplify_fields(options, info):
     fields = list()
     for field in info.fields:
         if should_show(options, field):
-            fields.append(cli_simplify_field(options, field))
+            fields.append(cli_simplify_field(field))
     return fields
 
 
@@ -335,7 +335,7 @@ def cli_simplify_methods(options, info):
     methods = list()
     for method in info.methods:
         if should_show(options, method):
-            methods.append(cli_simplify_method(options, method))
+            methods.append(cli_simplify_method(method))
     return methods
 
 
-- 
2.43.0


From b5e04c516677b9aace17690f11f6dcf67c8195bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:17 +0000
Subject: [PATCH 53/86] fix: number the annotations classinfo shows

---
 javatools/classinfo.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/javatools/classinfo.py b/javatools/classinfo.py
index 62327b3..c888e37 100644
--- a/javatools/classinfo.py
+++ b/javatools/classinfo.py
@@ -83,8 +83,8 @@ def print_field(options, field):
     if options.verbose:
         if field.get_annotations():
             print("  RuntimeVisibleAnnotations:")
-            index = 0
-            for anno in field.get_annotations():
+            annos = enumerate(field.get_annotations())
+            for index, anno in annos:
                 print("  %i: %s" % (index, anno.pretty_annotation()))
 
         cv = field.get_constantvalue()
@@ -106,8 +106,8 @@ def print_method(options, method):
 
     if method.get_annotations():
         print("  RuntimeVisibleAnnotations:")
-        index = 0
-        for anno in method.get_annotations():
+        annos = enumerate(method.get_annotations())
+        for index, anno in annos:
             print("  %i: %s" % (index, anno.pretty_annotation()))
 
     code = method.get_code()
@@ -237,8 +237,8 @@ def cli_print_classinfo(options, info):
 
         if info.get_annotations():
             print("  RuntimeVisibleAnnotations:")
-            index = 0
-            for anno in info.get_annotations():
+            annos = enumerate(info.get_annotations())
+            for index, anno in annos:
                 print("  %i: %s" % (index, anno.pretty_annotation()))
 
         if info.get_enclosingmethod():
-- 
2.43.0


From 4aea824dc84aa27aa5dbdc174a66e4991756d368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:20 +0000
Subject: [PATCH 54/86] fix: jarinfo --zip of a jar without content

---
 javatools/jarinfo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javatools/jarinfo.py b/javatools/jarinfo.py
index 3bb0a12..773be6c 100644
--- a/javatools/jarinfo.py
+++ b/javatools/jarinfo.py
@@ -200,7 +200,7 @@ def cli_jar_zip_info(jarinfo):
     zipfile = jarinfo.get_zipfile()
 
     files, dirs, comp, uncomp = zip_entry_rollup(zipfile)
-    prcnt = (float(comp) / float(uncomp)) * 100
+    prcnt = (float(comp) / float(uncomp)) * 100 if uncomp else 0.0
 
     print("Contains %i files, %i directories" % (files, dirs))
     print("Uncompressed size is %i" % uncomp)
@@ -263,7 +263,7 @@ def cli_jarinfo_json(options, info):
     if options.zip:
         zipfile = info.get_zipfile()
         filec, dirc, totalc, totalu = zip_entry_rollup(zipfile)
-        prcnt = (float(totalc) / float(totalu)) * 100
+        prcnt = (float(totalc) / float(totalu)) * 100 if totalu else 0.0
 
         data["zip.type"] = zipfile.__class__.__name__
         data["zip.file_count"] = filec
-- 
2.43.0


From 8c3e8c8035c09b7de08dea97538253cc41bc7177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:22 +0000
Subject: [PATCH 55/86] fix: distinfo of a zipped distribution

---
 javatools/distinfo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javatools/distinfo.py b/javatools/distinfo.py
index 843b47f..4778dc6 100644
--- a/javatools/distinfo.py
+++ b/javatools/distinfo.py
@@ -153,7 +153,7 @@ class DistInfo(object):
 
 
     def get_jarinfo(self, entry):
-        return JarInfo(join(self.base_path, entry))
+        return JarInfo(join(self._working_path(), entry))
 
 
     def get_classes(self):
@@ -167,7 +167,7 @@ class DistInfo(object):
 
 
     def get_classinfo(self, entry):
-        return unpack_classfile(join(self.base_path, entry))
+        return unpack_classfile(join(self._working_path(), entry))
 
 
     def get_contents(self):
-- 
2.43.0


From 0b8ac37512205f43a123fee1696826e3a996f179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:25 +0000
Subject: [PATCH 56/86] fix: protected members in jars satisfy a distribution's
 requirements

---
 javatools/distinfo.py |  2 +-
 javatools/jarinfo.py  | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/javatools/distinfo.py b/javatools/distinfo.py
index 4778dc6..0b3589c 100644
--- a/javatools/distinfo.py
+++ b/javatools/distinfo.py
@@ -95,7 +95,7 @@ class DistInfo(object):
                 req.setdefault(sym, []).append((REQ_BY_JAR, entry, data))
             for sym, data in ji.get_provides().items():
                 prov.setdefault(sym, []).append((PROV_BY_JAR, entry, data))
-                p.add(sym)
+            p.update(ji.get_private_provides())
             ji.close()
 
         for entry in self.get_classes():
diff --git a/javatools/jarinfo.py b/javatools/jarinfo.py
index 773be6c..fd65324 100644
--- a/javatools/jarinfo.py
+++ b/javatools/jarinfo.py
@@ -72,6 +72,7 @@ class JarInfo(object):
 
         self._requires = None
         self._provides = None
+        self._provides_private = None
 
 
     def __del__(self):
@@ -114,6 +115,7 @@ class JarInfo(object):
 
         self._requires = req
         self._provides = prov
+        self._provides_private = p
 
 
     def get_requires(self, ignored=tuple()):
@@ -138,6 +140,18 @@ class JarInfo(object):
         return d
 
 
+    def get_private_provides(self):
+        """
+        the set of everything the classes in the JAR provide, including
+        their protected and private members
+        """
+
+        if self._provides_private is None:
+            self._collect_requires_provides()
+
+        return self._provides_private
+
+
     def get_classes(self):
         """
         sequence of .class files in the underlying zip
-- 
2.43.0


From c10116ca9ed6942da14c5fb3a05a07b70c46e74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:10 +0000
Subject: [PATCH 57/86] fix: refuse manifest keys and values that cannot be
 written

---
 javatools/manifest.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 173d56d..7154940 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -60,6 +60,9 @@ __all__ = (
 
 _BUFFERING = 2 ** 14
 
+# bytes that a key or value cannot have
+_NOT_IN_LINE = (b"\x00", b"\r", b"\n")
+
 
 SIG_FILE_PATTERN = "*.SF"
 SIG_BLOCK_PATTERNS = ("*.RSA", "*.DSA", "*.EC", "SIG-*", )
@@ -813,6 +816,13 @@ def write_key_val(stream, key, val, linesep=os.linesep):
     if not (0 < len(key) < 69):
         raise ManifestKeyException("bad key length", key)
 
+    # these would be read back as something else
+    if key.startswith(b" ") or any(c in key for c in (b":",) + _NOT_IN_LINE):
+        raise ManifestKeyException("bad character in key", key)
+
+    if any(c in val for c in _NOT_IN_LINE):
+        raise ManifestKeyException("bad character in value", key, val)
+
     if len(key) + len(val) > 68:
         kvbuffer = BytesIO(b": ".join((key, val)))
 
-- 
2.43.0


From 3d3c3832ea215fee9d260deecf5f304c4a6a2223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:29 +0000
Subject: [PATCH 58/86] fix: verifying a manifest does not add sections to it

---
 javatools/manifest.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 7154940..9ad410f 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -461,9 +461,11 @@ class Manifest(ManifestSection):
             if file_skips_verification(filename):
                 continue
 
-            file_section = self.create_section(filename, overwrite=False)
+            # only looked at: the manifest is not to change by it
+            file_section = self.sub_sections.get(filename)
+            digests = [] if file_section is None else \
+                file_section.keys_with_suffix("-Digest")
 
-            digests = file_section.keys_with_suffix("-Digest")
             if not digests:
                 if strict:
                     verify_failures.append(filename)
@@ -619,11 +621,13 @@ class SignatureManifest(Manifest):
         failures = []
 
         for s in manifest.sub_sections.values():
-            sf_section = self.create_section(s.primary(), overwrite=False)
+            sf_section = self.sub_sections.get(s.primary())
 
             # the digests of the manifest section are those which the
             # signature file has for it
-            digests = sf_section.keys_with_suffix("-Digest")
+            digests = [] if sf_section is None else \
+                sf_section.keys_with_suffix("-Digest")
+
             if not digests:
                 if strict:
                     failures.append(s.primary())
-- 
2.43.0


From 2fe0a11de17985ffa38c2a1e5aed475659c5512c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:33 +0000
Subject: [PATCH 59/86] fix: query entries with a colon in their name

---
 javatools/manifest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 9ad410f..55733b5 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -1065,7 +1065,8 @@ def cli_query(args):
     mf.load_from_jar(args[0])
 
     for q in args[1:]:
-        s = q.split(':', 1)
+        # the name of an entry may have colons in it, a key has none
+        s = q.rsplit(':', 1)
         if len(s) > 1:
             mfs = mf.sub_sections.get(s[0])
             if mfs:
-- 
2.43.0


From 90abf1eaf248fff465dbbf6d22ffadb9a55459de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:16 +0000
Subject: [PATCH 60/86] fix: report a malformed signature block as a failed
 verification

---
 javatools/crypto.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/javatools/crypto.py b/javatools/crypto.py
index da896b9..58d927f 100644
--- a/javatools/crypto.py
+++ b/javatools/crypto.py
@@ -199,8 +199,12 @@ def verify_signature_block(certificate_file, content, signature):
     """
 
     sig_bio = BIO.MemoryBuffer(signature)
-    pkcs7 = SMIME.PKCS7(m2.pkcs7_read_bio_der(sig_bio._ptr()), 1)
-    signers_cert_stack = pkcs7.get0_signers(X509.X509_Stack())
+    try:
+        pkcs7 = SMIME.PKCS7(m2.pkcs7_read_bio_der(sig_bio._ptr()), 1)
+        signers_cert_stack = pkcs7.get0_signers(X509.X509_Stack())
+    except SMIME.PKCS7_Error as message:
+        raise SignatureBlockVerificationError(message)
+
     trusted_cert_store = X509.X509_Store()
     trusted_cert_store.set_verify_cb(ignore_missing_email_protection_eku_cb)
     trusted_cert_store.load_info(certificate_file)
-- 
2.43.0


From bda79e5f642ec70e22496b8340923ffcc6c45d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:19 +0000
Subject: [PATCH 61/86] fix: report a missing or malformed manifest as a failed
 verification

---
 javatools/jarutil.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/javatools/jarutil.py b/javatools/jarutil.py
index 5507fc3..5f20170 100644
--- a/javatools/jarutil.py
+++ b/javatools/jarutil.py
@@ -38,6 +38,7 @@ from .crypto import (
     private_key_type, verify_signature_block,
 )
 from .manifest import file_matches_sigfile, Manifest, SignatureManifest
+from .manifest import MalformedManifest, ManifestKeyException
 
 
 __all__ = (
@@ -149,10 +150,14 @@ def verify(certificate, jar_file, sf_name=None):
     # KEYALIAS.SF is correctly signed.
     # Step 2: Check that it contains correct checksum of the manifest.
     signature_manifest = SignatureManifest()
-    signature_manifest.parse(sf_data)
-
     jar_manifest = Manifest()
-    jar_manifest.load_from_jar(jar_file)
+    try:
+        signature_manifest.parse(sf_data)
+        jar_manifest.load_from_jar(jar_file)
+
+    except (MissingManifestError, MalformedManifest,
+            ManifestKeyException) as message:
+        raise ManifestChecksumError("%s: %s" % (jar_file, message))
 
     errors = signature_manifest.verify_manifest(jar_manifest)
     if len(errors) > 0:
-- 
2.43.0


From f5a649fb7757efed2f0017c044441ae68eb2b143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:23 +0000
Subject: [PATCH 62/86] fix: do not verify a jar with several entries of the
 same name

---
 javatools/jarutil.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/javatools/jarutil.py b/javatools/jarutil.py
index 5f20170..6450bcf 100644
--- a/javatools/jarutil.py
+++ b/javatools/jarutil.py
@@ -88,6 +88,13 @@ def verify(certificate, jar_file, sf_name=None):
 
     # Step 0: get the "key alias", used also for naming of sig-related files.
     zip_file = ZipFile(jar_file)
+
+    # which of several entries of the same name is looked at depends on
+    # who reads the jar
+    if len(set(zip_file.namelist())) != len(zip_file.namelist()):
+        raise JarChecksumError("Entries present more than once in %s"
+                               % jar_file)
+
     sf_files = [f for f in zip_file.namelist() if file_matches_sigfile(f)]
 
     if len(sf_files) == 0:
-- 
2.43.0


From a0cee11d87d207352c6b67f6144f9aadbfb343a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:19 +0000
Subject: [PATCH 63/86] fix: keep the manifest sections of a jar when signing
 it

---
 javatools/manifest.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 55733b5..eac4dc7 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -501,9 +501,18 @@ class Manifest(ManifestSection):
             for entry in jar.namelist():
                 if file_skips_verification(entry):
                     continue
-                section = self.create_section(entry)
-                section[key_digest] = b64_encoded_digest(jar.read(entry),
-                                                         digest)
+                data = jar.read(entry)
+
+                # the section may have other attributes, or digests of
+                # what the entry was before
+                section = self.create_section(entry, overwrite=False)
+                for known in section.keys_with_suffix("-Digest"):
+                    old = section[known + "-Digest"]
+                    if known in JAVA_TO_OPENSSL_DIGESTS and \
+                       not _digest_matches(data, known, old):
+                        del section[known + "-Digest"]
+
+                section[key_digest] = b64_encoded_digest(data, digest)
 
 
     def clear(self):
-- 
2.43.0


From 3852199c9f147d4c9817c2635ba0bac06dc6a921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:21 +0000
Subject: [PATCH 64/86] fix: signing again replaces the signature of the same
 alias

---
 javatools/jarutil.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/javatools/jarutil.py b/javatools/jarutil.py
index 6450bcf..f37c595 100644
--- a/javatools/jarutil.py
+++ b/javatools/jarutil.py
@@ -46,6 +46,11 @@ __all__ = (
     "cli_verify_jar_signature", "main", )
 
 
+# JAR specification mentions only RSA and DSA; jarsigner also has EC
+# TODO: what about "SIG-*"?
+SIGNATURE_EXTENSIONS = ("RSA", "DSA", "EC")
+
+
 class VerificationError(Exception):
     pass
 
@@ -132,10 +137,7 @@ def verify(certificate, jar_file, sf_name=None):
     file_list = zip_file.namelist()
     sig_block_filename = None
 
-    # JAR specification mentions only RSA and DSA; jarsigner also has EC
-    # TODO: what about "SIG-*"?
-    signature_extensions = ("RSA", "DSA", "EC")
-    for extension in signature_extensions:
+    for extension in SIGNATURE_EXTENSIONS:
         candidate_filename = "META-INF/%s.%s" % (key_alias, extension)
         if candidate_filename in file_list:
             sig_block_filename = candidate_filename
@@ -143,7 +145,7 @@ def verify(certificate, jar_file, sf_name=None):
 
     if sig_block_filename is None:
         msg = "None of %s found in JAR" % \
-              ", ".join(key_alias + "." + x for x in signature_extensions)
+              ", ".join(key_alias + "." + x for x in SIGNATURE_EXTENSIONS)
         raise JarSignatureMissingError(msg)
 
     sig_block_data = zip_file.read(sig_block_filename)
@@ -221,10 +223,16 @@ def sign(jar_file, cert_file, key_file, key_alias,
         new_jar.writestr("META-INF/%s.SF" % key_alias, sf.get_data())
         new_jar.writestr("META-INF/%s.%s" % (key_alias, sig_block_extension),
                          sigdata)
+
+        # what is there already, or of an earlier signing by the same alias
+        written = ["META-INF/MANIFEST.MF"]
+        written.extend("META-INF/%s.%s" % (key_alias.upper(), ext)
+                       for ext in ("SF",) + SIGNATURE_EXTENSIONS)
+
         jar = ZipFile(jar_file, "a")
         for entry in jar.namelist():
             # TODO: In Py2, namelist() can be of type unicode
-            if not entry.upper() == "META-INF/MANIFEST.MF":
+            if entry.upper() not in written:
                 new_jar.writestr(entry, jar.read(entry))
 
         new_jar.close()
-- 
2.43.0


From f64dd124f287f7a569c87fe75fb1bfe553043782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:24 +0000
Subject: [PATCH 65/86] fix: do not open the jar to sign for writing

---
 javatools/jarutil.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/javatools/jarutil.py b/javatools/jarutil.py
index f37c595..d96ccd1 100644
--- a/javatools/jarutil.py
+++ b/javatools/jarutil.py
@@ -229,11 +229,11 @@ def sign(jar_file, cert_file, key_file, key_alias,
         written.extend("META-INF/%s.%s" % (key_alias.upper(), ext)
                        for ext in ("SF",) + SIGNATURE_EXTENSIONS)
 
-        jar = ZipFile(jar_file, "a")
-        for entry in jar.namelist():
-            # TODO: In Py2, namelist() can be of type unicode
-            if entry.upper() not in written:
-                new_jar.writestr(entry, jar.read(entry))
+        with ZipFile(jar_file) as jar:
+            for entry in jar.namelist():
+                # TODO: In Py2, namelist() can be of type unicode
+                if entry.upper() not in written:
+                    new_jar.writestr(entry, jar.read(entry))
 
         new_jar.close()
         new_jar_file.flush()
-- 
2.43.0


From 4aef930800eef98d97e1aaae4c8f3d0b7b697893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:50 +0000
Subject: [PATCH 66/86] fix: signing puts the signed jar in place in one step

---
 javatools/jarutil.py | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/javatools/jarutil.py b/javatools/jarutil.py
index d96ccd1..1b82a66 100644
--- a/javatools/jarutil.py
+++ b/javatools/jarutil.py
@@ -29,8 +29,8 @@ import argparse
 import os
 import sys
 
-from shutil import copyfile
-from tempfile import NamedTemporaryFile
+from shutil import copyfile, copymode
+from tempfile import NamedTemporaryFile, mkstemp
 from zipfile import ZipFile, ZIP_DEFLATED
 
 from .crypto import (
@@ -237,7 +237,39 @@ def sign(jar_file, cert_file, key_file, key_alias,
 
         new_jar.close()
         new_jar_file.flush()
-        copyfile(new_jar_file.name, jar_file if output is None else output)
+        _put_in_place(new_jar_file.name,
+                      jar_file if output is None else output)
+
+
+def _put_in_place(new_file, target):
+    """
+    Copy new_file to target. A target which exists is replaced in one
+    step, so that it stays as it was if the copy cannot be completed.
+    """
+
+    target = os.path.realpath(target)
+    if os.path.exists(target) and not os.path.isfile(target):
+        # a device, perhaps, which is to be written to
+        copyfile(new_file, target)
+        return
+
+    part_fd, part = mkstemp(dir=os.path.dirname(target))
+    try:
+        os.close(part_fd)
+        copyfile(new_file, part)
+
+        if os.path.exists(target):
+            copymode(target, part)
+        else:
+            umask = os.umask(0)
+            os.umask(umask)
+            os.chmod(part, 0o666 & ~umask)
+
+        os.rename(part, target)
+
+    except BaseException:
+        os.unlink(part)
+        raise
 
 
 def create_jar(jar_file, entries):
-- 
2.43.0


From 113f1e63c9edf686f78bf73e983d330cef099aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:19 +0000
Subject: [PATCH 67/86] fix: a manifest that cannot be digested does not verify

---
 javatools/jarutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/jarutil.py b/javatools/jarutil.py
index 1b82a66..ae0549f 100644
--- a/javatools/jarutil.py
+++ b/javatools/jarutil.py
@@ -163,12 +163,12 @@ def verify(certificate, jar_file, sf_name=None):
     try:
         signature_manifest.parse(sf_data)
         jar_manifest.load_from_jar(jar_file)
+        errors = signature_manifest.verify_manifest(jar_manifest)
 
     except (MissingManifestError, MalformedManifest,
             ManifestKeyException) as message:
         raise ManifestChecksumError("%s: %s" % (jar_file, message))
 
-    errors = signature_manifest.verify_manifest(jar_manifest)
     if len(errors) > 0:
         msg = "%s: in .SF file, section checksum(s) failed for: %s" \
               % (jar_file, ",".join(errors))
-- 
2.43.0


From c97363b7d11ae3450090a23bc6328b8cbd2fa63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:06 +0000
Subject: [PATCH 68/86] fix: refuse to sign under an alias with a directory

---
 javatools/jarutil.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/javatools/jarutil.py b/javatools/jarutil.py
index ae0549f..ba8fbfc 100644
--- a/javatools/jarutil.py
+++ b/javatools/jarutil.py
@@ -75,6 +75,10 @@ class MissingManifestError(Exception):
     pass
 
 
+class KeyAliasError(ValueError):
+    pass
+
+
 def verify(certificate, jar_file, sf_name=None):
     """
     Verifies signature of a JAR file.
@@ -194,10 +198,14 @@ def sign(jar_file, cert_file, key_file, key_alias,
          extra_certs=None, digest="SHA-256", output=None):
     """
     Signs the jar (almost) identically to jarsigner.
-    :exception ManifestNotFoundError, CannotFindKeyTypeError
+    :exception ManifestNotFoundError, CannotFindKeyTypeError, KeyAliasError
     :return None
     """
 
+    if not file_matches_sigfile("META-INF/%s.SF" % key_alias):
+        raise KeyAliasError("Cannot name a signature file after alias %r"
+                            % key_alias)
+
     mf = Manifest()
     mf.load_from_jar(jar_file)
     mf.add_jar_entries(jar_file, digest)
@@ -363,6 +371,10 @@ def cli_sign_jar(argument_list=None):
         print("Manifest missing in jar file %s" % args.jar_file)
         return 2
 
+    except KeyAliasError as error_message:
+        print(error_message)
+        return 1
+
     return 0
 
 
-- 
2.43.0


From b2c347ec8f8a896d4be198f17433601e4bc9ed3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:45 +0000
Subject: [PATCH 69/86] fix: record the main class when creating a jar

---
 javatools/jarutil.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/javatools/jarutil.py b/javatools/jarutil.py
index ba8fbfc..2c0651c 100644
--- a/javatools/jarutil.py
+++ b/javatools/jarutil.py
@@ -280,20 +280,26 @@ def _put_in_place(new_file, target):
         raise
 
 
-def create_jar(jar_file, entries):
+def create_jar(jar_file, entries, main_class=None):
     """
     Create JAR from given entries.
     :param jar_file: filename of the created JAR
     :type jar_file: str
     :param entries: files to put into the JAR
     :type entries: list[str]
+    :param main_class: application entry point, to put in the manifest
+    :type main_class: str
     :return: None
     """
 
+    manifest = Manifest()
+    if main_class is not None:
+        manifest["Main-Class"] = main_class
+
     # 'jar' adds separate entries for directories, also for empty ones.
     with ZipFile(jar_file, "w") as jar:
         jar.writestr("META-INF/", "")
-        jar.writestr("META-INF/MANIFEST.MF", Manifest().get_data())
+        jar.writestr("META-INF/MANIFEST.MF", manifest.get_data())
         for entry in entries:
             jar.write(entry)
             if os.path.isdir(entry):
@@ -316,7 +322,7 @@ def cli_create_jar(argument_list):
                         help="Specify application entry point")
 
     args, entries = parser.parse_known_args(argument_list)
-    create_jar(args.jar_file, entries)
+    create_jar(args.jar_file, entries, args.main_class)
     return 0
 
 
-- 
2.43.0


From 90529d29616403bda6370f8bc5d1ce622f629205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:48 +0000
Subject: [PATCH 70/86] fix: do not write entries of a created jar twice

---
 javatools/jarutil.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/javatools/jarutil.py b/javatools/jarutil.py
index 2c0651c..ce8dc9e 100644
--- a/javatools/jarutil.py
+++ b/javatools/jarutil.py
@@ -300,12 +300,27 @@ def create_jar(jar_file, entries, main_class=None):
     with ZipFile(jar_file, "w") as jar:
         jar.writestr("META-INF/", "")
         jar.writestr("META-INF/MANIFEST.MF", manifest.get_data())
+        written = set(jar.namelist())
         for entry in entries:
-            jar.write(entry)
+            _add_once(jar, entry, written)
             if os.path.isdir(entry):
                 for root, dirs, files in os.walk(entry):
                     for filename in dirs + files:
-                        jar.write(os.path.join(root, filename))
+                        _add_once(jar, os.path.join(root, filename), written)
+
+
+def _add_once(jar, path, written):
+    """
+    Write a file or directory into an open JAR, unless there is an entry
+    of its name in the set of those written
+    """
+
+    name = os.path.normpath(path).lstrip(os.sep)
+    entry = name + "/" if os.path.isdir(path) else name
+
+    if entry not in written and entry != "./":
+        jar.write(path, name)
+        written.add(entry)
 
 
 def cli_create_jar(argument_list):
-- 
2.43.0


From 68111ef87492b3372ac62b99ee96a88eb1d432e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:27 +0000
Subject: [PATCH 71/86] fix: no Exceptions heading for methods without any

---
 javatools/classinfo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/classinfo.py b/javatools/classinfo.py
index c888e37..c322cc4 100644
--- a/javatools/classinfo.py
+++ b/javatools/classinfo.py
@@ -189,7 +189,7 @@ def print_method(options, method):
                 print("   %s" % "\t".join(line))
 
     if options.verbose:
-        exps = method.pretty_exceptions()
+        exps = list(method.pretty_exceptions())
         if exps:
             print("  Exceptions:")
             for e in exps:
-- 
2.43.0


From 97ef6f521f4c893dc78a6f71657d5759cb575144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:47 +0000
Subject: [PATCH 72/86] fix: close every tag in the HTML reports

---
 javatools/cheetah/classdiff_ClassConstantPoolChange.tmpl | 2 +-
 javatools/cheetah/classdiff_FieldChange.tmpl             | 4 ++--
 javatools/cheetah/classdiff_MethodAdded.tmpl             | 2 +-
 javatools/cheetah/classdiff_MethodChange.tmpl            | 4 ++--
 javatools/cheetah/report.tmpl                            | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/javatools/cheetah/classdiff_ClassConstantPoolChange.tmpl b/javatools/cheetah/classdiff_ClassConstantPoolChange.tmpl
index 480fb0f..acd0cb3 100644
--- a/javatools/cheetah/classdiff_ClassConstantPoolChange.tmpl
+++ b/javatools/cheetah/classdiff_ClassConstantPoolChange.tmpl
@@ -67,8 +67,8 @@ row_class = (" is_changed")[(lt, lv) == (rt, rv)]
 #else
 <td class="const-type is_changed"><%= rt or "" %></td>
 <td class="const-value is_changed"><%= escape(str(rv or "")) %></td>
-</tr>
 #end if
+</tr>
 #end for
 
 </table>
diff --git a/javatools/cheetah/classdiff_FieldChange.tmpl b/javatools/cheetah/classdiff_FieldChange.tmpl
index e48d100..d9fe146 100644
--- a/javatools/cheetah/classdiff_FieldChange.tmpl
+++ b/javatools/cheetah/classdiff_FieldChange.tmpl
@@ -65,7 +65,7 @@ $render_change(data.pop("FieldInvisibleAnnotationsChange")[0])
 #else
 <tr>
 <th>$label</th>
-<td><%= escape(subch.pretty_ldata()) %>
+<td><%= escape(subch.pretty_ldata()) %></td>
 </tr>
 #end if
 #end def
@@ -85,7 +85,7 @@ $render_change(data.pop("FieldInvisibleAnnotationsChange")[0])
 #else
 <tr>
 <th>$label</th>
-<td><%= subch.pretty_ldata() %>
+<td><%= subch.pretty_ldata() %></td>
 </tr>
 #end if
 #end def
diff --git a/javatools/cheetah/classdiff_MethodAdded.tmpl b/javatools/cheetah/classdiff_MethodAdded.tmpl
index 9cbd415..ad72d75 100644
--- a/javatools/cheetah/classdiff_MethodAdded.tmpl
+++ b/javatools/cheetah/classdiff_MethodAdded.tmpl
@@ -12,7 +12,7 @@ b = ", ".join(info.pretty_arg_types())
 c = info.pretty_type()
 %>
 <h3><%= escape("%s(%s):%s" % (a, b, c)) %></h3>
-<div class="description">Method Added</div
+<div class="description">Method Added</div>
 #end block
 
 
diff --git a/javatools/cheetah/classdiff_MethodChange.tmpl b/javatools/cheetah/classdiff_MethodChange.tmpl
index fb17872..8de6a91 100644
--- a/javatools/cheetah/classdiff_MethodChange.tmpl
+++ b/javatools/cheetah/classdiff_MethodChange.tmpl
@@ -70,7 +70,7 @@ $render_change(data.pop("MethodCodeChange")[0])
 #else
 <tr>
 <th>$label</th>
-<td><%= escape(subch.pretty_ldata()) %>
+<td><%= escape(subch.pretty_ldata()) %></td>
 </tr>
 #end if
 #end def
@@ -90,7 +90,7 @@ $render_change(data.pop("MethodCodeChange")[0])
 #else
 <tr>
 <th>$label</th>
-<td><%= subch.pretty_ldata() %>
+<td><%= subch.pretty_ldata() %></td>
 </tr>
 #end if
 #end def
diff --git a/javatools/cheetah/report.tmpl b/javatools/cheetah/report.tmpl
index 78e9ac9..8fb280a 100644
--- a/javatools/cheetah/report.tmpl
+++ b/javatools/cheetah/report.tmpl
@@ -32,7 +32,7 @@ $change.__class__.__name__
 
 #block head_javascripts
 #if not getattr($options, "html_no_jquery", False)
-<script type="text/javascript" src="http://ajax.googleapis.com/ajax/libs/jquery/1.7.1/jquery.min.js" type="text/javascript"></script>
+<script type="text/javascript" src="http://ajax.googleapis.com/ajax/libs/jquery/1.7.1/jquery.min.js"></script>
 #end if
 #for js in $javascripts
 <script type="text/javascript" src="$js"></script>
-- 
2.43.0


From 9768a7ae9697c0a029380eadf185e84b41bd6992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:49 +0000
Subject: [PATCH 73/86] fix: show the end of the longer constant pool where it
 is

---
 javatools/classdiff.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index 10e37e3..68d0e56 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -918,19 +918,18 @@ def pretty_merge_constants(left_cpool, right_cpool):
     lsize = len(left_cpool.consts)
     rsize = len(right_cpool.consts)
 
-    index = 1
     for index in range(1, min(lsize, rsize)):
         lt, lv = left_cpool.pretty_const(index)
         rt, rv = right_cpool.pretty_const(index)
         yield (index, lt, lv, rt, rv)
 
     if lsize > rsize:
-        for index in range(index, lsize):
+        for index in range(max(1, rsize), lsize):
             lt, lv = left_cpool.pretty_const(index)
             yield (index, lt, lv, None, None)
 
     elif rsize > lsize:
-        for index in range(index, rsize):
+        for index in range(max(1, lsize), rsize):
             rt, rv = right_cpool.pretty_const(index)
             yield (index, None, None, rt, rv)
 
-- 
2.43.0


From 4b3c25f91d8899afbaa6c5f09c8a13d537e06a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:53 +0000
Subject: [PATCH 74/86] fix: show all of the code of a line in HTML reports

---
 javatools/classdiff.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index 68d0e56..7ab8504 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -948,22 +948,31 @@ def merge_code(left_code, right_code):
     for abs_line, rel_line, dis in code_lines:
         assert rel_line is not None
 
-        data[rel_line] = [(abs_line, dis), None]
+        _merge_line(data.setdefault(rel_line, [None, None]), 0,
+                    abs_line, dis)
 
     code_lines = (right_code and right_code.iter_code_by_lines()) or tuple()
     for abs_line, rel_line, dis in code_lines:
         assert rel_line is not None
 
-        found = data.get(rel_line, None)
-        if found is None:
-            found = [None, (abs_line, dis)]
-            data[rel_line] = found
-        else:
-            found[1] = (abs_line, dis)
+        _merge_line(data.setdefault(rel_line, [None, None]), 1,
+                    abs_line, dis)
 
     return data
 
 
+def _merge_line(found, side, abs_line, dis):
+    """
+    adds instructions to one side of a line in merge_code. The code of
+    one line can be in multiple places, as with the parts of a loop
+    """
+
+    if found[side] is None:
+        found[side] = (abs_line, tuple(dis))
+    else:
+        found[side] = (abs_line, found[side][1] + tuple(dis))
+
+
 # ---- Begin classdiff CLI code ----
 #
 
-- 
2.43.0


From 41038acce2567580531ed90b035262d20df78d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:55 +0000
Subject: [PATCH 75/86] fix: escape what comes from the class in HTML reports

---
 javatools/cheetah/__init__.py                  |  1 +
 .../cheetah/classdiff_AnnotationsChange.tmpl   |  8 ++++----
 .../cheetah/classdiff_ClassInfoChange.tmpl     | 18 +++++++++---------
 javatools/cheetah/classdiff_FieldChange.tmpl   |  6 +++---
 javatools/cheetah/classdiff_MethodChange.tmpl  | 18 +++++++++---------
 5 files changed, 26 insertions(+), 25 deletions(-)

diff --git a/javatools/cheetah/__init__.py b/javatools/cheetah/__init__.py
index cb78896..1f56214 100644
--- a/javatools/cheetah/__init__.py
+++ b/javatools/cheetah/__init__.py
@@ -61,6 +61,7 @@ def xml_entity_escape(data):
     data = data.replace("&", "&amp;")
     data = data.replace(">", "&gt;")
     data = data.replace("<", "&lt;")
+    data = data.replace('"', "&quot;")
     return data
 
 
diff --git a/javatools/cheetah/classdiff_AnnotationsChange.tmpl b/javatools/cheetah/classdiff_AnnotationsChange.tmpl
index d969e17..7b7c916 100644
--- a/javatools/cheetah/classdiff_AnnotationsChange.tmpl
+++ b/javatools/cheetah/classdiff_AnnotationsChange.tmpl
@@ -32,7 +32,7 @@ $render_annotations($change.get_ldata())
 #for index in range(0, len(annos))
 <tr>
 <td class="const-index"><%= index %></td>
-<td class="const-value"><%= annos[index].pretty_annotation() %></td>
+<td class="const-value"><%= escape(annos[index].pretty_annotation()) %></td>
 </tr>
 #end for
 </table>
@@ -56,14 +56,14 @@ $render_annotations($change.get_ldata())
 <tr>
 <td class="const-index"><%= index %></td>
 <td class="const-value">
-<%= (la and la.pretty_annotation()) or "" %></td>
+<%= escape((la and la.pretty_annotation()) or "") %></td>
 
 #if (la == ra)
 <td class="const-value is_unchanged">
-<%= (ra and ra.pretty_annotation()) or "" %></td>
+<%= escape((ra and ra.pretty_annotation()) or "") %></td>
 #else
 <td class="const-value is_changed">
-<%= (ra and ra.pretty_annotation()) or "" %></td>
+<%= escape((ra and ra.pretty_annotation()) or "") %></td>
 #end if
 </tr>
 <% index += 1 %>
diff --git a/javatools/cheetah/classdiff_ClassInfoChange.tmpl b/javatools/cheetah/classdiff_ClassInfoChange.tmpl
index 94329f4..906220b 100644
--- a/javatools/cheetah/classdiff_ClassInfoChange.tmpl
+++ b/javatools/cheetah/classdiff_ClassInfoChange.tmpl
@@ -39,15 +39,15 @@ $sub_deprecation(data["ClassDeprecationChange"][0])
 #if subch.is_change()
 <tr>
 <th rowspan="2">$label</th>
-<td><%= subch.pretty_ldata() %></td>
+<td><%= escape(subch.pretty_ldata() or "") %></td>
 </tr>
 <tr>
-<td><%= subch.pretty_rdata() %></td>
+<td><%= escape(subch.pretty_rdata() or "") %></td>
 </tr>
 #else
 <tr>
 <th>$label</th>
-<td><%= subch.pretty_ldata() %></td>
+<td><%= escape(subch.pretty_ldata() or "") %></td>
 </tr>
 #end if
 #end def
@@ -83,15 +83,15 @@ $sub_deprecation(data["ClassDeprecationChange"][0])
 #if subch.is_change()
 <tr>
 <th rowspan="2">$label</th>
-<td><%= subch.pretty_ldata() %></td>
+<td><%= escape(subch.pretty_ldata() or "") %></td>
 </tr>
 <tr>
-<td class="is_changed"><%= subch.pretty_rdata() %></td>
+<td class="is_changed"><%= escape(subch.pretty_rdata() or "") %></td>
 </tr>
 #else
 <tr>
 <th>$label</th>
-<td><%= subch.pretty_ldata() %></td>
+<td><%= escape(subch.pretty_ldata() or "") %></td>
 </tr>
 #end if
 #end def
@@ -103,16 +103,16 @@ $sub_deprecation(data["ClassDeprecationChange"][0])
 #if subch.is_change()
 <tr>
 <th rowspan="2">$label</th>
-<td><%= ", ".join(subch.pretty_ldata()) or "(None)" %></td>
+<td><%= escape(", ".join(subch.pretty_ldata()) or "(None)") %></td>
 </tr>
 <tr>
 <td class="is_changed">
-<%= ", ".join(subch.pretty_rdata()) or "(None)" %></td>
+<%= escape(", ".join(subch.pretty_rdata()) or "(None)") %></td>
 </tr>
 #elif subch.get_ldata()
 <tr>
 <th>$label</th>
-<td><%= ", ".join(subch.pretty_ldata()) %></td>
+<td><%= escape(", ".join(subch.pretty_ldata())) %></td>
 </tr>
 #end if
 #end def
diff --git a/javatools/cheetah/classdiff_FieldChange.tmpl b/javatools/cheetah/classdiff_FieldChange.tmpl
index d9fe146..1b3a888 100644
--- a/javatools/cheetah/classdiff_FieldChange.tmpl
+++ b/javatools/cheetah/classdiff_FieldChange.tmpl
@@ -77,15 +77,15 @@ $render_change(data.pop("FieldInvisibleAnnotationsChange")[0])
 #if subch.is_change()
 <tr>
 <th rowspan="2">$label</th>
-<td><%= subch.pretty_ldata() %></td>
+<td><%= escape(subch.pretty_ldata()) %></td>
 </tr>
 <tr>
-<td><%= subch.pretty_rdata() %></td>
+<td><%= escape(subch.pretty_rdata()) %></td>
 </tr>
 #else
 <tr>
 <th>$label</th>
-<td><%= subch.pretty_ldata() %></td>
+<td><%= escape(subch.pretty_ldata()) %></td>
 </tr>
 #end if
 #end def
diff --git a/javatools/cheetah/classdiff_MethodChange.tmpl b/javatools/cheetah/classdiff_MethodChange.tmpl
index 8de6a91..8a21a84 100644
--- a/javatools/cheetah/classdiff_MethodChange.tmpl
+++ b/javatools/cheetah/classdiff_MethodChange.tmpl
@@ -82,15 +82,15 @@ $render_change(data.pop("MethodCodeChange")[0])
 #if subch.is_change()
 <tr>
 <th rowspan="2">$label</th>
-<td><%= subch.pretty_ldata() %></td>
+<td><%= escape(subch.pretty_ldata()) %></td>
 </tr>
 <tr>
-<td><%= subch.pretty_rdata() %></td>
+<td><%= escape(subch.pretty_rdata()) %></td>
 </tr>
 #else
 <tr>
 <th>$label</th>
-<td><%= subch.pretty_ldata() %></td>
+<td><%= escape(subch.pretty_ldata()) %></td>
 </tr>
 #end if
 #end def
@@ -102,15 +102,15 @@ $render_change(data.pop("MethodCodeChange")[0])
 #if subch.is_change()
 <tr>
 <th rowspan="2">$label</th>
-<td>(<%= ", ".join(subch.pretty_ldata()) %>)</td>
+<td>(<%= escape(", ".join(subch.pretty_ldata())) %>)</td>
 </tr>
 <tr>
-<td>(<%= ", ".join(subch.pretty_rdata()) %>)</td>
+<td>(<%= escape(", ".join(subch.pretty_rdata())) %>)</td>
 </tr>
 #else
 <tr>
 <th>$label</th>
-<td>(<%= ", ".join(subch.pretty_ldata()) %>)</td>
+<td>(<%= escape(", ".join(subch.pretty_ldata())) %>)</td>
 </tr>
 #end if
 #end def
@@ -167,15 +167,15 @@ $render_change(data.pop("MethodCodeChange")[0])
 #if subch.is_change()
 <tr>
 <th rowspan="2">$label</th>
-<td>(<%= ", ".join(subch.pretty_ldata()) %>)</td>
+<td>(<%= escape(", ".join(subch.pretty_ldata())) %>)</td>
 </tr>
 <tr>
-<td class="is_changed">(<%= ", ".join(subch.pretty_rdata()) %>)</td>
+<td class="is_changed">(<%= escape(", ".join(subch.pretty_rdata())) %>)</td>
 </tr>
 #elif subch.get_ldata()
 <tr>
 <th>$label</th>
-<td>(<%= ", ".join(subch.pretty_ldata()) %>)</td>
+<td>(<%= escape(", ".join(subch.pretty_ldata())) %>)</td>
 </tr>
 #end if
 #end def
-- 
2.43.0


From 6ffd830e36dd4c593f439e94edd8ed705793fc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:59 +0000
Subject: [PATCH 76/86] fix: quote the links in HTML reports

---
 javatools/cheetah/__init__.py                | 13 +++++++++++++
 javatools/cheetah/change_SquashedChange.tmpl |  3 ++-
 javatools/cheetah/report.tmpl                |  8 +++++---
 javatools/report.py                          |  4 +++-
 4 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/javatools/cheetah/__init__.py b/javatools/cheetah/__init__.py
index 1f56214..4b5b7dd 100644
--- a/javatools/cheetah/__init__.py
+++ b/javatools/cheetah/__init__.py
@@ -23,6 +23,7 @@ license: LGPL
 
 
 from pkgutil import iter_modules
+from six.moves.urllib.parse import quote
 
 
 def _iter_templates():
@@ -65,5 +66,17 @@ def xml_entity_escape(data):
     return data
 
 
+def uri_quote(path):
+    """
+    the relative URI reference which leads to path
+    """
+
+    if not isinstance(path, str):
+        # Python 2 can only quote bytes
+        path = path.encode("utf-8")
+
+    return quote(path)
+
+
 #
 # The end.
diff --git a/javatools/cheetah/change_SquashedChange.tmpl b/javatools/cheetah/change_SquashedChange.tmpl
index 216885e..f5149c0 100644
--- a/javatools/cheetah/change_SquashedChange.tmpl
+++ b/javatools/cheetah/change_SquashedChange.tmpl
@@ -1,5 +1,6 @@
 #extends javatools.cheetah.change_Change
 #from javatools.cheetah import xml_entity_escape as escape
+#from javatools.cheetah import uri_quote
 #implements respond
 
 
@@ -27,7 +28,7 @@ cl = " ".join(cl)
 <%
 change = getattr(self, "change")
 oc = change.origclass
-uri = "%s/%s.html" % (change.entry, oc.report_name)
+uri = uri_quote("%s/%s.html" % (change.entry, oc.report_name))
 %>
 $escape($change.entry)
 <span class="moreinfo">[<a href="<%= uri %>">details</a>]</span>
diff --git a/javatools/cheetah/report.tmpl b/javatools/cheetah/report.tmpl
index 8fb280a..ddbedfc 100644
--- a/javatools/cheetah/report.tmpl
+++ b/javatools/cheetah/report.tmpl
@@ -1,3 +1,5 @@
+#from javatools.cheetah import xml_entity_escape as escape
+#from javatools.cheetah import uri_quote
 <?xml version="1.0" encoding="UTF-8"?>
 <!DOCTYPE html 
      PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN"
@@ -25,7 +27,7 @@ $change.__class__.__name__
 
 #block head_stylesheets
 #for ss in $stylesheets
-<link rel="stylesheet" type="text/css" href="$ss" />
+<link rel="stylesheet" type="text/css" href="$escape($ss)" />
 #end for
 #end block
 
@@ -35,7 +37,7 @@ $change.__class__.__name__
 <script type="text/javascript" src="http://ajax.googleapis.com/ajax/libs/jquery/1.7.1/jquery.min.js"></script>
 #end if
 #for js in $javascripts
-<script type="text/javascript" src="$js"></script>
+<script type="text/javascript" src="$escape($js)"></script>
 #end for
 #end block
 
@@ -59,7 +61,7 @@ $change.__class__.__name__
 #from os.path import join
 <ul class="breadcrumbs">
 #for p,t in $breadcrumbs
-<li><a href="<%= join(p,t+".html") %>"><%= t %></a></li>
+<li><a href="<%= uri_quote(join(p,t+".html")) %>"><%= escape(t) %></a></li>
 #end for
 <li>$title</li>
 </ul>
diff --git a/javatools/report.py b/javatools/report.py
index 195bb8d..64e18db 100644
--- a/javatools/report.py
+++ b/javatools/report.py
@@ -411,6 +411,8 @@ class CheetahReportFormat(ReportFormat):
         if uri is relative, re-relate it to our basedir
         """
 
+        from .cheetah import uri_quote
+
         if uri.startswith("http:") or \
            uri.startswith("https:") or \
            uri.startswith("file:") or \
@@ -418,7 +420,7 @@ class CheetahReportFormat(ReportFormat):
             return uri
 
         elif exists(uri):
-            return relpath(uri, self.basedir)
+            return uri_quote(relpath(uri, self.basedir))
 
         else:
             return uri
-- 
2.43.0


From 0037815f0ada0a8acd8546e720bece468e606353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:02 +0000
Subject: [PATCH 77/86] fix: show annotations without elements in HTML reports

---
 javatools/cheetah/classdiff_AnnotationsChange.tmpl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/javatools/cheetah/classdiff_AnnotationsChange.tmpl b/javatools/cheetah/classdiff_AnnotationsChange.tmpl
index 7b7c916..dfa329c 100644
--- a/javatools/cheetah/classdiff_AnnotationsChange.tmpl
+++ b/javatools/cheetah/classdiff_AnnotationsChange.tmpl
@@ -56,14 +56,14 @@ $render_annotations($change.get_ldata())
 <tr>
 <td class="const-index"><%= index %></td>
 <td class="const-value">
-<%= escape((la and la.pretty_annotation()) or "") %></td>
+<%= "" if la is None else escape(la.pretty_annotation()) %></td>
 
 #if (la == ra)
 <td class="const-value is_unchanged">
-<%= escape((ra and ra.pretty_annotation()) or "") %></td>
+<%= "" if ra is None else escape(ra.pretty_annotation()) %></td>
 #else
 <td class="const-value is_changed">
-<%= escape((ra and ra.pretty_annotation()) or "") %></td>
+<%= "" if ra is None else escape(ra.pretty_annotation()) %></td>
 #end if
 </tr>
 <% index += 1 %>
-- 
2.43.0


From f696f3c22f48078fff83a8c2693e11e268a2e2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:05 +0000
Subject: [PATCH 78/86] fix: show constants that are zero in HTML reports

---
 javatools/cheetah/classdiff_ClassConstantPoolChange.tmpl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javatools/cheetah/classdiff_ClassConstantPoolChange.tmpl b/javatools/cheetah/classdiff_ClassConstantPoolChange.tmpl
index acd0cb3..45a1774 100644
--- a/javatools/cheetah/classdiff_ClassConstantPoolChange.tmpl
+++ b/javatools/cheetah/classdiff_ClassConstantPoolChange.tmpl
@@ -60,13 +60,13 @@ row_class = (" is_changed")[(lt, lv) == (rt, rv)]
 <tr>
 <td class="const-index"><%= index %></td>
 <td class="const-type"><%= lt or "" %></td>
-<td class="const-value"><%= escape(str(lv or "")) %></td>
+<td class="const-value"><%= "" if lv is None else escape(str(lv)) %></td>
 #if (lt, lv) == (rt, rv)
 <td class="const-type empty"></td>
 <td class="const-value empty"></td>
 #else
 <td class="const-type is_changed"><%= rt or "" %></td>
-<td class="const-value is_changed"><%= escape(str(rv or "")) %></td>
+<td class="const-value is_changed"><%= "" if rv is None else escape(str(rv)) %></td>
 #end if
 </tr>
 #end for
-- 
2.43.0


From 008acef3629d40a28d64004161cafe1a0cf847a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:09 +0000
Subject: [PATCH 79/86] fix: keep sub-reports inside of the report directory

---
 javatools/cheetah/change_SquashedChange.tmpl |  4 +++-
 javatools/report.py                          | 13 ++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/javatools/cheetah/change_SquashedChange.tmpl b/javatools/cheetah/change_SquashedChange.tmpl
index f5149c0..7eb127a 100644
--- a/javatools/cheetah/change_SquashedChange.tmpl
+++ b/javatools/cheetah/change_SquashedChange.tmpl
@@ -1,5 +1,6 @@
 #extends javatools.cheetah.change_Change
 #from javatools.cheetah import xml_entity_escape as escape
+#from javatools.report import subreport_path
 #from javatools.cheetah import uri_quote
 #implements respond
 
@@ -28,7 +29,8 @@ cl = " ".join(cl)
 <%
 change = getattr(self, "change")
 oc = change.origclass
-uri = uri_quote("%s/%s.html" % (change.entry, oc.report_name))
+uri = uri_quote("%s/%s.html" % (subreport_path(change.entry),
+                            oc.report_name))
 %>
 $escape($change.entry)
 <span class="moreinfo">[<a href="<%= uri %>">details</a>]</span>
diff --git a/javatools/report.py b/javatools/report.py
index 64e18db..bec5214 100644
--- a/javatools/report.py
+++ b/javatools/report.py
@@ -49,6 +49,17 @@ __all__ = (
     "CheetahReportFormat", "add_html_report_optgroup", )
 
 
+def subreport_path(entry):
+    """
+    where to put the sub-report for an entry, relative to the directory
+    of the report it belongs to. This is never outside of that
+    directory, whatever an archive may call its entries
+    """
+
+    parts = (p for p in entry.split("/") if p not in ("", "."))
+    return "/".join("__" if p == ".." else p for p in parts)
+
+
 class Reporter(object):
     """
     Collects multiple report formats for use in presenting a change
@@ -109,7 +120,7 @@ class Reporter(object):
         the same output formats
         """
 
-        newbase = join(self.basedir, subpath)
+        newbase = join(self.basedir, subreport_path(subpath))
         r = Reporter(newbase, entry, self.options)
 
         crumbs = list(self.breadcrumbs)
-- 
2.43.0


From 3692b026eed8f3ea1c4317de9b469a1c00db89df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:28 +0000
Subject: [PATCH 80/86] fix: do not take directories that cannot be listed for
 empty ones

---
 javatools/dirutils.py | 17 ++++++++++++++++-
 javatools/distinfo.py |  2 +-
 javatools/jarutil.py  |  3 ++-
 javatools/manifest.py |  3 +--
 javatools/ziputils.py |  3 +--
 5 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/javatools/dirutils.py b/javatools/dirutils.py
index 8712e6a..402a6f0 100644
--- a/javatools/dirutils.py
+++ b/javatools/dirutils.py
@@ -22,9 +22,11 @@ trees
 """
 
 
+import os
+
 from filecmp import dircmp
 from fnmatch import fnmatch
-from os import makedirs, walk
+from os import makedirs
 from os.path import exists, getsize, isdir, join, relpath
 from shutil import copy
 
@@ -51,6 +53,19 @@ def fnmatches(entry, *pattern_list):
     return False
 
 
+def walk(dirname):
+    """
+    like os.walk, except that a directory which cannot be listed is an
+    error rather than taken to be empty
+    """
+
+    return os.walk(dirname, onerror=_raise)
+
+
+def _raise(error):
+    raise error
+
+
 def makedirsp(dirname):
     """
     create dirname if it doesn't exist
diff --git a/javatools/distinfo.py b/javatools/distinfo.py
index 0b3589c..dce1672 100644
--- a/javatools/distinfo.py
+++ b/javatools/distinfo.py
@@ -190,7 +190,7 @@ class DistInfo(object):
 
 def _collect_dist(pathn):
     from os.path import join, relpath
-    from os import walk
+    from .dirutils import walk
     for r, _ds, fs in walk(pathn):
         for f in fs:
             yield relpath(join(r, f), pathn)
diff --git a/javatools/jarutil.py b/javatools/jarutil.py
index ce8dc9e..da42a74 100644
--- a/javatools/jarutil.py
+++ b/javatools/jarutil.py
@@ -37,6 +37,7 @@ from .crypto import (
     CryptoDisabled, CannotFindKeyTypeError, SignatureBlockVerificationError,
     private_key_type, verify_signature_block,
 )
+from .dirutils import walk
 from .manifest import file_matches_sigfile, Manifest, SignatureManifest
 from .manifest import MalformedManifest, ManifestKeyException
 
@@ -304,7 +305,7 @@ def create_jar(jar_file, entries, main_class=None):
         for entry in entries:
             _add_once(jar, entry, written)
             if os.path.isdir(entry):
-                for root, dirs, files in os.walk(entry):
+                for root, dirs, files in walk(entry):
                     for filename in dirs + files:
                         _add_once(jar, os.path.join(root, filename), written)
 
diff --git a/javatools/manifest.py b/javatools/manifest.py
index eac4dc7..30227dd 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -35,14 +35,13 @@ import sys
 from base64 import b64encode
 from collections import OrderedDict
 from os.path import isdir, join, sep, split
-from os import walk
 from six import BytesIO
 from six.moves import zip
 from zipfile import ZipFile
 
 from .change import GenericChange, SuperChange
 from .change import Addition, Removal
-from .dirutils import fnmatches, makedirsp
+from .dirutils import fnmatches, makedirsp, walk
 
 try:
     buffer
diff --git a/javatools/ziputils.py b/javatools/ziputils.py
index 8da999f..5823a09 100644
--- a/javatools/ziputils.py
+++ b/javatools/ziputils.py
@@ -21,14 +21,13 @@ Utilities for discovering entry deltas in a pair of zip files.
 """
 
 
-from os import walk
 from os.path import getsize, isdir, isfile, islink, join, relpath
 from six import BytesIO
 from six.moves import zip_longest
 from zipfile import is_zipfile, ZipFile, ZipInfo, _EndRecData
 from zlib import crc32
 
-from .dirutils import LEFT, RIGHT, DIFF, SAME, closing
+from .dirutils import LEFT, RIGHT, DIFF, SAME, closing, walk
 
 
 __all__ = (
-- 
2.43.0


From 72c084b374b6a1d188ca44c0b287c7c51ef1062f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:39 +0000
Subject: [PATCH 81/86] fix: show that a jar has no manifest, and the manifest
 of an exploded one

---
 javatools/jarinfo.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/javatools/jarinfo.py b/javatools/jarinfo.py
index fd65324..64f3115 100644
--- a/javatools/jarinfo.py
+++ b/javatools/jarinfo.py
@@ -57,6 +57,9 @@ JAR_PATTERNS = (
 )
 
 
+_MANIFEST = "META-INF/MANIFEST.MF"
+
+
 REQ_BY_CLASS = "class.requires"
 PROV_BY_CLASS = "class.provides"
 
@@ -178,8 +181,16 @@ class JarInfo(object):
 
 
     def get_manifest(self):
+        """
+        the Manifest, or None if there isn't one
+        """
+
+        zipfile = self.get_zipfile()
+        if _MANIFEST not in zipfile.namelist():
+            return None
+
         mf = Manifest()
-        mf.load_from_jar(self.filename)
+        mf.parse(zipfile.read(_MANIFEST))
         return mf
 
 
@@ -192,7 +203,7 @@ class JarInfo(object):
 def cli_jar_manifest_info(jarinfo):
     mf = jarinfo.get_manifest()
 
-    if not mf:
+    if mf is None:
         print("Manifest not present.")
         print()
         return
-- 
2.43.0


From c17f1cf6e6debb7e2eff052d07ed2d34380111c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:19 +0000
Subject: [PATCH 82/86] fix: do not take a partly extracted distribution for
 the whole one

---
 javatools/distinfo.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/javatools/distinfo.py b/javatools/distinfo.py
index dce1672..e1a204a 100644
--- a/javatools/distinfo.py
+++ b/javatools/distinfo.py
@@ -77,9 +77,15 @@ class DistInfo(object):
             return self.base_path
 
         else:
-            self.tmpdir = mkdtemp()
-            with open_zip(self.base_path, "r") as zf:
-                zf.extractall(path=self.tmpdir)
+            tmpdir = mkdtemp()
+            try:
+                with open_zip(self.base_path, "r") as zf:
+                    zf.extractall(path=tmpdir)
+            except BaseException:
+                # what was extracted so far is not the distribution
+                rmtree(tmpdir)
+                raise
+            self.tmpdir = tmpdir
             return self.tmpdir
 
 
-- 
2.43.0


From e55aa9c62bdcb0181def7516c39cffa73e3e5c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:09 +0000
Subject: [PATCH 83/86] fix: accept signers whose key usage is digitalSignature
 and that lack the e-mail purpose

---
 javatools/crypto.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/javatools/crypto.py b/javatools/crypto.py
index 58d927f..2b0544c 100644
--- a/javatools/crypto.py
+++ b/javatools/crypto.py
@@ -170,8 +170,9 @@ def ignore_missing_email_protection_eku_cb(ok, ctx):
     cert = ctx.get_current_cert()
     try:
         key_usage = cert.get_ext('keyUsage').get_value()
-        if 'digitalSignature' not in key_usage \
-                and 'nonRepudiation' not in key_usage:
+        # the value is OpenSSL's description, not the names of RFC 5280
+        if 'Digital Signature' not in key_usage \
+                and 'Non Repudiation' not in key_usage:
             return ok
     except LookupError:
         pass
-- 
2.43.0


From d001260aac51adf7cd61773bca5755d666f56abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:25 +0000
Subject: [PATCH 84/86] fix: verify manifests that do not say what their line
 separator is

---
 javatools/manifest.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 30227dd..54b539f 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -628,6 +628,9 @@ class SignatureManifest(Manifest):
 
         failures = []
 
+        # as in digest_manifest
+        linesep = manifest.linesep or os.linesep
+
         for s in manifest.sub_sections.values():
             sf_section = self.sub_sections.get(s.primary())
 
@@ -642,7 +645,7 @@ class SignatureManifest(Manifest):
                 continue
 
             for java_digest in digests:
-                if _digest_matches(s.get_data(manifest.linesep), java_digest,
+                if _digest_matches(s.get_data(linesep), java_digest,
                                    sf_section.get(java_digest + "-Digest")):
                     # found a match, verified
                     break
-- 
2.43.0


From cd2918c5faf483c22436c5c415eca23c4a49e4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:26 +0000
Subject: [PATCH 85/86] fix: recognise the name of a manifest section whatever
 its case

---
 javatools/manifest.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 54b539f..61d9e2a 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -282,7 +282,12 @@ class ManifestSection(OrderedDict):
         Populate this section from an iteration of the parse_items call
         """
 
+        primary = self.primary_key
+
         for k, vals in items:
+            # attribute names are case-insensitive
+            if k.lower() == primary.lower():
+                k = primary
             self[k] = "".join(vals)
 
 
-- 
2.43.0


From 50819d72398157b3e17ff424eebe39be9474eada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:05 +0000
Subject: [PATCH 86/86] fix: sign a jar with the default digest algorithm when
 none is given

sign() provides for digest=None where it makes the signature file, but
added the digests of the entries and made the signature block with None,
which raised TypeError.
---
 javatools/jarutil.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/javatools/jarutil.py b/javatools/jarutil.py
index da42a74..cb1871c 100644
--- a/javatools/jarutil.py
+++ b/javatools/jarutil.py
@@ -207,6 +207,9 @@ def sign(jar_file, cert_file, key_file, key_alias,
         raise KeyAliasError("Cannot name a signature file after alias %r"
                             % key_alias)
 
+    if digest is None:
+        digest = "SHA-256"
+
     mf = Manifest()
     mf.load_from_jar(jar_file)
     mf.add_jar_entries(jar_file, digest)
@@ -215,7 +218,7 @@ def sign(jar_file, cert_file, key_file, key_alias,
     # style of the manifest it'll be digesting.
     sf = SignatureManifest(linesep=mf.linesep)
 
-    sf_digest_algorithm = "SHA-256" if digest is None else digest
+    sf_digest_algorithm = digest
     sf.digest_manifest(mf, sf_digest_algorithm)
 
     sig_digest_algorithm = digest  # No point to make it different
-- 
2.43.0

