"""C03: truncated or corrupt class data is rejected, never half-parsed"""

import io
import os
import struct

from vlib import classfile as cf
from vlib.explore import Harness
from checks import c01

from javatools import (
    unpack_class, unpack_classfile, is_class, is_class_file,
    UnpackException, ClassUnpackException, UnknownConstantPoolTagException)

ASSUMPTIONS = [
    "corruptions enumerated: every strict prefix, every value of every "
    "magic byte, every undefined constant tag at every pool position, every "
    "strict prefix of every attribute's payload",
]


class Trickle(object):
    """a stream delivering at most n bytes per read"""

    def __init__(self, data, n):
        self.b = io.BytesIO(data)
        self.n = n

    def read(self, count=-1):
        return self.b.read(min(count, self.n) if count >= 0 else self.n)


def forms(data):
    return [("bytes", data), ("memoryview", memoryview(data)),
            ("stream", io.BytesIO(data)), ("trickle", Trickle(data, 3))]


def corpus():
    b = c01.base
    return [
        ("minimal", b(super=None)),
        ("members", b(interfaces=["i/J"],
                      fields=[dict(access=1, name="f", desc="J",
                                   attrs=[("ConstantValue", ("j", 5))])],
                      methods=[dict(access=1, name="m", desc="()V",
                                    attrs=[("Code", c01.CODE_B),
                                           ("Deprecated",)])],
                      attrs=[("SourceFile", "X.java")])),
        ("attrs", b(attrs=[a for a in c01.CLASS_ATTRS
                           if a != ("EnclosingMethod", "x/E", None)])),
        ("consts", b(consts=[("i", 1), ("f", 2), ("j", 3), ("d", 4),
                             ("s", "s"), ("mh", 6, ("mr", "a", "b", "()V")),
                             ("mt", "()V"), ("dy", 0, "a", "I"),
                             ("id", 1, "b", "()V"), ("mod", "m"),
                             ("pkg", "p"), ("mid", "q", "r"),
                             ("ir", "a", "b", "()V")])),
    ]


CORPUS = corpus()


def prefixes(ctx):
    name, spec = ctx.choose("class", CORPUS, label=lambda x: x[0])
    data = cf.encode_bytes(spec)
    unpack_class(data)     # the whole is accepted
    blk = ctx.choose("block", list(range((len(data) + 31) // 32)))
    for k in range(blk * 32, min(blk * 32 + 32, len(data))):
        cut = data[:k]
        for how, src in forms(cut):
            try:
                unpack_class(src)
            except UnpackException as e:
                if not e.bytes_present < e.bytes_wanted:
                    ctx.fail("prefix:report", "prefix %d: %s" % (k, e))
            except ClassUnpackException:
                pass
            else:
                ctx.fail("prefix:accepted",
                         "%s: the first %d of %d bytes were accepted as a "
                         "class (%s)" % (name, k, len(data), how))
            ctx.step()
        ctx.eq(bool(is_class(cut)), k >= 4, "prefix:is_class")
        ctx.eq(bool(is_class(io.BytesIO(cut))), k >= 4, "prefix:is_class")
        if k < 12 or k % 16 == 0:
            fn = os.path.join(ctx.tmpdir or "/tmp", "T.class")
            with open(fn, "wb") as fd:
                fd.write(cut)
            ctx.eq(bool(is_class_file(fn)), k >= 4, "prefix:is_class_file")
            try:
                unpack_classfile(fn)
            except (UnpackException, ClassUnpackException):
                pass
            else:
                ctx.fail("prefix:accepted", "file of %d bytes" % k)
        ctx.state(cut)
    ctx.outcome(name)


LARGE = c01.base(
    methods=[dict(access=1, name="m", desc="()V", attrs=[
        ("Code", dict(code=[("nop", ())] * 20000 + [("return", ())])),
        ("Deprecated",)])],
    attrs=[("SourceFile", "s" * 9000), ("Raw", "mid", b"m" * 9000),
           ("Raw", "big", b"b" * 140000), ("Raw", "tail", b"t" * 8192)])


class Late(io.RawIOBase):
    """an unbuffered stream"""

    def __init__(self, data, n):
        self.b = io.BytesIO(data)
        self.n = n

    def readable(self):
        return True

    def readinto(self, buf):
        d = self.b.read(min(len(buf), self.n))
        buf[:len(d)] = d
        return len(d)


def large(ctx):
    """classes larger than any buffer: cuts around every 512 byte mark,
    counted from the start of the file, from its end and from the start of
    each large attribute"""
    data = cf.encode_bytes(LARGE)
    starts = [0, len(data)] + [data.index(x * 64) for x in
                               (b"s", b"m", b"b", b"t", b"\0\0")]
    start = ctx.choose("from", starts, label=str)
    blk = ctx.choose("block", list(range(-16, 24)))
    for q in range(8):
        for d in (-1, 0, 1):
            k = start + (8 * blk + q) * 512 * (2 if blk > 12 else 1) + d
            if not 0 <= k < len(data):
                continue
            cut = data[:k]
            for how, src in [("bytes", cut), ("memoryview", memoryview(cut)),
                             ("stream", io.BytesIO(cut)),
                             ("trickle", Trickle(cut, 1000)),
                             ("blocks", Trickle(cut, 4096)),
                             ("raw", Late(cut, 8192)),
                             ("buffered", io.BufferedReader(
                                 Late(cut, 5000)))]:
                try:
                    ci = unpack_class(src)
                except (UnpackException, ClassUnpackException):
                    pass
                else:
                    ctx.fail("prefix:accepted",
                             "the first %d of %d bytes were accepted as a "
                             "class (%s); its attributes are %r" %
                             (k, len(data), how,
                              [(n, len(ci.get_attribute(n) or b""))
                               for n in ("mid", "big", "tail")]))
                ctx.step()
            ctx.state(k)
    ctx.outcome(start)


def magics(ctx):
    pos = ctx.choose("byte", [0, 1, 2, 3])
    data = bytearray(cf.encode_bytes(CORPUS[0][1]))
    good = data[pos]
    for v in range(256):
        if v == good:
            continue
        data[pos] = v
        d = bytes(data)
        for how, src in forms(d):
            try:
                unpack_class(src)
            except ClassUnpackException:
                pass
            else:
                ctx.fail("magic:accepted", "magic %r accepted (%s)" %
                         (d[:4], how))
            ctx.step()
        ctx.eq(bool(is_class(d)), False, "magic:is_class")
        ctx.eq(bool(is_class(d[:4])), False, "magic:is_class")
        for m in (tuple(d[:4]), d[:4]):
            try:
                unpack_class(io.BytesIO(bytes(data[4:])), magic=m)
            except ClassUnpackException:
                pass
            else:
                ctx.fail("magic:accepted", "given magic %r accepted" % (m,))
            ctx.step()
        fn = os.path.join(ctx.tmpdir or "/tmp", "M.class")
        with open(fn, "wb") as fd:
            fd.write(d)
        ctx.eq(bool(is_class_file(fn)), False, "magic:is_class_file")
        ctx.state(d)
    ctx.outcome(pos)


VALID = set(cf.TAG.values())


def tags(ctx):
    name, spec = ctx.choose("class", CORPUS[1:], label=lambda x: x[0])
    data, cp = cf.encode(spec)
    # offsets of the tags
    offs = []
    p = 10
    for i, sym in cp.syms:
        offs.append(p)
        t = sym[0]
        if t == "u":
            n, = struct.unpack(">H", data[p + 1:p + 3])
            p += 3 + n
        else:
            p += {"i": 5, "f": 5, "j": 9, "d": 9, "c": 3, "s": 3, "mt": 3,
                  "mod": 3, "pkg": 3, "mh": 4}.get(t, 5)
    off = ctx.choose("const", offs)
    for v in range(256):
        if v in VALID:
            continue
        d = data[:off] + bytes((v,)) + data[off + 1:]
        for how, src in forms(d)[::2]:
            try:
                unpack_class(src)
            except UnknownConstantPoolTagException:
                pass
            else:
                ctx.fail("tag:accepted", "constant tag %d at %d accepted" %
                         (v, off))
            ctx.step()
        ctx.state((off, v))
    ctx.outcome(name)


ACCESS = {
    "Code": lambda m: m.get_code(),
    "ConstantValue": lambda m: m.deref_constantvalue(),
    "Exceptions": lambda m: m.get_exceptions(),
    "Signature": lambda m: m.get_signature(),
    "RuntimeVisibleAnnotations": lambda m: m.get_annotations(),
    "RuntimeInvisibleAnnotations": lambda m: m.get_invisible_annotations(),
    "RuntimeVisibleParameterAnnotations":
        lambda m: m.get_parameter_annotations(),
    "RuntimeInvisibleParameterAnnotations":
        lambda m: m.get_invisible_parameter_annotations(),
    "AnnotationDefault": lambda m: m.get_annotationdefault(),
    "SourceFile": lambda m: m.get_sourcefile(),
    "InnerClasses": lambda m: m.get_innerclasses(),
    "EnclosingMethod": lambda m: m.get_enclosingmethod(),
    "LineNumberTable": lambda m: m.get_code().get_linenumbertable(),
    "LocalVariableTable": lambda m: m.get_code().get_localvariabletable(),
    "LocalVariableTypeTable":
        lambda m: m.get_code().get_localvariabletypetable(),
}

ATTRS = ([("class", a) for a in c01.CLASS_ATTRS if a[0] in ACCESS] +
         [("field", a) for a in c01.FIELD_ATTRS if a[0] in ACCESS] +
         [("method", a) for a in c01.METHOD_ATTRS if a[0] in ACCESS] +
         [("code", a) for a in c01.CODE_B["attrs"]])


def payloads(ctx):
    """an attribute whose payload ends early"""
    where, a = ctx.choose("attr", ATTRS, label=lambda x: x[0] + ":" +
                          x[1][0])
    pool = cf.Pool()
    full = cf.attr(pool, a)[6:]
    syms = [s for _, s in pool.syms]
    for k in range(len(full) + 1):
        raw = ("Raw", a[0], full[:k])
        kw = {}
        if where == "class":
            kw["attrs"] = [raw, ("Raw", "z", b"zzzzzzzzzzzzzzzz")]
        elif where == "code":
            kw["methods"] = [dict(access=1, name="m", desc="()V", attrs=[
                ("Code", dict(code=[("return", ())],
                              attrs=[raw, ("Raw", "z", b"zzzzzzzz")]))])]
        else:
            kw[where + "s"] = [dict(access=1, name="m",
                                    desc="I" if where == "field" else "()V",
                                    attrs=[raw, ("Raw", "z", b"zzzzzzz")])]
        ci = unpack_class(cf.encode_bytes(c01.base(**kw), order=syms))
        o = ci if where == "class" else (ci.fields + ci.methods)[0]
        f = ACCESS[a[0]]
        if k == len(full):
            f(o)
        else:
            try:
                r = f(o)
            except UnpackException:
                pass
            else:
                ctx.fail("payload:accepted",
                         "%s cut to %d of %d bytes gave %r" %
                         (a[0], k, len(full), r))
        ctx.step()
        ctx.state((where, a[0], k))
    ctx.outcome(a[0])


def harnesses(tier):
    return [
        Harness("prefixes", prefixes, quota=2,
                describe="every strict prefix of %d class files, as bytes, "
                "memoryview, stream, trickling stream, file" % len(CORPUS)),
        Harness("large", large, quota=20, timeout=60,
                describe="a 190 KB class cut around every 512 byte mark, "
                "from 7 kinds of source"),
        Harness("magics", magics, quota=1,
                describe="every single-byte change of the magic"),
        Harness("tags", tags, quota=8,
                describe="every undefined tag at every constant"),
        Harness("payloads", payloads, quota=2,
                describe="every strict prefix of every attribute payload"),
    ]
