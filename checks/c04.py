"""C04: the source of the data does not matter"""

import io
import os
import struct

from vlib import classfile as cf
from vlib import classview as cv
from vlib.explore import Harness
from checks import c01

from javatools import unpack_class, unpack_classfile
from javatools.pack import (
    unpack, BufferUnpacker, StreamUnpacker, UnpackException, compile_struct)

ASSUMPTIONS = [
    "streams are blocking: read(n) returns between 1 and n bytes until the "
    "end of the data, and b'' there",
]


class Env(object):
    """a stream whose every read is answered as the explorer decides"""

    def __init__(self, ctx, data, dev=True, limit=10 ** 9):
        self.ctx = ctx
        self.data = data
        self.pos = 0
        self.dev = dev
        self.reads = 0
        self.limit = limit
        self.closed = False

    def read(self, n=-1):
        left = len(self.data) - self.pos
        if n is None or n < 0 or n > left:
            n = left
        self.reads += 1
        if n > 1 and self.reads <= self.limit:
            opts = sorted({n, 1, n // 2, n - 1}, reverse=True)
            n = self.ctx.choose("read%d/%d" % (self.reads, n), opts,
                                dev=self.dev)
        d = self.data[self.pos:self.pos + n]
        self.pos += n
        return d

    def close(self):
        self.closed = True


CLASSES = [
    ("tiny", c01.base(super=None)),
    ("code", c01.base(
        interfaces=["i/J"],
        fields=[dict(access=1, name="f", desc="J",
                     attrs=[("ConstantValue", ("j", 5))])],
        methods=[dict(access=1, name="m", desc="()V",
                      attrs=[("Code", c01.CODE_A), ("Deprecated",)])],
        attrs=[("SourceFile", "X.java"), ("Raw", "blob", b"0123456789")])),
]


def short_reads(ctx):
    name, spec = ctx.choose("class", CLASSES, label=lambda x: x[0])
    data, cp = cf.encode(spec)
    tail = ctx.choose("tail", [b"", b"\xca\xfe more"])
    env = Env(ctx, data + tail)
    how = ctx.choose("magic", ["none", "bytes", "tuple"])
    if how == "none":
        ci = unpack_class(env)
    else:
        m = b""
        while len(m) < 4:
            m += env.read(4 - len(m))
        ci = unpack_class(env, magic=m if how == "bytes" else tuple(m))
    ctx.eq(env.pos, len(data), "stream:consumed",
           "bytes consumed of %d" % len(data))
    cv.compare(ctx, ci, spec, cp)
    ctx.state((data, tuple(ctx.choices)))
    ctx.outcome((name, env.reads))


def trickle(ctx):
    """constant chunk sizes, on all corpora of C01's attributes"""
    n = ctx.choose("chunk", [1, 2, 3, 5, 7, 16, 1000])
    spec = c01.base(attrs=[a for a in c01.CLASS_ATTRS
                           if a != ("EnclosingMethod", "x/E", None)],
                    methods=[dict(access=1, name="m", desc="(I)I",
                                  attrs=[("Code", c01.CODE_B)])])
    order = ctx.choose("order", c01.ORDERS)
    data, cp = cf.encode(spec, order=c01.order_of(spec, order))
    src = ctx.choose("source", ["bytes", "bytearray-view", "memoryview",
                                "bytesio", "raw", "buffered", "trickle",
                                "rawtrickle", "slice", "file"])

    class T(io.RawIOBase):
        def __init__(self):
            self.b = io.BytesIO(data)

        def readable(self):
            return True

        def readinto(self, buf):
            d = self.b.read(min(len(buf), n))
            buf[:len(d)] = d
            return len(d)

    class U(object):
        def __init__(self):
            self.b = io.BytesIO(data)

        def read(self, k):
            return self.b.read(min(k, n))

    fn = os.path.join(ctx.tmpdir or "/tmp", "S.class")
    with open(fn, "wb") as fd:
        fd.write(data)
    if src == "file":
        ci = unpack_classfile(fn)
    else:
        ci = unpack_class({
            "bytes": lambda: data,
            "bytearray-view": lambda: memoryview(bytearray(data)),
            "memoryview": lambda: memoryview(data),
            "slice": lambda: memoryview(b"xx" + data + b"yy")[2:-2],
            "bytesio": lambda: io.BytesIO(data),
            "raw": lambda: open(fn, "rb", 0),
            "buffered": lambda: open(fn, "rb"),
            "trickle": U, "rawtrickle": T}[src]())
    cv.compare(ctx, ci, spec, cp)
    ctx.state((src, n, order))
    ctx.outcome(src)


# -- the unpacker interface itself, against a cursor model

class Obj(object):
    def unpack(self, up):
        self.v = up.unpack_struct(compile_struct(">H"))
        self.w = up.unpack(">B")


OPS = [
    ("read", 0), ("read", 1), ("read", 3), ("unpack", ">B"),
    ("unpack", ">Hb"), ("unpack_struct", ">i"), ("unpack_struct", ">bh"),
    ("unpack", ">0H"), ("array", ">B"), ("structs", ">h"), ("objects", None),
]

DATA = [b"", b"\x00", b"\x00\x01\x82", b"\x00\x02\xff\x00\x01\x80\x7f",
        b"\x00\x00\x00\x01\x00\x02\x00\x03\x04\x00\x01\x09\xfe",
        b"\x00\x01\x00\x02\x03\x00\x01\x00\x00\x00\x05\x06"]


def model(data, pos, op):
    """(result, new position) or None for not enough data"""
    kind, arg = op
    def take(fmt, pos):
        n = struct.calcsize(fmt)
        if len(data) - pos < n:
            raise EOFError
        return struct.unpack(fmt, data[pos:pos + n]), pos + n
    try:
        if kind == "read":
            if len(data) - pos < arg:
                raise EOFError
            return data[pos:pos + arg], pos + arg
        if kind in ("unpack", "unpack_struct"):
            return take(arg, pos)
        (n,), pos = take(">H", pos)
        out = []
        for _ in range(n):
            if kind == "objects":
                v, pos = take(">H", pos)
                w, pos = take(">B", pos)
                out.append((v, w))
            else:
                v, pos = take(arg, pos)
                out.append(v)
        return out, pos
    except EOFError:
        return None


def do(up, op):
    kind, arg = op
    if kind == "read":
        return up.read(arg)
    if kind == "unpack":
        return up.unpack(arg)
    if kind == "unpack_struct":
        return up.unpack_struct(compile_struct(arg))
    if kind == "array":
        return list(up.unpack_array(arg))
    if kind == "structs":
        return list(up.unpack_struct_array(compile_struct(arg)))
    return [(o.v, o.w) for o in up.unpack_objects(Obj)]


def unpackers(limit):
    def run(ctx):
        data = ctx.choose("data", DATA)
        kind = ctx.choose("unpacker", ["buffer", "offset", "memoryview",
                                       "stream", "short"])
        if kind == "buffer":
            up = unpack(data)
        elif kind == "offset":
            up = BufferUnpacker(b"\x00\x05" + data, 2)
        elif kind == "memoryview":
            up = unpack(memoryview(data))
        elif kind == "stream":
            up = unpack(io.BytesIO(data))
        else:
            up = unpack(Env(ctx, data, limit=3))
        with up:
            pos = 0
            for i in range(limit):
                op = ctx.choose("op%d" % i, OPS)
                want = model(data, pos, op)
                try:
                    got = do(up, op)
                except UnpackException as e:
                    ctx.check(want is None, "unpacker:refused",
                              lambda: "%s %r: %s" % (kind, op, e))
                    ctx.check(e.bytes_present < e.bytes_wanted,
                              "unpacker:report", str(e))
                    break
                if want is None:
                    ctx.fail("unpacker:overrun", "%s: %r at %d of %d gave "
                             "%r" % (kind, op, pos, len(data), got))
                res, pos = want
                ctx.eq(got, res, "unpacker:value", "%s %r" % (kind, op))
                if op[0] == "read":
                    ctx.check(isinstance(got, bytes), "unpacker:type",
                              "read gave %r" % (got,))
                ctx.state((data, kind, pos))
        # closed: nothing can be read any more
        try:
            r = up.read(1)
        except UnpackException:
            pass
        else:
            ctx.fail("unpacker:closed", "read after close gave %r" % (r,))
        ctx.outcome((kind, pos))
    return run


SIZES = [s + d for s in (512, 1000, 1024, 2048, 4096, 8192, 10000, 16384,
                         32768, 65536, 131072) for d in (-1, 0, 1)]


class Chunks(object):
    def __init__(self, data, n):
        self.b = io.BytesIO(data)
        self.n = n

    def read(self, k=-1):
        return self.b.read(self.n if k is None or k < 0 else min(k, self.n))


def large(ctx):
    """requests larger than any buffer, with one byte too few, just enough
    and one byte too many available"""
    size = ctx.choose("size", SIZES)
    lead = ctx.choose("lead", [0, 1, 4096])
    for have in (size - 4096, size - 1, size, size + 1):
        if have < 0:
            continue
        data = bytes(bytearray((i * 7 + 3 & 0xff) for i in range(251))) * (
            (lead + have) // 251 + 1)
        data = data[:lead + have]
        for src in ("buffer", "memoryview", "bytesio", "c1000", "c4096",
                    "c8192", "c65536"):
            for op in ("read", "struct", "unpack"):
                up = unpack({"buffer": lambda: data,
                             "memoryview": lambda: memoryview(data),
                             "bytesio": lambda: io.BytesIO(data)}.get(
                    src, lambda: Chunks(data, int(src[1:])))())
                with up:
                    if lead:
                        ctx.eq(up.read(lead), data[:lead], "large:lead")
                    what = "%s of %d bytes, %d available, from %s" % (
                        op, size, have, src)
                    try:
                        if op == "read":
                            got = up.read(size)
                        elif op == "struct":
                            got, = up.unpack_struct(
                                struct.Struct(">%ds" % size))
                        else:
                            got, = up.unpack(">%ds" % size)
                    except UnpackException as e:
                        ctx.check(have < size, "large:refused", what)
                        ctx.eq((e.bytes_wanted, e.bytes_present),
                               (size, have), "large:report", what)
                    else:
                        ctx.check(have >= size, "large:overrun",
                                  "%s gave %d" % (what, len(got)))
                        ctx.check(bytes(got) == data[lead:lead + size],
                                  "large:value", what)
                        rest = have - size
                        if rest:
                            ctx.eq(bytes(up.read(rest)), data[-rest:],
                                   "large:rest", what)
                ctx.step()
        ctx.state((size, lead, have))
    ctx.outcome(size)


def large_class(ctx):
    """a class with large parts, from streams of every chunk size"""
    from checks.c03 import LARGE
    n = ctx.choose("chunk", [512, 1000, 4095, 4096, 4097, 8192, 65535,
                             65536, 10 ** 6])
    data, cp = cf.encode(LARGE)
    for src in (Chunks(data, n), Chunks(data + b"more", n),
                io.BufferedReader(io.BytesIO(data), n)):
        ci = unpack_class(src)
        cv.compare(ctx, ci, LARGE, cp)
        for a in LARGE["attrs"]:
            if a[0] == "Raw":
                ctx.check(bytes(ci.get_attribute(a[1])) == a[2],
                          "large:attribute", a[1])
    ctx.state(n)
    ctx.outcome(n)


def harnesses(tier):
    t = tier == "thorough"
    return [
        Harness("short-reads", short_reads, bound=3 if t else 2, quota=300,
                describe="every placement of up to %d short reads among the "
                "reads of a class" % (3 if t else 2)),
        Harness("sources", trickle, quota=40),
        Harness("unpackers", unpackers(4 if t else 3), bound=2, quota=500,
                describe="every sequence of unpack operations vs a cursor "
                "model"),
        Harness("large", large, quota=20, timeout=60,
                describe="requests around every buffer size x bytes "
                "available x source"),
        Harness("large-class", large_class, quota=2, timeout=60),
    ]
