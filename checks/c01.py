"""C01: everything a class file encodes is what the parser reports"""

import struct

from vlib import classfile as cf
from vlib import classview as cv
from vlib.explore import Harness

import javatools
from javatools import unpack_class

ASSUMPTIONS = [
    "well-formed class files as laid out by JVMS 4; the reference encoder "
    "(vlib/classfile.py) was validated against javap/JVM at development "
    "time",
    "attribute names are unique within one attribute table",
]

ANNO = ("Lx/Anno;", [("value", ("I", 5)), ("name", ("s", "n"))])
ANNO2 = ("Lx/Other;", [])

CODE_A = dict(stack=2, locals=3, code=[("iconst_0", ()), ("ireturn", ())])
CODE_B = dict(
    stack=65535, locals=65534,
    code=[("ldc", (("s", "hello"),)),
          ("getstatic", (("fr", "java/lang/System", "out", "Ljava/io/P;"),)),
          ("invokevirtual", (("mr", "java/io/P", "println",
                              "(Ljava/lang/String;)V"),)),
          ("bipush", (-3,)), ("ireturn", ())],
    exc=[(0, 4, 4, "java/lang/Exception"), (1, 2, 65535, None)],
    attrs=[("LineNumberTable", [(0, 10), (3, 12), (5, 11)]),
           ("LocalVariableTable", [(0, 9, "this", "Lx/C;", 0),
                                   (1, 65535, "i", "I", 3)]),
           ("LocalVariableTypeTable", [(2, 3, "l", "Ljava/util/List<TT;>;",
                                        7)])])

CLASS_ATTRS = [
    ("SourceFile", "C.java"),
    ("Signature", "<T:Ljava/lang/Object;>Ljava/lang/Object;"),
    ("Deprecated",),
    ("SourceDebugExtension", "SMAP\nX\u00e9\x00"),
    ("InnerClasses", [("x/C$I", "x/C", "I", 9), ("x/C$1", None, None, 0),
                      ("y/Z$Q", "y/Z", "Q", 0x601f)]),
    ("EnclosingMethod", "x/E", ("m", "(I)V")),
    ("EnclosingMethod", "x/E", None),
    ("RuntimeVisibleAnnotations", [ANNO, ANNO2]),
    ("RuntimeInvisibleAnnotations", [ANNO2]),
    ("BootstrapMethods", [(("mh", 6, ("mr", "x/B", "b", "()V")),
                           [("i", 1)])]),
    ("Raw", "Custom", b"\x01\x02\x03"),
    ("Raw", "Empty", b""),
]
FIELD_ATTRS = [
    ("ConstantValue", ("i", -2147483648)), ("ConstantValue", ("s", "str")),
    ("ConstantValue", ("j", 1 << 40)), ("ConstantValue", ("f", 0x3f800000)),
    ("ConstantValue", ("d", 0x7ff0000000000000)),
    ("Signature", "Ljava/util/List<TT;>;"), ("Deprecated",), ("Synthetic",),
    ("RuntimeVisibleAnnotations", [ANNO]),
    ("RuntimeInvisibleAnnotations", [ANNO2, ANNO]),
    ("Raw", "Custom", b"zz"),
]
METHOD_ATTRS = [
    ("Code", CODE_A), ("Code", CODE_B),
    ("Exceptions", ["java/io/IOException", "x/Y$Z"]), ("Exceptions", []),
    ("Signature", "<U:TT;>(TU;)V"), ("Deprecated",), ("Synthetic",),
    ("RuntimeVisibleAnnotations", [ANNO2]),
    ("RuntimeInvisibleAnnotations", [ANNO]),
    ("RuntimeVisibleParameterAnnotations", [[ANNO], [], [ANNO2, ANNO]]),
    ("RuntimeInvisibleParameterAnnotations", [[], [ANNO2]]),
    ("AnnotationDefault", ("[", [("s", "a"), ("e", ("Lx/E;", "K"))])),
    ("Raw", "MethodParameters", b"\0"),
]

ORDERS = ("natural", "reversed", "padded", "widefirst")

PADS = {}


def order_of(spec, kind):
    syms = cf.symbols(spec)
    if kind == "reversed":
        return syms[::-1]
    if kind == "padded":
        # everything but what ldc needs ends up above index 255
        low = [s for s in syms if s[0] in ("s", "i", "f")]
        return low + [("u", "pad%d" % i) for i in range(260)] + syms
    if kind in ("mid", "high", "top"):
        # every reference lies just above 0x7fff, well above it, or at the
        # very end of the largest pool there can be
        low = [s for s in syms if s[0] in ("s", "i", "f")]
        n = {"mid": 0x7ff0, "high": 0xc000, "top": 65534 - len(syms) - sum(
            1 for s in syms if s[0] in ("j", "d")) - len(low)}[kind]
        n -= 2 * len(low)
        if n not in PADS:
            PADS[n] = [("u", "pad%d" % i) for i in range(n)]
        return low + PADS[n] + syms
    if kind == "widefirst":
        return [("j", 77), ("d", 77)] + syms + [("j", 78)]
    return None


def parse(data, how):
    if how == "memoryview":
        return unpack_class(memoryview(data))
    return unpack_class(data)


def check(ctx, spec, order="natural"):
    data, cp = cf.encode(spec, order=order_of(spec, order))
    ci = unpack_class(data)
    want = cv.compare(ctx, ci, spec, cp)
    ctx.state(data)
    return want


def base(**kw):
    c = dict(version=(52, 0), access=0x21, this="x/C",
             super="java/lang/Object", interfaces=[], fields=[], methods=[],
             attrs=[])
    c.update(kw)
    return c


NAMES = ["a", "value", "\u00e9t\u00e9", "lambda$0", "<init>"]
FDESC = ["I", "[J", "Ljava/lang/String;", "[[Lx/Y;"]
MDESC = ["()V", "(I[JLx/Y;)Ljava/lang/String;", "([[D)[[Lx/Q;"]


def shape(ctx):
    sup = ctx.choose("super", ["java/lang/Object", None, "x/y/Base$In"])
    ni = ctx.choose("interfaces", [0, 1, 2, 3])
    nf = ctx.choose("fields", [0, 1, 2, 3])
    nm = ctx.choose("methods", [0, 1, 2, 3])
    na = ctx.choose("classattrs", [0, 1, 3])
    ma = ctx.choose("memberattrs", [0, 1, 2])
    o = ctx.choose("order", ORDERS)
    fields = [dict(access=1 << i, name=NAMES[i], desc=FDESC[i],
                   attrs=[FIELD_ATTRS[(3 * i + 2 * k) % 8 + (0 if k else 0)]
                          for k in range(ma)][:2]) for i in range(nf)]
    for f in fields:
        names = set()
        f["attrs"] = [a for a in f["attrs"]
                      if not (a[0] in names or names.add(a[0]))]
    methods = [dict(access=0x400 >> i, name=NAMES[4 - i], desc=MDESC[i],
                    attrs=[METHOD_ATTRS[[i % 2, 2 + i][k]]
                           for k in range(ma)]) for i in range(nm)]
    attrs = [CLASS_ATTRS[k] for k in (0, 4, 7)][:na]
    spec = base(super=sup, interfaces=["i/I%d" % i for i in range(ni)],
                fields=fields, methods=methods, attrs=attrs)
    check(ctx, spec, o)
    ctx.outcome((ni, nf, nm, na))


def subset(ctx, name, pool, limit):
    """every ordered selection of up to limit attributes, names distinct"""
    out = []
    used = set()
    for k in range(limit):
        opts = [None] + [a for a in pool if a[0] not in used
                         or a[0] == "Raw" and a not in out]
        a = ctx.choose("%s%d" % (name, k), opts,
                       label=lambda x: "-" if x is None else
                       "%s:%s" % (x[0], str(x[1:])[:30]))
        if a is None:
            break
        out.append(a)
        used.add(a[0])
    return out


def attrs_of(kind, limit):
    def run(ctx):
        pool = dict(cls=CLASS_ATTRS, field=FIELD_ATTRS,
                    method=METHOD_ATTRS)[kind]
        sel = subset(ctx, "attr", pool, limit)
        o = ctx.choose("order", ("natural", "padded"))
        if kind == "cls":
            spec = base(attrs=sel)
        elif kind == "field":
            spec = base(fields=[
                dict(access=2, name="f", desc="I"),
                dict(access=2, name="g", desc="I", attrs=sel),
                dict(access=4, name="h", desc="J")])
        else:
            spec = base(methods=[
                dict(access=2, name="f", desc="()V",
                     attrs=[("Code", CODE_A)]),
                dict(access=2, name="g", desc="(I)I", attrs=sel),
                dict(access=4, name="h", desc="()J")])
        check(ctx, spec, o)
        ctx.outcome(tuple(sorted(a[0] for a in sel)))
    return run


def highpool(ctx):
    """constant pools so large that references have their top bit set"""
    order = ctx.choose("order", ["mid", "high", "top"])
    what = ctx.choose("what", ["shape"] + [
        (k, i) for k, pool in (("cls", CLASS_ATTRS), ("field", FIELD_ATTRS),
                               ("method", METHOD_ATTRS))
        for i in range(len(pool))])
    fld = dict(access=2, name="g", desc="J")
    meth = dict(access=2, name="m", desc="(I)I")
    k = dict(fields=[fld], methods=[meth], interfaces=["i/J", "i/K"],
             super="x/Base")
    if what != "shape":
        kind, i = what
        if kind == "cls":
            k["attrs"] = [CLASS_ATTRS[i]]
        elif kind == "field":
            fld["attrs"] = [FIELD_ATTRS[i]]
        else:
            meth["attrs"] = [METHOD_ATTRS[i]]
    check(ctx, base(**k), order)
    ctx.outcome((order, what))


def flags(ctx):
    kind = ctx.choose("kind", ["class", "field", "method"])
    hi = ctx.choose("hi", list(range(256)))
    spec = base(fields=[dict(access=0, name="f", desc="I")],
                methods=[dict(access=0, name="m", desc="()V")])
    # offsets of the flags, from the end of the file
    data, cp = cf.encode(spec)
    pos = {"class": len(data) - 2 - 10 - 10 - 2 - 6,
           "field": len(data) - 2 - 10 - 8, "method": len(data) - 2 - 8}
    p = pos[kind]
    for lo in range(256):
        fl = hi << 8 | lo
        d = data[:p] + struct.pack(">H", fl) + data[p + 2:]
        ci = unpack_class(d)
        if kind == "class":
            o, preds = ci, cv.CLASS_PRED
            words = cv.class_words(fl)
            pairs = [(sorted(ci.pretty_access_flags()), words)]
        else:
            meth = kind == "method"
            o = ci.methods[0] if meth else ci.fields[0]
            preds = cv.MEMBER_PRED
            syn = bool(fl & 0x1000)
            pairs = [(sorted(o.pretty_access_flags()),
                      cv.member_words(fl, meth, syn, False)),
                     (sorted(o.pretty_access_flags(True)),
                      cv.member_words(fl, meth, syn, True)),
                     (bool(o.is_synthetic()), syn)]
        ctx.eq(o.access_flags, fl, "flags:value", kind)
        for name, bit in preds:
            if bool(getattr(o, name)()) != bool(fl & bit):
                ctx.fail("flags:%s" % name, "%s flags %#06x: %s() is %r" %
                         (kind, fl, name, getattr(o, name)()))
        for g, w in pairs:
            ctx.eq(g, w, "flags:words", "%s %#06x" % (kind, fl))
        ctx.step(len(preds))
        ctx.state((kind, fl))
    ctx.outcome((kind, bin(hi).count('1')))


MAJ = [0, 1, 44] + list(range(45, 71)) + [255, 256, 65535]


def versions(ctx):
    major = ctx.choose("major", MAJ)
    minors = [0, 1, 2, 3, 4, 5, 255, 256, 65534, 65535]
    for minor in minors:
        ci = unpack_class(cf.encode_bytes(base(version=(major, minor))))
        ctx.eq(tuple(ci.get_version()), (major, minor), "version")
        ctx.state((major, minor))
    if 45 <= major <= 52:
        for minor in range(65536):
            if javatools.platform_from_version(major, minor) != \
               cv.platform(major, minor):
                ctx.fail("platform", "platform_from_version(%d, %d) = %r" %
                         (major, minor,
                          javatools.platform_from_version(major, minor)))
        ctx.step(65536)
    elif major < 45:
        ctx.eq(javatools.platform_from_version(major, 0), None, "platform")
    ctx.outcome(cv.platform(major, 0))


SIZES = [0, 1, 2, 127, 128, 255, 256, 257, 4095, 32767, 32768, 65535]


def counts(ctx):
    what = ctx.choose("what", ["interfaces", "fields", "methods", "attrs",
                               "code", "rawattr", "lnt", "exc", "lvt",
                               "utf8", "exceptions", "inner", "annos",
                               "elements", "fieldattrs", "codeattrs"])
    n = ctx.choose("n", SIZES)
    if n > 5000 and what in ("annos", "inner", "elements", "exceptions") \
       and n != 65535:
        n = n // 8
    k = dict()
    meth = dict(access=1, name="m", desc="()V")
    fld = dict(access=1, name="f", desc="I")
    code = dict(code=[("return", ())])
    if what == "interfaces":
        k["interfaces"] = ["i/%d" % (i % 300) for i in range(n)]
    elif what == "fields":
        n = min(n, 4095)
        k["fields"] = [dict(access=i, name="f%d" % i, desc="I")
                       for i in range(n)]
    elif what == "methods":
        n = min(n, 4095)
        k["methods"] = [dict(access=i, name="f%d" % i, desc="(I)V")
                        for i in range(n)]
    elif what == "attrs":
        n = min(n, 32768)
        k["attrs"] = [("Raw", "a%d" % i, b"%d" % i) for i in range(n)]
    elif what == "fieldattrs":
        n = min(n, 32768)
        fld["attrs"] = [("Raw", "a%d" % i, b"%d" % i) for i in range(n)]
        k["fields"] = [fld, dict(access=2, name="g", desc="J")]
    elif what == "codeattrs":
        n = min(n, 32768)
        code["attrs"] = [("Raw", "a%d" % i, b"%d" % i) for i in range(n)]
        meth["attrs"] = [("Code", code), ("Deprecated",)]
        k["methods"] = [meth]
    elif what == "code":
        if n == 0:
            ctx.choose("skip", [])
        code["code"] = [("nop", ())] * (n - 1) + [("return", ())]
        meth["attrs"] = [("Code", code)]
        k["methods"] = [meth, dict(access=2, name="n", desc="()J")]
    elif what == "rawattr":
        k["attrs"] = [("Raw", "big", b"x" * n), ("SourceFile", "after")]
    elif what in ("lnt", "lvt", "exc"):
        if what == "lnt":
            code["attrs"] = [("LineNumberTable",
                              [(i, i * 3 & 0xffff) for i in range(n)])]
        elif what == "lvt":
            code["attrs"] = [("LocalVariableTable",
                              [(i, 1, "v", "I", i & 0xff)
                               for i in range(n)]),
                             ("LocalVariableTypeTable",
                              [(i, 2, "w", "TT;", i & 0xff)
                               for i in range(n)])]
        else:
            code["exc"] = [(i, i, i, "e/E" if i % 2 else None)
                           for i in range(n)]
        meth["attrs"] = [("Code", code), ("Deprecated",)]
        k["methods"] = [meth]
    elif what == "utf8":
        k["attrs"] = [("SourceFile", "s" * n), ("Deprecated",)]
    elif what == "exceptions":
        meth["attrs"] = [("Exceptions", ["e/E%d" % (i % 9)
                                         for i in range(n)])]
        k["methods"] = [meth]
    elif what == "inner":
        k["attrs"] = [("InnerClasses", [("x/C$%d" % (i % 7), "x/C", "n",
                                         i & 0xffff) for i in range(n)])]
    elif what == "annos":
        n = min(n, 4095)
        k["attrs"] = [("RuntimeVisibleAnnotations",
                       [("La%d;" % (i % 5), [("v", ("I", i))])
                        for i in range(n)])]
    elif what == "elements":
        n = min(n, 4095)
        k["attrs"] = [("RuntimeVisibleAnnotations",
                       [("La;", [("v%d" % i, ("I", i))
                                 for i in range(n)]), ANNO2])]
    spec = base(**k)
    data, cp = cf.encode(spec)
    ci = unpack_class(data)
    cv.compare(ctx, ci, spec, cp)
    for a in spec["attrs"]:
        if a[0] == "Raw":
            ctx.eq(bytes(ci.get_attribute(a[1])), a[2], "rawattr")
    for m in spec["methods"]:
        for a in m.get("attrs", ()):
            if a[0] == "Code":
                co = ci.methods[0].get_code()
                for b in a[1].get("attrs", ()):
                    if b[0] == "Raw":
                        ctx.eq(bytes(co.get_attribute(b[1])), b[2],
                               "rawattr")
    for m in spec["fields"][:1]:
        for b in m.get("attrs", ()):
            ctx.eq(bytes(ci.fields[0].get_attribute(b[1])), b[2], "rawattr")
    ctx.state(data)
    ctx.outcome((what, n))


PC = [0, 1, 255, 256, 65535]


def codeattr(ctx):
    """all small combinations inside a Code attribute"""
    code = ctx.choose("code", [[("return", ())],
                               [("iinc", (255, -128)), ("return", ())],
                               [("wide", (0x84, 65535, -32768)),
                                ("goto_w", (-6,))],
                               [("tableswitch", (20, -1, 1, [20, -4, 24])),
                                ("ldc_w", (("i", 7),))]])
    stack = ctx.choose("stack", [0, 1, 65535])
    loc = ctx.choose("locals", [0, 256, 65535])
    ne = ctx.choose("nexc", [0, 1, 2])
    exc = []
    for i in range(ne):
        a = ctx.choose("exc%d" % i, [(0, 1, 1), (65535, 256, 255),
                                     (1, 0, 65535)])
        t = ctx.choose("type%d" % i, [None, "java/lang/Throwable"])
        exc.append(a + (t,))
    at = ctx.choose("attrs", [
        [], [("LineNumberTable", [(0, 1)])],
        [("LineNumberTable", [(0, 65535), (65535, 0), (1, 256)]),
         ("LocalVariableTable", [(0, 65535, "\u00e9", "[I", 65535)])],
        [("LocalVariableTypeTable", [(1, 2, "x", "TT;", 3)]),
         ("LocalVariableTable", [(4, 5, "y", "J", 6), (7, 8, "z", "Z", 9)])],
        [("LineNumberTable", [])]])
    c = dict(stack=stack, locals=loc, code=code, exc=exc, attrs=at)
    spec = base(methods=[dict(access=9, name="m", desc="()V",
                              attrs=[("Code", c), ("Deprecated",)]),
                         dict(access=9, name="n", desc="()V",
                              attrs=[("Code", CODE_A)])])
    check(ctx, spec)
    ctx.outcome((ne, len(at)))


def filesrc(ctx):
    """unpack_classfile and is_class_file on disk agree with the bytes"""
    import os
    from javatools import unpack_classfile, is_class_file
    kind = ctx.choose("content", ["small", "big", "edge"])
    n = {"small": 0, "big": 70000, "edge": 16384}[kind]
    off = ctx.choose("pad", list(range(-24, 25)) if kind == "edge" else [0])
    spec = base(attrs=[("SourceFile", "A"), ("Deprecated",),
                       ("Raw", "pad", b"p" * max(0, n + off - 160))])
    data, cp = cf.encode(spec)
    fn = os.path.join(ctx.tmpdir or ".", "F.class")
    with open(fn, "wb") as fd:
        fd.write(data)
    cv.compare(ctx, unpack_classfile(fn), spec, cp)
    ctx.eq(is_class_file(fn), True, "is_class_file")
    ctx.state(data)
    ctx.outcome(kind)


def harnesses(tier):
    t = tier == "thorough"
    return [
        Harness("shape", shape, quota=300,
                describe="super x 0-3 interfaces x 0-3 fields x 0-3 methods "
                "x 0-3 class attributes x member attributes x 4 constant "
                "pool layouts"),
        Harness("class-attrs", attrs_of("cls", 3), quota=300,
                describe="every ordered selection of <=3 class attributes"),
        Harness("field-attrs", attrs_of("field", 4 if t else 3), quota=300,
                describe="every ordered selection of field attributes"),
        Harness("method-attrs", attrs_of("method", 4 if t else 3),
                quota=300,
                describe="every ordered selection of method attributes"),
        Harness("highpool", highpool, quota=8, timeout=60,
                describe="every attribute kind with all its references "
                "above 0x7fff / 0xc000 / at the end of a full pool"),
        Harness("flags", flags, quota=20,
                describe="all 65536 flag words on class, field, method"),
        Harness("versions", versions, quota=2,
                describe="majors x boundary minors; platform for all 65536 "
                "minors of majors 45-52"),
        Harness("counts", counts, quota=6, timeout=60,
                describe="each repeated structure at boundary counts"),
        Harness("code", codeattr, quota=200),
        Harness("file", filesrc, quota=20),
    ]
