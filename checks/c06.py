"""C06: descriptors"""

from vlib import classfile as cf
from vlib.explore import Harness
from checks import c01

from javatools import unpack_class

ASSUMPTIONS = [
    "descriptors of JVMS 4.3 whose class names do not contain parentheses",
]

BASE = ["B", "C", "D", "F", "I", "J", "S", "Z"]
CLS = ["Ljava/lang/String;", "LB;", "La/b/C$D;", "LVVV;", "LL;",
       "Lx/\u00e9/T_1;"]
ARR = ["[I", "[[J", "[Lx/Y;", "[[[LZ;", "[B"]
ALL = BASE + CLS + ARR


def check(ctx, descs, method):
    spec = c01.base(**{"methods" if method else "fields": [
        dict(access=0, name="n", desc=d) for d in descs]})
    ci = unpack_class(cf.encode_bytes(spec))
    ms = ci.methods if method else ci.fields
    ctx.eq(len(ms), len(descs), "count")
    for m, d in zip(ms, descs):
        if method:
            args, ret = cf.parse_mdesc(d)
        else:
            args, ret = (), d
        pa = tuple(cf.pretty_desc(a) for a in args)
        pr = cf.pretty_desc(ret)
        got = (m.get_descriptor(), tuple(m.get_arg_type_descriptors()),
               m.get_type_descriptor(), tuple(m.pretty_arg_types()),
               m.pretty_type())
        ctx.eq(got, (d, args, ret, pa, pr), "descriptor", d)
        ident = "n(%s)" % ",".join(args) if method else "n"
        ctx.eq(m.get_identifier(), ident, "identifier", d)
        ctx.eq(m.pretty_identifier(), cf.pretty_ident("n", d),
               "pretty_identifier", d)
        ctx.eq("".join(args), d[1:d.index(")")] if method else "",
               "reassembled")
        ctx.state(d)


def methods(limit):
    def run(ctx):
        args = []
        for k in range(limit):
            a = ctx.choose("a%d" % k, [None] + ALL)
            if a is None:
                break
            args.append(a)
        check(ctx, ["(%s)%s" % ("".join(args), r) for r in ALL + ["V"]],
              True)
        ctx.outcome(tuple(a[0] for a in args))
    return run


def types(ctx):
    """array dimensions 0..255 of every element type, as fields, arguments
    and return types"""
    t = ctx.choose("type", BASE + CLS)
    ds = ["[" * n + t for n in list(range(9)) + [100, 254, 255]]
    check(ctx, ds, False)
    check(ctx, ["(%s)%s" % (a, b) for a in ds for b in ds[:3]], True)
    check(ctx, ["()%s" % b for b in ds], True)
    ctx.outcome(t)


def many(ctx):
    """up to 255 arguments"""
    n = ctx.choose("n", [10, 127, 128, 254, 255])
    k = ctx.choose("kind", ["same", "cycle"])
    t = ctx.choose("type", ALL)
    if k == "same":
        args = [t] * n
    else:
        i = ALL.index(t)
        args = [ALL[(i + j) % len(ALL)] for j in range(n)]
    check(ctx, ["(%s)%s" % ("".join(args), r) for r in ("V", "[[Lq/R;")],
          True)
    ctx.outcome(n)


def names(limit):
    """class names over an alphabet of troublesome characters"""
    def run(ctx):
        n = ""
        for k in range(limit):
            c = ctx.choose("c%d" % k, [None, "L", "B", "V", "$", "/x", "T",
                                       "-", "\u20ac", "\U0001f600", "0",
                                       ":", " ", "<", ">", ","])
            if c is None:
                break
            n += c
        if not n or n[0] == "/":
            n = "q" + n
        d = "L%s;" % n
        check(ctx, [d, "[" + d], False)
        check(ctx, ["(%s%sI)%s" % (d, d, d), "(I[%s)[%s" % (d, d)], True)
        ctx.outcome(len(n))
    return run


def harnesses(tier):
    t = tier == "thorough"
    return [
        Harness("methods", methods(4 if t else 3), quota=200,
                describe="every argument list of up to %d of %d types x "
                "every return type" % (4 if t else 3, len(ALL))),
        Harness("types", types, quota=2),
        Harness("many", many, quota=10),
        Harness("names", names(4 if t else 3), quota=300),
    ]
