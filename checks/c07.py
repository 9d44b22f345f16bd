"""C07: looking members up"""

from vlib import classfile as cf
from vlib.explore import Harness
from checks import c01

from javatools import unpack_class

ASSUMPTIONS = []

# name, args, return, access flags: only ACC_BRIDGE (0x40) makes a bridge,
# whatever else is or is not set beside it
METH = [
    ("m", (), "V", 0x1), ("m", ("I",), "V", 0x1),
    ("m", ("I",), "J", 0x1041), ("m", ("I",), "Lx/Y;", 0x40),
    ("m", ("I", "[Lx/Y;"), "V", 0x1000), ("m", ("[Lx/Y;", "I"), "V", 0xffbf),
    ("m", ("[Lx/Y;", "I"), "I", 0xffff),
    ("mm", (), "V", 0x80), ("M", ("I",), "V", 0), ("<init>", (), "V", 0x1),
    ("m", (), "I", 0x49),
]
BRIDGE = 0x40
QUERIES = sorted({(m[0], m[1]) for m in METH} | {("absent", ()),
                                                ("m", ("J",)),
                                                ("", ()), ("<clinit>", ()),
                                                ("mm", ("I",))})


def lookup(limit):
    def run(ctx):
        ms = []
        for k in range(limit):
            m = ctx.choose("m%d" % k, [None] + [x for x in METH
                                                if x not in ms])
            if m is None:
                break
            ms.append(m)
        spec = c01.base(methods=[
            dict(access=b, name=n,
                 desc="(%s)%s" % ("".join(a), r)) for n, a, r, b in ms])
        ci = unpack_class(cf.encode_bytes(spec))
        idx = {id(m): i for i, m in enumerate(ci.methods)}
        for n, a in QUERIES:
            want = [i for i, m in enumerate(ms) if m[0] == n]
            got = [idx[id(m)] for m in ci.get_methods_by_name(n)]
            ctx.eq(got, want, "methods_by_name", n)
            want = [i for i, m in enumerate(ms)
                    if m[0] == n and m[1] == a and not m[3] & BRIDGE]
            for q in (a, list(a), iter(a)):
                m = ci.get_method(n, q)
                ctx.eq([] if m is None else [idx[id(m)]], want[:1],
                       "get_method", "%s%r" % (n, a))
            if a == ():
                m = ci.get_method(n)
                ctx.eq([] if m is None else [idx[id(m)]], want[:1],
                       "get_method", n)
            want = [i for i, m in enumerate(ms)
                    if m[0] == n and m[1] == a and m[3] & BRIDGE]
            for q in (a, list(a), iter(a)):
                got = [idx[id(m)] for m in ci.get_method_bridges(n, q)]
                ctx.eq(got, want, "get_method_bridges", "%s%r" % (n, a))
        # identifiers tell apart what lookups tell apart
        ids = [m.get_identifier() for m in ci.methods]
        for i in range(len(ms)):
            for j in range(i):
                ctx.check(ids[i] != ids[j], "identifier:unique",
                          "%r and %r are both %r" % (ms[i], ms[j], ids[i]))
        pids = [m.pretty_identifier() for m in ci.methods]
        ctx.check(len(set(pids)) == len(pids), "identifier:pretty",
                  repr(pids))
        ctx.state(tuple(ms))
        ctx.outcome((len(ms), sum(m[3] >> 6 & 1 for m in ms)))
    return run


FLD = [("f", "I"), ("g", "J"), ("F", "I"), ("ff", "[I"), ("\u00e9", "D"),
       ("", "I")]


def fields(ctx):
    fs = []
    for k in range(4):
        f = ctx.choose("f%d" % k, [None] + [x for x in FLD if x not in fs])
        if f is None:
            break
        fs.append(f)
    spec = c01.base(fields=[dict(access=i, name=n, desc=d)
                            for i, (n, d) in enumerate(fs)],
                    methods=[dict(access=1, name="g", desc="()V")])
    ci = unpack_class(cf.encode_bytes(spec))
    for n in [x[0] for x in FLD] + ["absent"]:
        want = [i for i, f in enumerate(fs) if f[0] == n]
        f = ci.get_field_by_name(n)
        ctx.eq([] if f is None else [ci.fields.index(f)], want[:1],
               "field_by_name", n)
        if f is not None:
            ctx.eq(f.get_identifier(), n, "identifier")
            ctx.eq(f.get_descriptor(), dict(FLD)[n], "field:descriptor")
    ctx.state(tuple(fs))
    ctx.outcome(len(fs))


def harnesses(tier):
    t = tier == "thorough"
    return [
        Harness("methods", lookup(5 if t else 4), quota=300,
                describe="every ordered selection of up to %d of %d methods "
                "x every query" % (5 if t else 4, len(METH))),
        Harness("fields", fields, quota=100),
    ]
