"""C09: annotations are decoded and compared by meaning"""

from vlib import classfile as cf
from vlib import classview as cv
from vlib.explore import Harness
from checks import c01

from javatools import unpack_class

ASSUMPTIONS = ["element names are unique within one annotation",
               "NaN constants use the canonical bit pattern"]

NAN_F, NAN_D = 0x7fc00000, 0x7ff8000000000000
LEAF = [
    ("I", 0), ("I", 5), ("B", 5), ("C", 5), ("S", 5), ("Z", 1), ("Z", 0),
    ("I", -2147483648), ("J", 5), ("J", -1 << 63), ("J", 0),
    ("F", 0), ("F", 0x80000000), ("F", cf.fbits(5.0)), ("F", NAN_F),
    ("F", 0x7f800000),
    ("D", 0), ("D", 1 << 63), ("D", cf.dbits(5.0)), ("D", NAN_D),
    ("D", 0xfff0000000000000),
    ("s", ""), ("s", "5"), ("s", "Lx/E;"), ("s", "\u00e9\U0001f600\0"),
    ("c", "I"), ("c", "Lx/E;"), ("c", "[V"), ("c", "5"),
    ("e", ("Lx/E;", "K")), ("e", ("Lx/E;", "L")), ("e", ("Lx/F;", "K")),
    ("e", ("K", "Lx/E;")),
]
NEST = [
    ("@", ("Lx/N;", [])), ("@", ("Lx/O;", [])),
    ("@", ("Lx/N;", [("v", ("I", 5))])),
    ("@", ("Lx/N;", [("v", ("I", 6))])),
    ("@", ("Lx/N;", [("w", ("I", 5))])),
    ("@", ("Lx/N;", [("v", ("I", 5)), ("w", ("s", "x"))])),
    ("@", ("Lx/N;", [("w", ("s", "x")), ("v", ("I", 5))])),
    ("@", ("Lx/N;", [("v", ("F", NAN_F))])),
    ("@", ("Lx/N;", [("v", ("@", ("Lx/N;", [("v", ("J", 1))])))])),
    ("@", ("Lx/N;", [("v", ("@", ("Lx/N;", [("v", ("J", 2))])))])),
    ("[", []), ("[", [("I", 5)]), ("[", [("I", 5), ("I", 6)]),
    ("[", [("I", 6), ("I", 5)]), ("[", [("I", 5), ("I", 5)]),
    ("[", [("J", 5)]), ("[", [("s", "5")]), ("[", [("c", "5")]),
    ("[", [("[", [])]), ("[", [("[", [("I", 5)])]),
    ("[", [("[", [("I", 6)])]), ("[", [("[", []), ("[", [])]),
    ("[", [("@", ("Lx/N;", []))]), ("[", [("@", ("Lx/O;", []))]),
    ("[", [("e", ("Lx/E;", "K")), ("e", ("Lx/E;", "L"))]),
    ("[", [("e", ("Lx/E;", "L")), ("e", ("Lx/E;", "K"))]),
    ("[", [("D", NAN_D), ("F", 0x80000000)]),
    ("[", [("D", NAN_D), ("F", 0)]),
]
VALUES = LEAF + NEST
LABEL = lambda v: repr(v)[:80]

# where an annotation may be; name, spec from a list of annotations
def at_class(attr, annos):
    return c01.base(attrs=[(attr, annos)])


def at_field(attr, annos):
    return c01.base(fields=[dict(access=1, name="f", desc="I"),
                            dict(access=1, name="g", desc="I",
                                 attrs=[(attr, annos)])])


def at_method(attr, annos):
    return c01.base(methods=[dict(access=1, name="m", desc="(II)V",
                                  attrs=[(attr, annos), ("Deprecated",)])])


def at_param(attr, annos):
    return c01.base(methods=[dict(
        access=1, name="m", desc="(II)V",
        attrs=[(attr.replace("Annotations", "ParameterAnnotations"),
                [[], annos, [("Lx/P;", [])]])])])


PLACES = [at_class, at_field, at_method, at_param]
ATTRS = ["RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations"]
ORD = ["natural", "reversed", "padded"]


def compare(ctx, spec, order):
    data, cp = cf.encode(spec, order=c01.order_of(spec, order))
    ci = unpack_class(data)
    cv.compare(ctx, ci, spec, cp)
    ctx.state(data)
    return ci


def decode(n):
    def run(ctx):
        place = ctx.choose("place", PLACES)
        attr = ctx.choose("attr", ATTRS)
        order = ctx.choose("order", ORD if n < 2 else ORD[:1])
        pairs = []
        for i in range(n):
            pairs.append(("e%d" % i, ctx.choose("v%d" % i, VALUES,
                                                label=LABEL)))
        before = ctx.choose("before", [0, 1])
        after = ctx.choose("after", [0, 1])
        annos = [("Lx/First;", [("z", ("J", 9))])] * before + \
            [("Lx/A;", pairs)] + [("Lx/Last;", [])] * after
        compare(ctx, place(attr, annos), order)
        ctx.outcome((place.__name__, tuple(v[0] for _, v in pairs)))
    return run


def both(ctx):
    """visible and invisible annotations side by side, on all members"""
    v = ctx.choose("vis", [None, [], [c01.ANNO], [c01.ANNO2, c01.ANNO]])
    i = ctx.choose("inv", [None, [], [c01.ANNO2], [c01.ANNO, c01.ANNO2]])
    pv = ctx.choose("pvis", [None, [], [[]], [[c01.ANNO], []],
                             [[], [c01.ANNO2, c01.ANNO], [c01.ANNO]]])
    pi = ctx.choose("pinv", [None, [[c01.ANNO2]], [[], [], [c01.ANNO]]])
    flip = ctx.choose("flip", [False, True])
    ca = [(a, l) for a, l in zip(ATTRS, (v, i)) if l is not None]
    ma = ca + [(a.replace("Annot", "ParameterAnnot"), l)
               for a, l in zip(ATTRS, (pv, pi)) if l is not None]
    if flip:
        ca, ma = ca[::-1], ma[::-1]
    compare(ctx, c01.base(attrs=ca, fields=[
        dict(access=1, name="f", desc="I", attrs=ca)],
        methods=[dict(access=1, name="m", desc="(III)V", attrs=ma)]),
        "natural")
    ctx.outcome((v is None, i is None, pv is None, pi is None))


def default(ctx):
    v = ctx.choose("v", VALUES, label=LABEL)
    wrap = ctx.choose("wrap", ["plain", "array", "nested"])
    if wrap == "array":
        v = ("[", [v, v])
    elif wrap == "nested":
        v = ("@", ("Lx/W;", [("a", v), ("b", ("I", 1))]))
    spec = c01.base(access=0x2601, methods=[
        dict(access=0x401, name="v", desc="()I",
             attrs=[("AnnotationDefault", v)]),
        dict(access=0x401, name="w", desc="()I")])
    ci = compare(ctx, spec, ctx.choose("order", ORD))
    m = ci.get_method("v")
    got = m.deref_annotationdefault()
    ctx.eq(simple(got), plain(v), "default:deref")
    ctx.eq(ci.get_method("w").deref_annotationdefault(), None,
           "default:absent")
    ctx.outcome((wrap, v[0]))


def simple(got):
    """what deref_annotationdefault returned, annotations as data"""
    if isinstance(got, list):
        return [simple(g) for g in got]
    if hasattr(got, "type_ref"):
        return ("@",) + tuple(cv.v_anno(got))
    if isinstance(got, tuple):
        return tuple(got)
    return cv.num(got)


def plain(v):
    t, d = v
    if t == "[":
        return [plain(x) for x in d]
    if t == "@":
        return ("@",) + tuple(cv.r_anno(d))
    if t == "e":
        return tuple(d)
    return cv.r_ev(v)[1]


def equality(wrap):
    """every ordered pair of values, in classes with different layouts"""
    def run(ctx):
        a = ctx.choose("left", VALUES, label=LABEL)
        lay = ctx.choose("layout", ["natural", "reversed", "padded"])
        where = ctx.choose("where", [at_class, at_method])
        # all right hand sides at once: one annotation per value
        ta = ("Lx/A;", [("k", wrap(a))])
        rights = [("Lx/A;", [("k", wrap(b))]) for b in VALUES]
        rights += [("Lx/B;", [("k", wrap(a))]), ("Lx/A;", []),
                   ("Lx/A;", [("j", wrap(a))]),
                   ("Lx/A;", [("k", wrap(a)), ("j", ("I", 1))]),
                   ("Lx/A;", [("j", ("I", 1)), ("k", wrap(a))])]
        left = where("RuntimeVisibleAnnotations", [ta])
        right = where("RuntimeVisibleAnnotations", rights)
        lc = unpack_class(cf.encode_bytes(left))
        rc = unpack_class(cf.encode_bytes(
            right, order=c01.order_of(right, lay)))

        def annos(c):
            return (c if where is at_class else
                    c.methods[0]).get_annotations()
        la, = annos(lc)
        ra = annos(rc)
        ctx.eq(len(ra), len(rights), "count")
        for r, rs in zip(ra, rights):
            want = cv.r_anno(ta) == cv.r_anno(rs)
            if bool(la == r) != want or bool(r == la) != want or \
               bool(la != r) == want or bool(r != la) == want:
                ctx.fail("equality", "%r == %r is %r/%r (!= %r/%r)" %
                         (ta, rs, la == r, r == la, la != r, r != la))
            # and within one class
        ctx.step(4 * len(ra))
        for i, r in enumerate(ra):
            same = [j for j, q in enumerate(ra) if q == r]
            want = [j for j, q in enumerate(rights)
                    if cv.r_anno(q) == cv.r_anno(rights[i])]
            if same != want:
                ctx.fail("equality:same-class", "%r equals %r" %
                         (rights[i], [rights[j] for j in same]))
        ctx.step(len(ra) ** 2)
        ctx.state((repr(a), lay))
        ctx.outcome(a[0])
    return run


def ident(v):
    return v


def in_array(v):
    return ("[", [("I", 1), v])


def in_anno(v):
    return ("@", ("Lx/W;", [("q", v), ("p", ("s", "p"))]))


def perm(ctx):
    """element order is no part of the meaning"""
    import itertools
    n = ctx.choose("n", [2, 3])
    vs = [ctx.choose("v%d" % i, LEAF[::4] + NEST[::5], label=LABEL)
          for i in range(n)]
    pairs = [("e%d" % i, v) for i, v in enumerate(vs)]
    perms = [("Lx/A;", list(p)) for p in itertools.permutations(pairs)]
    spec = at_class("RuntimeVisibleAnnotations", perms)
    ci = compare(ctx, spec, "natural")
    an = ci.get_annotations()
    for a in an:
        for b in an:
            ctx.check(a == b and not a != b, "equality:order",
                      "annotations that only differ in element order: %r"
                      % (pairs,))
    # swapping two values is a difference, unless they are the same
    if n == 2:
        sw = unpack_class(cf.encode_bytes(at_class(
            "RuntimeVisibleAnnotations",
            [("Lx/A;", [("e0", vs[1]), ("e1", vs[0])])])))
        want = cv.r_ev(vs[0]) == cv.r_ev(vs[1])
        ctx.eq(sw.get_annotations()[0] == an[0], want, "equality:swapped")
    ctx.outcome(n)


def harnesses(tier):
    t = tier == "thorough"
    hs = [
        Harness("decode1", decode(1), quota=200,
                describe="every element value x place x visibility x layout "
                "x neighbours"),
        Harness("decode0", decode(0), quota=200),
        Harness("both", both, quota=100),
        Harness("default", default, quota=100),
        Harness("equal", equality(ident), quota=20,
                describe="all ordered pairs of %d values x 3 layouts" %
                len(VALUES)),
        Harness("equal-array", equality(in_array), quota=20),
        Harness("equal-nested", equality(in_anno), quota=20),
        Harness("perm", perm, quota=50),
    ]
    if t:
        hs.append(Harness("decode2", decode(2), quota=300))
    return hs
