"""C13: every difference is reported, under its category"""

from vlib import edits
from vlib.explore import Harness
from checks.c12 import options

from javatools import unpack_class
from javatools import classdiff

ASSUMPTIONS = [
    "categories are the leaf types of the change tree (public names of "
    "javatools.classdiff)",
    "parameter annotations, annotation defaults, local variable tables, "
    "inner class tables and source file are no category of the comparison",
]

SWAP = {"FieldAdded": "FieldRemoved", "FieldRemoved": "FieldAdded",
        "MethodAdded": "MethodRemoved", "MethodRemoved": "MethodAdded"}


def compare(ctx, a, b):
    da, pa = edits.encode(a)
    db, pb = edits.encode(b)
    want = edits.rdiff(a, b)
    if pa.encode() != pb.encode():
        want.add(("ClassConstantPoolChange", ""))
    for swapped in (False, True):
        l, r = unpack_class(da), unpack_class(db)
        if swapped:
            l, r = r, l
            want = {(SWAP.get(n, n), w) for n, w in want}
        delta = classdiff.JavaClassChange(l, r)
        delta.check()
        got = edits.leaves(delta)
        if got != want:
            miss = sorted(want - got)
            extra = sorted(got - want)
            ctx.fail("c13:%s:%s" % ("missed" if miss else "extra",
                                    (miss or extra)[0][0]),
                     "swapped=%s missed %r, unfounded %r" %
                     (swapped, miss, extra))
        ctx.step(len(want) + 1)
        ctx.eq(bool(delta.is_change()), bool(want), "c13:change")
        # a composite is a change exactly if a part is
        for c in edits.every(delta):
            subs = c.collect()
            if subs and not (type(c).__name__ == "MethodCodeChange" and
                             None in (c.ldata, c.rdata)):
                ctx.eq(bool(c.is_change()),
                       any(s.is_change() for s in subs), "c13:composite",
                       type(c).__name__)
        ctx.eq(classdiff.cli_classes_diff(options(), l, r), int(bool(want)),
               "c13:exit")
    ctx.state(da + db)
    ctx.outcome(tuple(sorted({n for n, _ in want}))[:6])


def one(ctx):
    base = ctx.choose("base", [edits.base, edits.small])
    e = ctx.choose("edit", edits.NAMES)
    b = edits.apply(base(), [e])
    if b is None:
        ctx.choose("n/a", [])
    compare(ctx, base(), b)


def two(ctx):
    e = ctx.choose("e1", edits.NAMES)
    f = ctx.choose("e2", edits.NAMES[edits.NAMES.index(e) + 1:])
    b = edits.apply(edits.base(), [e, f])
    if b is None:
        ctx.choose("n/a", [])
    compare(ctx, edits.base(), b)


def between(ctx):
    """edits on both sides"""
    e = ctx.choose("left", edits.NAMES)
    f = ctx.choose("right", edits.NAMES[edits.NAMES.index(e) + 1:])
    a = edits.apply(edits.base(), [e])
    b = edits.apply(edits.base(), [f])
    if a is None or b is None:
        ctx.choose("n/a", [])
    compare(ctx, a, b)


def small_edits(n):
    """larger edit sets on the small class"""
    names = [e for e in edits.NAMES
             if edits.apply(edits.small(), [e]) is not None]

    def run(ctx):
        sel = []
        for i in range(n):
            rest = names[names.index(sel[-1]) + 1:] if sel else names
            e = ctx.choose("e%d" % i, [None] + rest)
            if e is None:
                break
            sel.append(e)
        b = edits.apply(edits.small(), sel)
        if b is None:
            ctx.choose("n/a", [])
        compare(ctx, edits.small(), b)
    return run


def harnesses(tier):
    t = tier == "thorough"
    return [
        Harness("one", one, quota=20,
                describe="each of %d edits, both directions" %
                len(edits.EDITS)),
        Harness("two", two, quota=100,
                describe="every pair of edits of the rich base class"),
        Harness("small", small_edits(3 if t else 2), quota=100,
                describe="sets of edits of the small base class"),
    ] + ([Harness("between", between, quota=100,
                  describe="one edit left, another right")] if t else [])
