"""C12: a class compared with itself or a relaid copy"""

import os

from vlib import classfile as cf
from vlib import edits
from vlib.explore import Harness
from checks import c01, c09

from javatools import unpack_class
from javatools import classdiff

ASSUMPTIONS = [
    "relaid copies keep the opcodes (ldc or ldc_w) and the order of the "
    "bootstrap method table",
    "two non-bridge methods of one class differ in name or arguments",
]

OPT = {}


def options(**kw):
    key = tuple(sorted(kw.items()))
    if key not in OPT:
        OPT[key] = classdiff.default_classdiff_options(
            dict(silent=True, **kw))
    return OPT[key]


def same(ctx, spec, o1, o2, cli=False):
    d1, p1 = cf.encode(spec, order=c01.order_of(spec, o1))
    d2, p2 = cf.encode(spec, order=c01.order_of(spec, o2))
    l, r = unpack_class(d1), unpack_class(d2)
    pool = p1.encode() != p2.encode()
    delta = classdiff.JavaClassChange(l, r)
    delta.check()
    got = sorted(edits.leaves(delta))
    want = [("ClassConstantPoolChange", "")] if pool else []
    ctx.eq(got, want, "c12:leaves", "%s/%s" % (o1, o2))
    ctx.eq(bool(delta.is_change()), pool, "c12:change")
    for c in edits.every(delta):
        if c.is_change() and type(c).__name__ not in (
                "JavaClassChange", "ClassConstantPoolChange"):
            ctx.fail("c12:sub", "%s is changed" % c.get_description())
        ctx.step()
    ctx.eq(classdiff.cli_classes_diff(options(), l, r), int(pool),
           "c12:exit")
    ctx.eq(classdiff.cli_classes_diff(options(ignore_pool=True), l, r), 0,
           "c12:exit-ignore-pool")
    if cli:
        for n, d in (("L.class", d1), ("R.class", d2)):
            with open(os.path.join(ctx.tmpdir, n), "wb") as fd:
                fd.write(d)
        a = [os.path.join(ctx.tmpdir, n) for n in ("L.class", "R.class")]
        for flags, want in (([], int(pool)), (["--ignore-pool"], 0),
                            (["--ignore=pool"], 0), (["-v"], int(pool)),
                            (["--json"], int(pool))):
            ctx.eq(classdiff.main(["classdiff"] + flags + a), want,
                   "c12:cli", repr(flags))
    ctx.state(d1 + d2)
    ctx.outcome(pool)


LAYOUTS = [("natural", "natural"), ("natural", "reversed"),
           ("natural", "padded"), ("widefirst", "reversed"),
           ("padded", "widefirst")]


def edited(n):
    def run(ctx):
        base = ctx.choose("base", [edits.base, edits.small])
        names = []
        for i in range(n):
            e = ctx.choose("e%d" % i, [None] + edits.NAMES[
                edits.NAMES.index(names[-1]) + 1 if names else 0:])
            if e is None:
                break
            names.append(e)
        spec = edits.apply(base(), names)
        if spec is None:
            ctx.choose("n/a", [])
        spec.pop("_order", None)
        o1, o2 = ctx.choose("layout", LAYOUTS if n < 2 else LAYOUTS[1:2])
        same(ctx, spec, o1, o2, cli=n == 1 and o1 == "natural")
    return run


def attrs(ctx):
    kind = ctx.choose("kind", ["class", "field", "method"])
    pool = dict(method=c01.METHOD_ATTRS, field=c01.FIELD_ATTRS)
    pool["class"] = c01.CLASS_ATTRS
    a = ctx.choose("a", pool[kind], label=lambda x: x[0])
    b = ctx.choose("b", [None] + [x for x in pool[kind] if x[0] != a[0]],
                   label=lambda x: x[0] if x else "-")
    at = [a] + ([b] if b else [])
    if kind == "class":
        spec = c01.base(attrs=at)
    elif kind == "field":
        spec = c01.base(fields=[dict(access=1, name="f", desc="I",
                                     attrs=at)])
    else:
        spec = c01.base(methods=[dict(access=1, name="m", desc="()V",
                                      attrs=at)])
    o1, o2 = ctx.choose("layout", LAYOUTS)
    same(ctx, spec, o1, o2)


FLOATS = [("f", b) for b in (0, 0x80000000, 0x7fc00000, 0x7f800000,
                             0xff800000, 1)] + \
         [("d", b) for b in (0, 1 << 63, 0x7ff8 << 48, 0x7ff0 << 48, 1)] + \
         [("j", -1), ("j", 1 << 62), ("i", -1), ("s", ""),
          ("s", "\u00e9\0\U0001f600"), ("c", "[[I")]


def consts(ctx):
    """constants of every kind as operand, constant value, unused"""
    k = ctx.choose("const", FLOATS)
    where = ctx.choose("where", ["code", "field", "unused", "anno"])
    spec = edits.small()
    if where == "code":
        spec["methods"][0]["attrs"] = [("Code", dict(code=[
            ("ldc2_w" if k[0] in "jd" else "ldc_w", (k,)),
            ("return", ())]))]
    elif where == "field":
        if k[0] == "c":
            ctx.choose("n/a", [])
        spec["fields"][0]["attrs"] = [("ConstantValue", k)]
    elif where == "anno":
        if k[0] == "c":
            ctx.choose("n/a", [])
        spec["attrs"] = [("RuntimeVisibleAnnotations", [
            ("La;", [("v", (dict(f="F", d="D", j="J", i="I", s="s")[k[0]],
                            k[1])),
                     ("w", ("[", [(dict(f="F", d="D", j="J", i="I",
                                        s="s")[k[0]], k[1])]))])])]
    else:
        spec["consts"] = [k]
    o1, o2 = ctx.choose("layout", LAYOUTS)
    same(ctx, spec, o1, o2, cli=True)


def annos(ctx):
    v = ctx.choose("v", c09.VALUES, label=c09.LABEL)
    place = ctx.choose("place", c09.PLACES)
    attr = ctx.choose("attr", c09.ATTRS)
    spec = place(attr, [("La;", [("x", v), ("y", ("[", [v]))])])
    o1, o2 = ctx.choose("layout", LAYOUTS)
    same(ctx, spec, o1, o2)


def opcodes(ctx):
    """every opcode with a constant, and switches at each alignment"""
    from vlib import opc
    name = ctx.choose("op", sorted(opc.NAME[c] for c in opc.CONST) +
                      ["tableswitch", "lookupswitch", "wide", "goto_w"])
    pad = ctx.choose("pad", [0, 1, 2, 3])
    arg = {
        "tableswitch": (8, -1, 1, [0, 4, 8]),
        "lookupswitch": (8, [(-7, 0), (9, 4)]), "wide": (0x84, 300, -300),
        "goto_w": (-70000,), "invokeinterface":
        (("ir", "x/I", "m", "()V"), 1, 0),
        "invokedynamic": (("id", 0, "n", "()V"), 0, 0),
        "multianewarray": (("c", "[[I"), 2),
        "ldc2_w": (("j", 5),), "ldc": (("s", "t"),),
        "ldc_w": (("c", "x/Y"),)}.get(name)
    if arg is None:
        if "field" in name or "static" in name and name[0] in "gp":
            arg = (("fr", "x/D", "f", "I"),)
        elif name.startswith("invoke"):
            arg = (("mr", "x/D", "m", "()V"),)
        else:
            arg = (("c", "x/Y"),)
    spec = edits.small()
    at = [("BootstrapMethods", [(("mh", 6, ("mr", "x/B", "b", "()V")),
                                 [])])] if name == "invokedynamic" else []
    spec["attrs"] = at
    spec["methods"][0]["attrs"] = [("Code", dict(
        code=[("nop", ())] * pad + [(name, arg), ("pop", ()),
                                    (name, arg), ("return", ())]))]
    o1, o2 = ctx.choose("layout", LAYOUTS)
    same(ctx, spec, o1, o2)


def harnesses(tier):
    t = tier == "thorough"
    return [
        Harness("edited1", edited(1), quota=40,
                describe="two base classes and each of %d edits of them x "
                "layouts" % len(edits.EDITS)),
        Harness("attrs", attrs, quota=60),
        Harness("consts", consts, quota=30),
        Harness("annos", annos, quota=60),
        Harness("opcodes", opcodes, quota=60),
    ] + ([Harness("edited2", edited(2), quota=60,
                  describe="all pairs of edits")] if t else [])
