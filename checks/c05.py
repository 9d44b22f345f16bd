"""C05: the disassembler against the JVM instruction set"""

import struct

from vlib import classfile as cf
from vlib import classview as cv
from vlib import opc
from vlib.explore import Harness
from checks import c01

from javatools import opcodes, unpack_class

ASSUMPTIONS = [
    "the reference instruction table (vlib/opc.py) was written from the "
    "JVM specification and validated with javap",
    "a switch's jump offsets may be reported as integers or 1-tuples",
]


def listing(code):
    return [(o, c, cv.norm_args(a)) for o, c, a in
            opcodes.disassemble(code)]


def check(ctx, instrs, start=0):
    code, want = opc.assemble(instrs)
    want = [(o, c, cv.norm_args(a)) for o, c, a in want]
    got = listing(code)
    if got != want:
        for i, w in enumerate(want):
            g = got[i] if i < len(got) else None
            if g != w:
                ctx.fail("dis:%s" % opc.NAME[w[1]],
                         "%r disassembled as %r, encoded %r" %
                         (code[:60], g, w))
        ctx.fail("dis:extra", "%r disassembled as %r" % (code[:60], got))
    ctx.step(len(want))
    ctx.state(code)
    return code, want


def table(ctx):
    c = ctx.choose("code", list(range(256)))
    if c not in opc.NAME:
        try:
            r = listing(bytes((c,)))
        except Exception as e:
            if isinstance(e, (MemoryError, RecursionError)):
                raise
        else:
            ctx.fail("table:undefined", "opcode %#x accepted: %r" % (c, r))
        ctx.outcome("undefined")
        ctx.step()
        return
    name = opc.NAME[c]
    ctx.eq(opcodes.get_opname_by_code(c), name, "table:name",
           "name of %#x" % c)
    for n in (name, name.upper(), name.capitalize()):
        ctx.eq(opcodes.get_opcode_by_name(n), c, "table:code", n)
    ctx.eq(bool(opcodes.has_const_arg(c)), c in opc.CONST, "table:const",
           "has_const_arg(%s)" % name)
    ctx.eq(bool(opcodes.get_arg_format(c)), bool(opc.KINDS[c]),
           "table:args", "get_arg_format(%s)" % name)
    if name != "monitorenter":
        ctx.eq(getattr(opcodes, "OP_" + name), c, "table:constant", name)
    ctx.state(c)
    ctx.outcome(opc.KINDS[c])


EDGE = {
    "B": [0, 1, 127, 128, 255], "L": [0, 1, 127, 128, 255],
    "K": [0, 1, 127, 128, 255], "b": [0, 1, 127, -1, -128],
    "k": [0, 1, 255, 256, 32767, 32768, 65535],
    "h": [0, 1, 255, 256, 32767, -1, -256, -32768],
    "i": [0, 1, 65535, 65536, 2147483647, -1, -65536, -2147483648],
}


def single(full):
    def run(ctx):
        c = ctx.choose("op", [c for c in sorted(opc.NAME)
                              if opc.KINDS[c] != "*"],
                       label=lambda c: opc.NAME[c])
        pad = ctx.choose("offset", [0, 1, 2, 3])
        kinds = opc.KINDS[c]
        name = opc.NAME[c]
        if len(kinds) == 1 and kinds in "BLKb" or full and kinds in (
                "h", "k"):
            lo, hi = {"b": (-128, 128), "h": (-32768, 32768),
                      "k": (0, 65536)}.get(kinds, (0, 256))
            step = 256
            blk = ctx.choose("block", list(range(lo, hi, step)))
            vals = [(v,) for v in range(blk, min(hi, blk + step))]
        else:
            vals = [()]
            for k in kinds:
                vals = [v + (x,) for v in vals for x in EDGE[k]]
        for args in vals:
            check(ctx, [("nop", ())] * pad + [(name, args), ("return", ())])
        ctx.outcome(name)
    return run


SHAPES = [
    ("nop", ()), ("bipush", (-1,)), ("ldc", (200,)), ("sipush", (-2,)),
    ("invokevirtual", (0x1234,)), ("goto", (-3,)), ("iinc", (255, -1)),
    ("invokeinterface", (0x4041, 2, 0)), ("invokedynamic", (258, 0, 0)),
    ("multianewarray", (772, 3)), ("goto_w", (-70000,)),
    ("wide", (0x15, 0x1516)), ("wide", (0x84, 0x8485, -0x7071)),
    ("tableswitch", (8, -1, 1, [1, -2, 3])),
    ("tableswitch", (0x10203, 5, 5, [0x55555])),
    ("lookupswitch", (9, [])), ("lookupswitch", (-1, [(-5, 6), (7, -8)])),
    ("return", ()), ("monitorenter", ()), ("newarray", (10,)),
]


def sequences(limit):
    def run(ctx):
        seq = []
        for k in range(limit):
            s = ctx.choose("i%d" % k, [None] + SHAPES)
            if s is None:
                break
            seq.append(s)
        check(ctx, seq)
        ctx.outcome(tuple(s[0] for s in seq))
    return run


def switches(ctx):
    kind = ctx.choose("kind", ["tableswitch", "lookupswitch"])
    pad = ctx.choose("offset", [0, 1, 2, 3, 4, 5])
    n = ctx.choose("n", [0, 1, 2, 3, 7, 255, 256, 257, 1000])
    vals = [0, 1, -1, 0x7fffffff, -0x80000000, 0x01020304]
    if kind == "tableswitch":
        if n == 0:
            ctx.choose("none", [])
        low = ctx.choose("low", [0, 1, -1, -n, -0x80000000,
                                 0x7fffffff - n + 1])
        op = (kind, (5, low, low + n - 1, [vals[i % 6] for i in range(n)]))
    else:
        op = (kind, (-5, [(i * 7 - 3, vals[i % 6]) for i in range(n)]))
    check(ctx, [("nop", ())] * pad + [op, ("ireturn", ())])
    ctx.outcome((kind, n))


def wides(ctx):
    c = ctx.choose("op", list(opc.WIDE_OK) + [opc.CODE["iinc"]],
                   label=lambda c: opc.NAME[c])
    pad = ctx.choose("offset", [0, 1])
    idx = ctx.choose("index", EDGE["k"])
    if opc.NAME[c] == "iinc":
        v = ctx.choose("const", EDGE["h"])
        op = ("wide", (c, idx, v))
    else:
        op = ("wide", (c, idx))
    check(ctx, [("nop", ())] * pad + [op, ("return", ())])
    ctx.outcome(opc.NAME[c])


def truncated(ctx):
    """bytecode ending inside an instruction is never disassembled"""
    pre = ctx.choose("first", [("nop", ()), ("iinc", (1, 2))])
    s = ctx.choose("last", [s for s in SHAPES if s[1]])
    code, want = opc.assemble([pre, s])
    start = want[-1][0]
    for k in range(start + 1, len(code)):
        try:
            got = listing(code[:k])
        except Exception as e:
            if isinstance(e, (MemoryError, RecursionError)):
                raise
        else:
            ctx.fail("dis:truncated", "%r cut to %d gave %r" %
                     (code, k, got))
        ctx.step()
        ctx.state(code[:k])
    ctx.outcome(s[0])


def inclass(ctx):
    """the same through a class file, twice (results may be cached)"""
    seqs = []
    for m in range(2):
        seqs.append([ctx.choose("m%d.%d" % (m, k), SHAPES)
                     for k in range(2)])
    spec = c01.base(methods=[
        dict(access=1, name="m%d" % i, desc="()V",
             attrs=[("Code", dict(code=q + [("return", ())]))])
        for i, q in enumerate(seqs)])
    ci = unpack_class(cf.encode_bytes(spec))
    codes = [m.get_code() for m in ci.methods]
    for rnd in range(2):
        for i, q in enumerate(seqs):
            code, want = opc.assemble(q + [("return", ())])
            want = [(o, c, cv.norm_args(a)) for o, c, a in want]
            got = [(o, c, cv.norm_args(a))
                   for o, c, a in codes[i].disassemble()]
            ctx.eq(got, want, "code:disassemble")
            ctx.eq(bytes(codes[i].code), code, "code:bytes")
    ctx.state(repr(seqs))
    ctx.outcome(len(got))


def harnesses(tier):
    t = tier == "thorough"
    return [
        Harness("table", table, quota=64, describe="all 256 opcode bytes"),
        Harness("single", single(t), quota=60,
                describe="every instruction x offset mod 4 x operand "
                "values (all 256 values of one-byte operands)"),
        Harness("sequences", sequences(4 if t else 3), quota=500,
                describe="every sequence of up to %d of %d instruction "
                "shapes" % (4 if t else 3, len(SHAPES))),
        Harness("switches", switches, quota=60),
        Harness("wide", wides, quota=60),
        Harness("truncated", truncated, quota=20),
        Harness("in-class", inclass, quota=500 if not t else 2000),
    ]
