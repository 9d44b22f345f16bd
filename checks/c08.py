"""C08: line numbers"""

from vlib import classfile as cf
from vlib import opc
from vlib.explore import Harness
from checks import c01

from javatools import unpack_class

ASSUMPTIONS = [
    "line tables are ordered by strictly increasing code offset (as javac "
    "writes them); line numbers are arbitrary",
]

# instruction offsets 0, 2, 3, 6, 7
INSTR = [("bipush", (5,)), ("istore_0", ()), ("sipush", (300,)),
         ("istore_1", ()), ("return", ())]
OFFS = [0, 2, 3, 6, 7]


def ref_line(lnt, off):
    line = 0
    for o, l in lnt:
        if o <= off:
            line = l
    return line


def ref_groups(lnt, listing):
    if not lnt:
        return [(1, 1, listing)]
    out = []
    for ins in listing:
        l = ref_line(lnt, ins[0])
        if out and out[-1][0] == l:
            out[-1][2].append(ins)
        else:
            out.append((l, l - lnt[0][1], [ins]))
    return out


def check(ctx, lnt, instrs, extra=()):
    code, listing = opc.assemble(instrs)
    attrs = list(extra)
    if lnt is not None:
        attrs.append(("LineNumberTable", lnt))
    spec = c01.base(methods=[dict(access=1, name="m", desc="()V", attrs=[
        ("Code", dict(code=instrs, attrs=attrs))])])
    ci = unpack_class(cf.encode_bytes(spec))
    c = ci.methods[0].get_code()
    lnt = list(lnt or ())
    rel = [(o, l - lnt[0][1]) for o, l in lnt]
    order = ctx.choose("order", ["lines", "groups"])
    for what in (("lines", "groups") if order == "lines"
                 else ("groups", "lines", "groups")):
        if what == "lines":
            ctx.eq([tuple(x) for x in c.get_linenumbertable()], lnt,
                   "table")
            ctx.eq([tuple(x) for x in c.get_relativelinenumbertable()], rel,
                   "reltable")
            for off in range(len(code) + 2):
                ctx.eq(c.get_line_for_offset(off), ref_line(lnt, off),
                       "line_for_offset", "offset %d with %r" % (off, lnt))
        else:
            got = [(a, b, [(o, i, tuple(x)) for o, i, x in seq])
                   for a, b, seq in c.iter_code_by_lines()]
            want = ref_groups(lnt, listing)
            ctx.eq(got, [(a, b, [(o, i, tuple(x)) for o, i, x in seq])
                         for a, b, seq in want], "groups", "with %r" % lnt)
            flat = [i[0] for g in got for i in g[2]]
            ctx.eq(flat, [i[0] for i in listing], "groups:partition")
    ctx.state((tuple(lnt), len(instrs)))
    ctx.outcome(tuple(g[0] for g in ref_groups(lnt, listing)))


def tables(ctx):
    """every subset of instruction starts (and of offsets in between) with
    every assignment of lines"""
    lnt = []
    present = ctx.choose("table", [True, False])
    if present:
        for off in (0, 1, 2, 3, 6, 7, 9):
            l = ctx.choose("line@%d" % off, [None, 10, 11, 9])
            if l is not None:
                lnt.append((off, l))
    check(ctx, lnt if present else None, INSTR)


def edges(ctx):
    n = ctx.choose("instrs", [1, 2, 5])
    lnt = []
    for off in (0, 2, 3):
        l = ctx.choose("line@%d" % off, [None, 1, 65535, 0, 32768])
        if l is not None:
            lnt.append((off, l))
    check(ctx, lnt, INSTR[:n],
          extra=ctx.choose("extra", [
              [], [("LocalVariableTable", [(0, 1, "x", "I", 0)])]]))


def harnesses(tier):
    return [
        Harness("tables", tables, quota=300,
                describe="every line table over 7 offsets x 3 lines"),
        Harness("edges", edges, quota=100),
    ]
