"""
Reference JVM instruction table, written from JVMS chapter 6 (not from
the code under test); validated with javap at development time
(tools/validate_classfile.py).

operand kinds: B u1, b s1, H u2, h s2, i s4, L local index u1,
K u1 constant, k u2 constant
"""

import struct

_T = """
00 nop
01 aconst_null
02 iconst_m1
03 iconst_0
04 iconst_1
05 iconst_2
06 iconst_3
07 iconst_4
08 iconst_5
09 lconst_0
0a lconst_1
0b fconst_0
0c fconst_1
0d fconst_2
0e dconst_0
0f dconst_1
10 bipush b
11 sipush h
12 ldc K
13 ldc_w k
14 ldc2_w k
15 iload L
16 lload L
17 fload L
18 dload L
19 aload L
1a iload_0
1b iload_1
1c iload_2
1d iload_3
1e lload_0
1f lload_1
20 lload_2
21 lload_3
22 fload_0
23 fload_1
24 fload_2
25 fload_3
26 dload_0
27 dload_1
28 dload_2
29 dload_3
2a aload_0
2b aload_1
2c aload_2
2d aload_3
2e iaload
2f laload
30 faload
31 daload
32 aaload
33 baload
34 caload
35 saload
36 istore L
37 lstore L
38 fstore L
39 dstore L
3a astore L
3b istore_0
3c istore_1
3d istore_2
3e istore_3
3f lstore_0
40 lstore_1
41 lstore_2
42 lstore_3
43 fstore_0
44 fstore_1
45 fstore_2
46 fstore_3
47 dstore_0
48 dstore_1
49 dstore_2
4a dstore_3
4b astore_0
4c astore_1
4d astore_2
4e astore_3
4f iastore
50 lastore
51 fastore
52 dastore
53 aastore
54 bastore
55 castore
56 sastore
57 pop
58 pop2
59 dup
5a dup_x1
5b dup_x2
5c dup2
5d dup2_x1
5e dup2_x2
5f swap
60 iadd
61 ladd
62 fadd
63 dadd
64 isub
65 lsub
66 fsub
67 dsub
68 imul
69 lmul
6a fmul
6b dmul
6c idiv
6d ldiv
6e fdiv
6f ddiv
70 irem
71 lrem
72 frem
73 drem
74 ineg
75 lneg
76 fneg
77 dneg
78 ishl
79 lshl
7a ishr
7b lshr
7c iushr
7d lushr
7e iand
7f land
80 ior
81 lor
82 ixor
83 lxor
84 iinc Lb
85 i2l
86 i2f
87 i2d
88 l2i
89 l2f
8a l2d
8b f2i
8c f2l
8d f2d
8e d2i
8f d2l
90 d2f
91 i2b
92 i2c
93 i2s
94 lcmp
95 fcmpl
96 fcmpg
97 dcmpl
98 dcmpg
99 ifeq h
9a ifne h
9b iflt h
9c ifge h
9d ifgt h
9e ifle h
9f if_icmpeq h
a0 if_icmpne h
a1 if_icmplt h
a2 if_icmpge h
a3 if_icmpgt h
a4 if_icmple h
a5 if_acmpeq h
a6 if_acmpne h
a7 goto h
a8 jsr h
a9 ret L
aa tableswitch *
ab lookupswitch *
ac ireturn
ad lreturn
ae freturn
af dreturn
b0 areturn
b1 return
b2 getstatic k
b3 putstatic k
b4 getfield k
b5 putfield k
b6 invokevirtual k
b7 invokespecial k
b8 invokestatic k
b9 invokeinterface kBB
ba invokedynamic kBB
bb new k
bc newarray B
bd anewarray k
be arraylength
bf athrow
c0 checkcast k
c1 instanceof k
c2 monitorenter
c3 monitorexit
c4 wide *
c5 multianewarray kB
c6 ifnull h
c7 ifnonnull h
c8 goto_w i
c9 jsr_w i
"""

NAME = {}
CODE = {}
KINDS = {}
for _l in _T.split("\n"):
    _p = _l.split()
    if _p:
        _c = int(_p[0], 16)
        NAME[_c] = _p[1]
        CODE[_p[1]] = _c
        KINDS[_c] = _p[2] if len(_p) > 2 else ""

assert len(NAME) == 202 and sorted(NAME) == list(range(202))

CONST = frozenset(c for c, k in KINDS.items() if k[:1] in ("k", "K"))
BRANCH = frozenset(c for c, k in KINDS.items()
                   if k in ("h", "i") and NAME[c] != "sipush")
WIDE_OK = tuple(CODE[n] for n in (
    "iload", "fload", "aload", "lload", "dload", "istore", "fstore",
    "astore", "lstore", "dstore", "ret"))

_FMT = {"B": ">B", "b": ">b", "h": ">h", "i": ">i", "L": ">B", "K": ">B",
        "k": ">H"}


def assemble(instrs, start=0):
    """
    instrs: sequence of (name, args) where args are integers as the JVM
    reads them; tableswitch args (default, low, high, [offsets]),
    lookupswitch args (default, [(match, offset)...]), wide args
    (opcode, index[, const]).

    Returns (bytes, [(offset, opcode, args)]).
    """
    out = bytearray()
    listing = []
    for name, args in instrs:
        code = CODE[name]
        off = start + len(out)
        out.append(code)
        k = KINDS[code]
        if name == "tableswitch":
            while (start + len(out)) % 4:
                out.append(0)
            d, lo, hi, offs = args
            out += struct.pack(">iii", d, lo, hi)
            for o in offs:
                out += struct.pack(">i", o)
            listing.append((off, code, (d, lo, hi, list(offs))))
        elif name == "lookupswitch":
            while (start + len(out)) % 4:
                out.append(0)
            d, pairs = args
            out += struct.pack(">ii", d, len(pairs))
            for m, o in pairs:
                out += struct.pack(">ii", m, o)
            listing.append((off, code, (d, [tuple(p) for p in pairs])))
        elif name == "wide":
            out += struct.pack(">BH", args[0], args[1])
            if NAME[args[0]] == "iinc":
                out += struct.pack(">h", args[2])
            listing.append((off, code, tuple(args)))
        else:
            for kk, a in zip(k, args):
                out += struct.pack(_FMT[kk], a)
            assert len(k) == len(args), (name, args)
            listing.append((off, code, tuple(args)))
    return bytes(out), listing
