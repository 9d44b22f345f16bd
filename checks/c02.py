"""C02: constant pool"""

from vlib import classfile as cf
from vlib import classview as cv
from vlib.explore import Harness

from javatools import unpack_class

ASSUMPTIONS = [
    "well-formed constant pools (every reference resolves, acyclic)",
    "strings are sequences of Unicode scalar values (no unpaired "
    "surrogates)",
]

S = [
    ("u", "x/A"), ("u", ""), ("i", 0), ("i", -1), ("f", 0x40490fdb),
    ("f", 0xff800000), ("j", -1 << 63), ("j", (1 << 63) - 1), ("d", 1),
    ("d", 0xc00921fb54442d18), ("c", "java/lang/String"), ("c", "[[Lx/Y;"),
    ("s", "text"), ("fr", "x/A", "f", "[I"),
    ("mr", "x/A", "m", "(I[Lx/B;)V"), ("ir", "x/I", "im", "()Lx/B;"),
    ("nt", "n", "J"), ("nt", "n", "(D)[[Z"), ("mid", "a", "b"),
    ("mh", 6, ("mr", "x/A", "boot", "()V")), ("mh", 1, ("fr", "x/A", "f",
                                                        "I")),
    ("mt", "(I)V"), ("dy", 3, "dn", "I"), ("id", 65535, "in", "(J)V"),
    ("mod", "java.base"), ("pkg", "x/y"),
]

TYPE = {"u": "Utf8", "i": "int", "f": "float", "j": "long", "d": "double",
        "c": "class", "s": "String", "fr": "Field", "mr": "Method",
        "ir": "InterfaceMethod", "nt": "NameAndType", "mid": "ModuleId",
        "mh": "MethodHandle", "mt": "MethodType", "dy": "Dynamic",
        "id": "InvokeDynamic", "mod": "Module", "pkg": "Package"}

BASE = dict(version=(55, 0), access=0x21, this="T", super=None)


def pc(n):
    return n.replace("/", ".")


def ptype(d):
    if d.startswith("("):
        a, r = cf.parse_mdesc(d)
        return "(%s)" % ",".join(map(cf.pretty_desc, a)), cf.pretty_desc(r)
    return cf.pretty_desc(d)


def pretty_deref(sym):
    """(exact value or None, parts the text has to contain)"""
    t = sym[0]
    if t in ("u", "s", "i", "f", "j", "d"):
        return cf.deref(sym), ()
    if t == "c":
        return pc(sym[1]), ()
    if t == "fr":
        return "%s.%s:%s" % (pc(sym[1]), sym[2], ptype(sym[3])), ()
    if t in ("mr", "ir"):
        a, r = ptype(sym[3])
        return "%s.%s%s:%s" % (pc(sym[1]), sym[2], a, r), ()
    if t == "nt":
        p = ptype(sym[2])
        return "%s:%s" % (sym[1], "".join(p)), ()
    if t == "mid":
        return "%s@%s" % sym[1:], ()
    if t == "mh":
        return None, (str(sym[1]), sym[2][1], sym[2][2], sym[2][3])
    if t in ("mt", "mod", "pkg"):
        return None, (sym[1],)
    return None, (str(sym[1]), sym[2], sym[3])


def check_pool(ctx, cp, pool):
    """cp: reference pool; pool: what the code under test unpacked"""

    n = cp.next
    ctx.eq(len(pool.consts), n, "pool:size")
    want = []
    for i in range(1, n):
        sym = cp.at.get(i)
        if sym is None:
            ctx.eq(tuple(pool.get_const(i)), (None, None), "pool:unusable",
                   "slot %d" % i)
            ctx.eq(tuple(pool.pretty_const(i)), (None, None),
                   "pool:unusable")
            ctx.eq(pool.pretty_deref_const(i), "", "pool:unusable")
            continue
        t, v = pool.get_const(i)
        ctx.eq(t, cf.TAG[sym[0]], "pool:tag", "const %d %r" % (i, sym))
        ref = cf.deref(sym)
        got = pool.deref_const(i)
        ctx.eq(cv.num(got), cv.num(ref), "pool:deref",
               "deref_const(%d) of %r" % (i, sym))
        if isinstance(ref, (int, float, str)):
            ctx.check(type(got) is type(ref), "pool:type",
                      "deref_const(%d) of %r is %r" % (i, sym, got))
        want.append((i, cf.TAG[sym[0]], cv.num(ref)))

        # raw value
        ch = tuple(cp(c) for c in cf.children(sym))
        if sym[0] in ("mh", "dy", "id"):
            raw = (sym[1],) + ch
        elif len(ch) == 1:
            raw = ch[0]
        elif ch:
            raw = ch
        else:
            raw = ref
        ctx.eq(cv.num(v), cv.num(raw), "pool:raw", "get_const(%d)" % i)

        # pretty forms
        pt, pv = pool.pretty_const(i)
        ctx.eq(pt, TYPE[sym[0]], "pretty:type", "%r" % (sym,))
        pv = str(pv)
        if sym[0] == "u":
            ctx.eq(pv, repr(sym[1])[1:-1], "pretty:utf8")
        elif sym[0] in ("i", "j"):
            ctx.eq(int(pv.rstrip("l")), sym[1], "pretty:int")
        elif sym[0] in ("f", "d"):
            ctx.eq(pv, "%f%s" % (ref, sym[0]), "pretty:float")
        else:
            idx = [int(x) for x in
                   "".join(c if c.isdigit() else " " for c in pv).split()]
            full = list(raw) if isinstance(raw, tuple) else [raw]
            ctx.eq(idx, full, "pretty:indices", "%r" % (sym,))
        exact, parts = pretty_deref(sym)
        pd = pool.pretty_deref_const(i)
        if exact is not None:
            ctx.eq(cv.num(pd), cv.num(exact), "pretty:deref", "%r" % (sym,))
        for p in parts:
            ctx.check(p in pd, "pretty:deref",
                      "pretty_deref_const of %r is %r" % (sym, pd))
    got = [(i, t, cv.num(v)) for i, t, v in pool.constants()]
    ctx.eq(got, want, "pool:constants")
    ctx.eq([(i, t) for i, t, v in pool.pretty_constants()],
           [(i, TYPE[cp.at[i][0]]) for i, t, v in want],
           "pool:pretty_constants")


def run_pool(ctx, order):
    data, cp = cf.encode(BASE, order=order)
    ci = unpack_class(data)
    check_pool(ctx, cp, ci.cpool)
    ctx.eq(ci.get_this(), "T", "pool:sync")
    ctx.state(data)


def sequences(limit):
    def run(ctx):
        order = []
        for k in range(limit):
            s = ctx.choose("c%d" % k, [None] + S)
            if s is None:
                break
            order.append(s)
        if ctx.choose("refs", ("forward", "backward")) == "backward":
            # every constant after the constants it refers to
            def put(s):
                for c in cf.children(s):
                    put(c)
                if s not in out:
                    out.append(s)
            out = []
            for s in order:
                put(s)
            order = out
        # identical constants may occur twice
        run_pool(ctx, order)
        ctx.outcome(tuple(s[0] for s in order))
    return run


CH = ["a", "\0", "\x7f", "\x80", "\u07ff", "\u0800", "\ud7ff", "\ue000",
      "\uffff", "\U00010000", "\U0001f600", "\U0010ffff", "'", "\\", "\n"]


def strings(limit):
    def run(ctx):
        s = []
        for k in range(limit):
            c = ctx.choose("ch%d" % k, [None] + CH)
            if c is None:
                break
            s.append(c)
        s = "".join(s)
        run_pool(ctx, [("u", s), ("s", s), ("c", s + "/q")])
        ctx.outcome(len(cf.mutf8(s)) - len(s))
    return run


def allchars(ctx):
    """every BMP code point, and every supplementary plane boundary"""
    blk = ctx.choose("block", list(range(256)) + ["planes"])
    if blk == "planes":
        chars = [chr((p << 16) + k) for p in range(1, 17)
                 for k in (0, 1, 0x3ff, 0x400, 0xfffe, 0xffff)]
    else:
        chars = [chr(blk << 8 | k) for k in range(256)
                 if not 0xd8 <= blk < 0xe0]
        if not chars:
            chars = ["-"]
    order = [("u", "<" + c + ">") for c in chars]
    order.append(("s", "".join(chars)))
    data, cp = cf.encode(BASE, order=order)
    pool = unpack_class(data).cpool
    for i, sym in cp.syms:
        ctx.eq(pool.deref_const(i), cf.deref(sym), "pool:deref",
               "constant %r" % (sym,))
    ctx.state(data)
    ctx.outcome(len(data))


def numbers(ctx):
    """bit patterns of every exponent / every power of two neighbourhood"""
    kind = ctx.choose("kind", ["i", "j", "f", "d"])
    bits = {"i": 32, "j": 64, "f": 32, "d": 64}[kind]
    k = ctx.choose("bit", list(range(bits)))
    vals = set()
    for d in (-2, -1, 0, 1, 2):
        vals.add(((1 << k) + d) % (1 << bits))
        vals.add((-(1 << k) + d) % (1 << bits))
        vals.add(((1 << k) ^ 0x5555555555555555) % (1 << bits))
    order = []
    for v in sorted(vals):
        if kind in "ij" and v >> (bits - 1):
            v -= 1 << bits
        order.append((kind, v))
    run_pool(ctx, order)
    ctx.outcome(kind)


def big(ctx):
    """pool sizes up to the format's limit; wide constants everywhere"""
    n = ctx.choose("n", [2, 127, 128, 255, 256, 257, 300, 32767, 32768,
                         65000])
    fill = ctx.choose("fill", ["u", "j", "mix"])
    order = []
    cnt = 0
    while cnt < n:
        k = fill if fill != "mix" else ("u" if cnt % 3 else "d")
        order.append(("u", "k%d" % cnt) if k == "u" else (k, cnt))
        cnt += 1 if k == "u" else 2
    order.append(("nt", "last", "J"))
    data, cp = cf.encode(BASE, order=order)
    pool = unpack_class(data).cpool
    ctx.eq(len(pool.consts), cp.next, "pool:size")
    for i, sym in cp.syms:
        ctx.eq(cv.num(pool.deref_const(i)), cv.num(cf.deref(sym)),
               "pool:deref", "const %d" % i)
    ctx.state(data)
    ctx.outcome((n, fill))


def equality(ctx):
    """two pools are equal exactly when their entries are"""
    pools = []
    for side in "ab":
        o = [ctx.choose(side + "0", S[:16]), ctx.choose(side + "1", S[:6])]
        data, cp = cf.encode(BASE, order=o)
        pools.append((data, unpack_class(data).cpool))
    (da, pa), (db, pb) = pools
    ctx.eq(pa == pb, da == db, "pool:equality")
    ctx.eq(pa != pb, da != db, "pool:equality")
    ctx.state(da + db)
    ctx.outcome(da == db)


def harnesses(tier):
    t = tier == "thorough"
    return [
        Harness("sequences", sequences(3), quota=400,
                describe="every pool prefix of up to 3 constants over 26 "
                "constants covering all 18 tags, forward and backward "
                "references"),
        Harness("strings", strings(4 if t else 3), quota=400,
                describe="every string over 15 boundary characters"),
        Harness("characters", allchars, quota=8,
                describe="every Unicode code point of the BMP"),
        Harness("numbers", numbers, quota=24),
        Harness("sizes", big, quota=2, timeout=60),
        Harness("equality", equality, quota=500),
    ]
