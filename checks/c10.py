"""C10: what a class provides and requires"""

from vlib import classfile as cf
from vlib.explore import Harness
from checks import c01

from javatools import unpack_class

ASSUMPTIONS = ["provided to the outside are the public members; references "
               "are what the constant pool names (classes, fields, methods)"]

ME = "x/C"
MEMBERS = [  # method?, flags, name, desc
    (0, 1, "f", "I"), (0, 0x19, "K", "[Lx/Y;"), (0, 2, "p", "J"),
    (0, 4, "q", "Z"), (0, 0, "d", "D"),
    (1, 1, "m", "()V"), (1, 1, "m", "(I[[Lx/Y;)Lx/C;"), (1, 2, "m", "(J)V"),
    (1, 4, "pm", "()I"), (1, 0, "dm", "()[J"), (1, 0x401, "<init>", "(B)V"),
    (1, 0x1041, "m", "()Ljava/lang/Object;"), (1, 0x4009, "s", "()V"),
]
REFS = [
    ("c", "x/C"), ("c", "x/D"), ("c", "x/C$I"), ("c", "[I"), ("c", "[[J"),
    ("c", "[Lx/C;"), ("c", "[Lx/Z;"), ("c", "[[[Lx/D;"),
    ("c", "java/lang/String"), ("c", "Lx"),
    ("fr", "x/C", "f", "I"), ("fr", "x/C", "f", "J"),
    ("fr", "x/C", "p", "J"), ("fr", "x/D", "f", "I"),
    ("mr", "x/C", "m", "()V"), ("mr", "x/C", "m", "(J)V"),
    ("mr", "x/C", "m", "(Z)V"), ("mr", "x/D", "m", "()V"),
    ("mr", "x/C", "pm", "()I"),
    ("ir", "x/I", "m", "([Lx/Q;D)V"), ("ir", "x/C", "dm", "()[J"),
    ("mr", "[I", "clone", "()Ljava/lang/Object;"),
    ("mr", "[[Lx/Z;", "clone", "()Ljava/lang/Object;"),
    ("s", "x/Text"), ("u", "x/Utf"), ("nt", "n", "Lx/NT;"), ("i", 7),
    ("j", 5), ("mt", "(Lx/MT;)V"),
    ("mh", 6, ("mr", "x/H", "h", "()V")),
    ("id", 0, "indy", "()Lx/Fn;"),
]
PATTERNS = [(), ("x.*",), ("java.lang.*", "x.D"), ("x.C",), ("*",),
            ("*.m(*",), ("x.?",), ("*:int",), ("x.D.*", "x.I.*"), ("",),
            ("x",)]


def glob(pat, s):
    if not pat:
        return not s
    if pat[0] == "*":
        return any(glob(pat[1:], s[i:]) for i in range(len(s) + 1))
    return bool(s) and pat[0] in ("?", s[0]) and glob(pat[1:], s[1:])


def keep(names, pats):
    return sorted(n for n in names if not any(glob(p, n) for p in pats))


def r_provides(spec, private):
    me = spec["this"].replace("/", ".")
    out = {me}
    for k in ("fields", "methods"):
        for m in spec[k]:
            if private or m["access"] & 1:
                out.add("%s.%s" % (me, cf.pretty_ident(m["name"],
                                                       m["desc"])))
    return out


def element(name):
    """class an array type name stands for; None for primitives"""
    n = name.lstrip("[")
    return n[1:-1].replace("/", ".") if n[0] == "L" else None


def r_requires(spec, syms):
    out = set()
    for s in syms:
        if s[0] == "c":
            out.add(element(s[1]) if s[1][0] == "["
                    else s[1].replace("/", "."))
        elif s[0] in ("fr", "mr", "ir"):
            if s[1][0] == "[":
                out.add(element(s[1]))
            else:
                out.add("%s.%s" % (s[1].replace("/", "."),
                                   cf.pretty_ident(s[2], s[3])))
    out.discard(None)
    return out - r_provides(spec, True)


def check(ctx, spec, order=None, pats=PATTERNS, rotate=True):
    data, cp = cf.encode(spec, order=order)
    ci = unpack_class(data)
    syms = [s for _, s in cp.syms]
    want = dict(pub=r_provides(spec, False), priv=r_provides(spec, True),
                req=r_requires(spec, syms))
    calls = dict(pub=lambda p: ci.get_provides(p),
                 priv=lambda p: ci.get_provides(p, private=True),
                 req=lambda p: ci.get_requires(p))
    seq = ctx.choose("calls", [("pub", "priv", "req", "pub"),
                               ("priv", "pub", "req", "priv"),
                               ("req", "pub", "priv", "req")])
    # which pattern list is asked about first: answers may be kept, but not
    # filtered ones
    first = ctx.choose("first", range(3)) if rotate else 0
    pats = pats[first:] + pats[:first]
    for what in seq:
        for p in pats:
            got = calls[what](p)
            ctx.eq(sorted(got), keep(want[what], p), "c10:" + what,
                   "%s ignoring %r" % (what, p))
            if isinstance(got, list):
                got[:] = ["junk"]
            got = calls[what](list(p))
            ctx.eq(sorted(got), keep(want[what], p), "c10:" + what,
                   "again")
    ctx.eq(sorted(ci.get_provides()), sorted(want["pub"]), "c10:pub")
    ctx.eq(sorted(ci.get_requires()), sorted(want["req"]), "c10:req")
    ctx.state(data)
    ctx.outcome((len(want["pub"]), len(want["priv"]), len(want["req"])))


def build(ms, **kw):
    return c01.base(
        this=ME,
        fields=[dict(access=f, name=n, desc=d) for k, f, n, d in ms
                if not k],
        methods=[dict(access=f, name=n, desc=d) for k, f, n, d in ms if k],
        **kw)


def provides(limit):
    def run(ctx):
        ms = []
        for i in range(limit):
            rest = MEMBERS[MEMBERS.index(ms[-1]) + 1:] if ms else MEMBERS
            m = ctx.choose("m%d" % i, [None] + rest)
            if m is None:
                break
            ms.append(m)
        check(ctx, build(ms), rotate=len(ms) < 3)
    return run


def requires(limit):
    def run(ctx):
        refs = []
        for i in range(limit):
            rest = REFS[REFS.index(refs[-1]) + 1:] if refs else REFS
            r = ctx.choose("r%d" % i, [None] + rest)
            if r is None:
                break
            refs.append(r)
        ms = ctx.choose("members", [[], MEMBERS])
        front = ctx.choose("front", [False, True])
        check(ctx, build(ms, consts=[] if front else refs),
              order=[("j", 1), ("d", 1)] + refs if front else None,
              pats=PATTERNS if len(refs) < 2 else PATTERNS[:4],
              rotate=len(refs) < 3)
    return run


WAYS = [
    ("super", lambda n: dict(super=n)),
    ("interface", lambda n: dict(interfaces=["x/First", n])),
    ("throws", lambda n: dict(methods=[dict(
        access=1, name="m", desc="()V", attrs=[("Exceptions", [n])])])),
    ("catch", lambda n: dict(methods=[dict(
        access=1, name="m", desc="()V", attrs=[("Code", dict(
            code=[("return", ())], exc=[(0, 1, 0, n)]))])])),
    ("new", lambda n: dict(methods=[dict(
        access=1, name="m", desc="()V", attrs=[("Code", dict(
            code=[("new", (("c", n),)), ("return", ())]))])])),
    ("ldc", lambda n: dict(methods=[dict(
        access=1, name="m", desc="()V", attrs=[("Code", dict(
            code=[("ldc", (("c", n),)), ("return", ())]))])])),
    ("call", lambda n: dict(methods=[dict(
        access=1, name="m", desc="()V", attrs=[("Code", dict(
            code=[("invokestatic", (("mr", n, "q", "(I)V"),)),
                  ("return", ())]))])])),
    ("icall", lambda n: dict(methods=[dict(
        access=1, name="m", desc="()V", attrs=[("Code", dict(
            code=[("invokeinterface", (("ir", n, "q", "(I)V"), 1, 0)),
                  ("return", ())]))])])),
    ("get", lambda n: dict(methods=[dict(
        access=1, name="m", desc="()V", attrs=[("Code", dict(
            code=[("getfield", (("fr", n, "q", "[J"),)),
                  ("return", ())]))])])),
    ("inner", lambda n: dict(attrs=[("InnerClasses",
                                     [(n, "x/C", "I", 1)])])),
    ("enclosing", lambda n: dict(attrs=[("EnclosingMethod", n, None)])),
    # no class constants: descriptors and annotations are just text
    ("fielddesc", lambda n: dict(fields=[dict(
        access=1, name="f", desc="L%s;" % n)])),
    ("anno", lambda n: dict(attrs=[("RuntimeVisibleAnnotations",
                                    [("L%s;" % n, [])])])),
    ("signature", lambda n: dict(attrs=[("Signature", "L%s<TT;>;" % n)])),
]


def ways(limit):
    def run(ctx):
        kw = {}
        used = []
        for i in range(limit):
            w = ctx.choose("way%d" % i, [None] + WAYS,
                           label=lambda x: x and x[0] or "-")
            if w is None:
                break
            n = ctx.choose("name%d" % i, ["x/D%d" % i, "x/C", "java/lang/Object",
                                          "x/Out$In"])
            for k, v in w[1](n).items():
                if k in ("attrs", "methods", "fields") and k in kw:
                    if k == "attrs" and v[0][0] in [a[0] for a in kw[k]]:
                        ctx.choose("dup", [])
                    if k == "methods":
                        v = [dict(v[0], name="m%d" % i)]
                    if k == "fields":
                        v = [dict(v[0], name="f%d" % i)]
                    kw[k] = kw[k] + v
                elif k in kw:
                    ctx.choose("dup", [])
                else:
                    kw[k] = v
            used.append(w[0])
        check(ctx, c01.base(**kw), pats=PATTERNS[:3],
              rotate=len(used) < 2)
    return run


def nosuper(ctx):
    this = ctx.choose("this", ["java/lang/Object", "C", "a/b/c/D$E$1"])
    acc = ctx.choose("access", [0x21, 0x20, 0x601])
    ms = ctx.choose("members", [[], MEMBERS, MEMBERS[:2]])
    spec = build(ms)
    spec.update(this=this, super=None, access=acc)
    check(ctx, spec)


def harnesses(tier):
    t = tier == "thorough"
    return [
        Harness("provides", provides(6 if t else 4), quota=200,
                describe="every set of up to 4 (6) of %d members" %
                len(MEMBERS)),
        Harness("requires", requires(4 if t else 3), quota=200,
                describe="every set of up to 3 (4) of %d references, with "
                "and without the members they name" % len(REFS)),
        Harness("ways", ways(3 if t else 2), quota=200,
                describe="up to two (three) of %d ways to refer to a class" %
                len(WAYS)),
        Harness("nosuper", nosuper, quota=50),
    ]
