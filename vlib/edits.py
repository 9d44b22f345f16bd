"""
Base classes, an alphabet of edits, and rdiff(): which differences two
class descriptions have, computed from the descriptions alone.
"""

import copy

from . import classfile as cf
from . import classview as cv
from . import opc

S = lambda t: ("s", t)
INIT = [("aload_0", ()),
        ("invokespecial", (("mr", "java/lang/Object", "<init>", "()V"),)),
        ("return", ())]
WORK = [("bipush", (5,)), ("sipush", (-300,)), ("ldc", (S("text"),)),
        ("ldc_w", (("i", 70000),)), ("ldc2_w", (("d", cf.dbits(1.5)),)),
        ("getstatic", (("fr", "x/D", "s", "I"),)),
        ("invokevirtual", (("mr", "x/D", "v", "(I)V"),)),
        ("invokeinterface", (("ir", "x/I", "i", "()V"), 1, 0)),
        ("new", (("c", "x/E"),)),
        ("multianewarray", (("c", "[[I"), 2)),
        ("iinc", (1, -1)), ("newarray", (10,)),
        ("iload", (4,)), ("goto", (-6,)),
        ("tableswitch", (40, 1, 3, [20, 24, 28])),
        ("lookupswitch", (40, [(-5, 20), (70000, 24)])),
        ("wide", (0x84, 300, -300)), ("ireturn", ())]
SHORT = [("ldc_w", (("c", "x/D"),)), ("ldc_w", (("f", cf.fbits(1.0)),)),
         ("areturn", ())]


def base():
    """the class the edits work on"""
    return dict(
        version=(50, 0), access=0x21, this="x/C", super="x/Base",
        interfaces=["x/I1", "x/I2"],
        fields=[
            dict(access=0x19, name="K", desc="I",
                 attrs=[("ConstantValue", ("i", 7))]),
            dict(access=2, name="g", desc="Ljava/util/List;",
                 attrs=[("Signature", "Ljava/util/List<TT;>;"),
                        ("RuntimeVisibleAnnotations",
                         [("Lx/A;", [("v", ("I", 1))])])]),
            dict(access=4, name="h", desc="[D")],
        methods=[
            dict(access=1, name="<init>", desc="()V",
                 attrs=[("Code", dict(stack=1, locals=1, code=INIT,
                                      attrs=[("LineNumberTable",
                                              [(0, 3), (4, 4)])]))]),
            dict(access=1, name="work", desc="(IJ)I",
                 attrs=[("Code", dict(
                     stack=4, locals=6, code=WORK,
                     exc=[(0, 5, 5, "java/lang/Exception"), (2, 9, 9, None)],
                     attrs=[("LineNumberTable",
                             [(0, 10), (5, 11), (9, 15)])])),
                     ("Exceptions", ["java/io/IOException", "x/Ex"]),
                     ("Signature", "<U:Ljava/lang/Object;>(IJ)I"),
                     ("RuntimeInvisibleAnnotations", [("Lx/A;", [])])]),
            dict(access=9, name="work", desc="(I)Ljava/lang/Object;",
                 attrs=[("Code", dict(stack=2, locals=2, code=SHORT)),
                        ("Deprecated",)]),
            dict(access=0x1041, name="work", desc="(I)Ljava/lang/Number;",
                 attrs=[("Code", dict(stack=2, locals=2, code=SHORT))]),
            dict(access=0x401, name="abs", desc="()V"),
            dict(access=0x102, name="nat", desc="([I)[J")],
        attrs=[("SourceFile", "C.java"), ("Deprecated",),
               ("Signature", "<T:Ljava/lang/Object;>Lx/Base;"),
               ("RuntimeVisibleAnnotations",
                [("Lx/A;", [("v", ("I", 1)), ("w", ("s", "t"))]),
                 ("Lx/B;", [])]),
               ("RuntimeInvisibleAnnotations", [("Lx/B;", [])])])


def small():
    return dict(version=(52, 0), access=0x21, this="S",
                super="java/lang/Object", interfaces=[],
                fields=[dict(access=1, name="f", desc="I")],
                methods=[dict(access=1, name="m", desc="()V",
                              attrs=[("Code", dict(
                                  stack=1, locals=1,
                                  code=[("ldc", (("i", 1),)),
                                        ("return", ())]))])],
                attrs=[])


class NotApplicable(Exception):
    pass


EDITS = []


def edit(group, name):
    def deco(fn):
        EDITS.append((group, name, fn))
        return fn
    return deco


def setattr_(holder, name, *val):
    """replace, add or (no val) remove an attribute"""
    at = list(holder.get("attrs", ()))
    new = [a for a in at if a[0] != name]
    if val:
        a = (name,) + tuple(v for v in val if v is not Ellipsis)
        for i, o in enumerate(at):
            if o[0] == name:
                new.insert(i, a)
                break
        else:
            new.append(a)
    elif len(new) == len(at):
        raise NotApplicable()
    holder["attrs"] = new


def pick(lst, i):
    try:
        return lst[i]
    except IndexError:
        raise NotApplicable()


def simple(group, name, key, value):
    @edit(group, name)
    def fn(c):
        if c[key] == value:
            raise NotApplicable()
        c[key] = value


simple("class", "name", "this", "x/C2")
simple("version", "version-up", "version", (51, 0))
simple("version", "version-down", "version", (49, 0))
simple("version", "minor-up", "version", (50, 3))
simple("version", "same-platform", "version", (45, 3))
simple("version", "java9", "version", (53, 0))
simple("version", "java17", "version", (61, 0))
simple("class", "super", "super", "x/Base2")
simple("class", "super-none", "super", None)
simple("class", "iface-removed", "interfaces", ["x/I1"])
simple("class", "iface-added", "interfaces", ["x/I1", "x/I2", "x/I3"])
simple("class", "iface-replaced", "interfaces", ["x/I1", "x/I4"])
simple("class", "iface-order", "interfaces", ["x/I2", "x/I1"])
simple("class", "iface-none", "interfaces", [])
for _b in (0x1, 0x10, 0x20, 0x200, 0x400, 0x1000, 0x4000, 0x8000):
    def _flag(c, _b=_b):
        c["access"] ^= _b
    edit("class", "flag-%#x" % _b)(_flag)


def attr_edit(group, name, where, attr, *val):
    """where: function class -> holder"""
    def fn(c):
        setattr_(where(c), attr, *val)
    edit(group, name)(fn)


K = lambda c: c
attr_edit("class", "signature", K, "Signature", "<T:Lx/Y;>Lx/Base;")
attr_edit("class", "signature-removed", K, "Signature")
attr_edit("class", "sourcefile", K, "SourceFile", "D.java")
attr_edit("class", "inner", K, "InnerClasses", [("x/C$I", "x/C", "I", 1)])


@edit("deprecated", "class-deprecated")
def _dep(c):
    if cv.find(c["attrs"], "Deprecated"):
        setattr_(c, "Deprecated")
    else:
        setattr_(c, "Deprecated", Ellipsis)


A1, A2 = ("Lx/A;", [("v", ("I", 1)), ("w", ("s", "t"))]), ("Lx/B;", [])
for _n, _v in (("removed", None), ("fewer", [A1]), ("order", [A2, A1]),
               ("value", [("Lx/A;", [("v", ("I", 2)), ("w", ("s", "t"))]),
                          A2]),
               ("keyorder", [("Lx/A;", [("w", ("s", "t")), ("v", ("I", 1))]),
                             A2]),
               ("tag", [("Lx/A;", [("v", ("J", 1)), ("w", ("s", "t"))]),
                        A2]),
               ("more", [A1, A2, A2]), ("type", [("Lx/Z;", A1[1]), A2])):
    attr_edit("class", "anno-" + _n, K, "RuntimeVisibleAnnotations",
              *(() if _v is None else (_v,)))
attr_edit("class", "ianno-removed", K, "RuntimeInvisibleAnnotations")
attr_edit("class", "ianno-value", K, "RuntimeInvisibleAnnotations",
          [("Lx/B;", [("v", ("s", "x"))])])


@edit("class", "anno-moved-invisible")
def _mv(c):
    setattr_(c, "RuntimeVisibleAnnotations", [A1])
    setattr_(c, "RuntimeInvisibleAnnotations", [A2, A2])


@edit("pool", "pool-unused")
def _pu(c):
    c.setdefault("consts", []).append(("u", "unused"))


@edit("pool", "pool-wide")
def _pw(c):
    c.setdefault("consts", []).append(("j", 123))


@edit("pool", "pool-order")
def _po(c):
    c["_order"] = "reversed"


# -- members

for _i in range(3):
    F = lambda c, _i=_i: pick(c["fields"], _i)
    if _i != 1:
        attr_edit("field", "f%d-const" % _i, F, "ConstantValue", ("i", 8))
        attr_edit("field", "f%d-const0" % _i, F, "ConstantValue", ("i", 0))
        attr_edit("field", "f%d-constempty" % _i, F, "ConstantValue",
                  S(""))
    attr_edit("field", "f%d-sig" % _i, F, "Signature", "TT;")
    attr_edit("field", "f%d-anno" % _i, F, "RuntimeVisibleAnnotations",
              [A2])
    attr_edit("field", "f%d-ianno" % _i, F, "RuntimeInvisibleAnnotations",
              [A2])
    attr_edit("deprecated", "f%d-deprecated" % _i, F, "Deprecated",
              Ellipsis)

    def _fdesc(c, F=F):
        F(c)["desc"] = "[J"
    edit("field", "f%d-type" % _i)(_fdesc)

    def _fname(c, F=F):
        F(c)["name"] += "2"
    edit("members", "f%d-renamed" % _i)(_fname)

    def _frem(c, _i=_i):
        pick(c["fields"], _i)
        del c["fields"][_i]
    edit("members", "f%d-removed" % _i)(_frem)
    for _b in (1, 2, 8, 0x10, 0x40, 0x80, 0x1000):
        def _ff(c, F=F, _b=_b):
            F(c)["access"] ^= _b
        edit("field", "f%d-flag-%#x" % (_i, _b))(_ff)
attr_edit("field", "f0-const-removed", lambda c: pick(c["fields"], 0),
          "ConstantValue")
attr_edit("field", "f1-sig-removed", lambda c: pick(c["fields"], 1),
          "Signature")


@edit("added", "field-added")
def _fa(c):
    c["fields"].append(dict(access=1, name="new", desc="Z"))


@edit("added", "field-added-first")
def _fa1(c):
    c["fields"].insert(0, dict(access=2, name="new0", desc="Z"))


@edit("pool", "field-order")
def _fo(c):
    c["fields"].reverse()


@edit("pool", "method-order")
def _mo(c):
    c["methods"].reverse()


for _i in range(6):
    M = lambda c, _i=_i: pick(c["methods"], _i)
    attr_edit("method", "m%d-sig" % _i, M, "Signature", "<Q:Lx/Q;>()V")
    attr_edit("method", "m%d-exceptions" % _i, M, "Exceptions",
              ["x/Ex", "java/io/IOException"])
    attr_edit("method", "m%d-exceptions1" % _i, M, "Exceptions", ["x/Ex"])
    attr_edit("method", "m%d-anno" % _i, M, "RuntimeVisibleAnnotations",
              [A1, A2])
    attr_edit("method", "m%d-ianno" % _i, M, "RuntimeInvisibleAnnotations",
              [A2])

    def _mdep(c, M=M):
        m = M(c)
        if cv.find(m.get("attrs", ()), "Deprecated"):
            setattr_(m, "Deprecated")
        else:
            setattr_(m, "Deprecated", Ellipsis)
    edit("deprecated", "m%d-deprecated" % _i)(_mdep)

    def _mret(c, M=M):
        m = M(c)
        m["desc"] = m["desc"][:m["desc"].index(")") + 1] + "[B"
    edit("method", "m%d-return" % _i)(_mret)

    def _margs(c, M=M):
        m = M(c)
        m["desc"] = "(Z" + m["desc"][1:]
    edit("members", "m%d-args" % _i)(_margs)

    def _mren(c, M=M):
        M(c)["name"] += "2"
    edit("members", "m%d-renamed" % _i)(_mren)

    def _mrem(c, _i=_i):
        pick(c["methods"], _i)
        del c["methods"][_i]
    edit("members", "m%d-removed" % _i)(_mrem)
    for _b in (1, 2, 4, 8, 0x10, 0x20, 0x80, 0x800):
        def _mf(c, M=M, _b=_b):
            M(c)["access"] ^= _b
        edit("method", "m%d-flag-%#x" % (_i, _b))(_mf)


@edit("added", "method-added")
def _ma(c):
    c["methods"].append(dict(access=0x401, name="new", desc="()V"))


@edit("added", "overload-added")
def _oa(c):
    c["methods"].insert(0, dict(
        access=1, name="work", desc="()V",
        attrs=[("Code", dict(code=[("return", ())]))]))


@edit("added", "bridge-added")
def _ba(c):
    c["methods"].append(dict(access=0x1041, name="work",
                             desc="(I)Ljava/lang/Integer;", attrs=[
                                 ("Code", dict(code=SHORT))]))


@edit("method", "made-abstract")
def _mabs(c):
    setattr_(pick(c["methods"], 1), "Code")


@edit("method", "made-concrete")
def _mconc(c):
    m = [m for m in c["methods"] if m["name"] == "abs"]
    setattr_(pick(m, 0), "Code", dict(code=[("return", ())], attrs=[]))


# -- code

def codeof(m):
    c = cv.find(m.get("attrs", ()), "Code")
    if c is None or c is True:
        raise NotApplicable()
    return c


def code_edit(group, name, i, fn):
    def f(c):
        fn(codeof(pick(c["methods"], i)))
    edit(group, name)(f)


def put(k, v):
    def f(code):
        if code.get(k) == v:
            raise NotApplicable()
        code[k] = v
    return f


def lines(fn):
    def f(code):
        lnt = cv.find(code.get("attrs", ()), "LineNumberTable")
        if not lnt:
            raise NotApplicable()
        setattr_(code, "LineNumberTable", fn(lnt))
    return f


def instr(k, name, *args):
    def f(code):
        ins = list(code["code"])
        n = len(opc.assemble([(name, plain(name, args))])[0])
        pick(ins, k)
        ins[k] = (name, args)
        code["code"] = ins
    return f


def plain(name, args):
    return tuple(1 if isinstance(a, tuple) and name not in
                 ("lookupswitch",) else a for a in args)


for _i in (0, 1):
    code_edit("method", "m%d-stack" % _i, _i, put("stack", 9))
    code_edit("method", "m%d-locals" % _i, _i, put("locals", 9))
    code_edit("method", "m%d-exc" % _i, _i,
              put("exc", [(0, 5, 5, "java/lang/Exception")]))
    code_edit("method", "m%d-exc-type" % _i, _i,
              put("exc", [(0, 5, 5, "x/Ex"), (2, 9, 9, None)]))
    code_edit("method", "m%d-exc-any" % _i, _i,
              put("exc", [(0, 5, 5, "java/lang/Exception"),
                          (2, 9, 9, "x/Ex")]))
    code_edit("method", "m%d-exc-range" % _i, _i,
              put("exc", [(0, 5, 5, "java/lang/Exception"),
                          (2, 10, 9, None)]))
    code_edit("method", "m%d-exc-handler" % _i, _i,
              put("exc", [(0, 5, 5, "java/lang/Exception"),
                          (2, 9, 10, None)]))
    code_edit("method", "m%d-exc-order" % _i, _i,
              put("exc", [(2, 9, 9, None),
                          (0, 5, 5, "java/lang/Exception")]))
    code_edit("alines", "m%d-lines-shift" % _i, _i,
              lines(lambda t: [(o, n + 7) for o, n in t]))
    code_edit("rlines", "m%d-lines-stretch" % _i, _i,
              lines(lambda t: t[:1] + [(o, n + 7) for o, n in t[1:]]))
    code_edit("rlines", "m%d-lines-last" % _i, _i,
              lines(lambda t: t[:-1] + [(t[-1][0], t[-1][1] + 1)]))
    code_edit("rlines", "m%d-lines-offset" % _i, _i,
              lines(lambda t: t[:-1] + [(t[-1][0] - 1, t[-1][1])]))
    code_edit("rlines", "m%d-lines-fewer" % _i, _i,
              lines(lambda t: t[:-1]))

    def _lrem(code):
        setattr_(code, "LineNumberTable")
    code_edit("rlines", "m%d-lines-removed" % _i, _i, _lrem)

for _n, _e in [
        ("bipush", instr(0, "bipush", 6)),
        ("sipush", instr(1, "sipush", 300)),
        ("ldc-text", instr(2, "ldc", S("texu"))),
        ("ldc-int", instr(2, "ldc", ("i", 5))),
        ("ldc_w-value", instr(3, "ldc_w", ("i", 70001))),
        ("ldc_w-float", instr(3, "ldc_w", ("f", cf.fbits(70000.0)))),
        ("ldc2-value", instr(4, "ldc2_w", ("d", cf.dbits(2.5)))),
        ("ldc2-long", instr(4, "ldc2_w", ("j", 1))),
        ("getstatic-class", instr(5, "getstatic", ("fr", "x/E", "s", "I"))),
        ("getstatic-name", instr(5, "getstatic", ("fr", "x/D", "t", "I"))),
        ("getstatic-type", instr(5, "getstatic", ("fr", "x/D", "s", "J"))),
        ("putstatic", instr(5, "putstatic", ("fr", "x/D", "s", "I"))),
        ("call-desc", instr(6, "invokevirtual",
                            ("mr", "x/D", "v", "(J)V"))),
        ("call-special", instr(6, "invokespecial",
                               ("mr", "x/D", "v", "(I)V"))),
        ("icall-count", instr(7, "invokeinterface",
                              ("ir", "x/I", "i", "()V"), 2, 0)),
        ("new", instr(8, "new", ("c", "x/F"))),
        ("multi-type", instr(9, "multianewarray", ("c", "[[J"), 2)),
        ("multi-dims", instr(9, "multianewarray", ("c", "[[I"), 1)),
        ("iinc-index", instr(10, "iinc", 2, -1)),
        ("iinc-const", instr(10, "iinc", 1, 1)),
        ("newarray", instr(11, "newarray", 11)),
        ("iload", instr(12, "iload", 5)),
        ("iload-aload", instr(12, "aload", 4)),
        ("goto", instr(13, "goto", 6)),
        ("tswitch-default", instr(14, "tableswitch", 44, 1, 3,
                                  [20, 24, 28])),
        ("tswitch-low", instr(14, "tableswitch", 40, 2, 4, [20, 24, 28])),
        ("tswitch-target", instr(14, "tableswitch", 40, 1, 3,
                                 [20, 24, 20])),
        ("tswitch-more", instr(14, "tableswitch", 40, 1, 4,
                               [20, 24, 28, 28])),
        ("lswitch-default", instr(15, "lookupswitch", 44,
                                  [(-5, 20), (70000, 24)])),
        ("lswitch-key", instr(15, "lookupswitch", 40,
                              [(-4, 20), (70000, 24)])),
        ("lswitch-target", instr(15, "lookupswitch", 40,
                                 [(-5, 20), (70000, 20)])),
        ("wide-index", instr(16, "wide", 0x84, 301, -300)),
        ("wide-const", instr(16, "wide", 0x84, 300, 300)),
        ("wide-op", instr(16, "wide", 0x15, 300)),
        ("last-op", instr(17, "freturn")),
        ("first-op", instr(0, "ldc", ("i", 5)))]:
    code_edit("method", "code-" + _n, 1, _e)


def _longer(code):
    code["code"] = list(code["code"]) + [("nop", ())]


def _shorter(code):
    code["code"] = list(code["code"])[:-1]


for _i in (0, 1, 2, 3):
    code_edit("method", "m%d-code-longer" % _i, _i, _longer)
    code_edit("method", "m%d-code-shorter" % _i, _i, _shorter)
code_edit("method", "code-string-for-class", 2,
          instr(0, "ldc_w", S("x/D")))
code_edit("method", "code-int-for-float", 2, instr(1, "ldc_w", ("i", 1)))
code_edit("method", "code-negzero", 2,
          instr(1, "ldc_w", ("f", 0x80000000)))
code_edit("method", "code-zero", 2, instr(1, "ldc_w", ("f", 0)))

NAMES = [e[1] for e in EDITS]
assert len(set(NAMES)) == len(NAMES)
BYNAME = {e[1]: e for e in EDITS}


def apply(spec, names):
    """edited deep copy of spec, or None when an edit does not apply"""
    c = copy.deepcopy(spec)
    try:
        for n in names:
            BYNAME[n][2](c)
    except (NotApplicable, ValueError):
        return None
    # outside of the domain of the comparison: members it cannot tell apart
    ids = [mkey(m) for m in c["methods"]]
    if len(set(ids)) != len(ids) or \
       len({f["name"] for f in c["fields"]}) != len(c["fields"]):
        return None
    return c


def encode(spec, order=None):
    from checks.c01 import order_of
    order = spec.get("_order") or order
    s = {k: v for k, v in spec.items() if k != "_order"}
    return cf.encode(s, order=order_of(s, order) if order else None)


# -- reference differences

def mkey(m):
    args, _ = cf.parse_mdesc(m["desc"])
    return (m["name"], args, m["desc"] if m["access"] & 0x40 else None)


def constkey(sym, args):
    """meaning of an instruction's operands"""
    return args


def has(m, name):
    return cv.find(m.get("attrs", ()), name)


def annos(m, name):
    return [cv.r_anno(a) for a in has(m, name) or ()]


def kval(sym):
    """a constant by meaning: type and value, floats by representation"""
    return sym


def rdiff_code(a, b):
    if a is None and b is None:
        return set()
    if a is None or b is None:
        return {"MethodCodeChange"}
    out = set()
    la = [tuple(x) for x in cv.find(a.get("attrs", ()),
                                    "LineNumberTable") or ()]
    lb = [tuple(x) for x in cv.find(b.get("attrs", ()),
                                    "LineNumberTable") or ()]
    if la != lb:
        out.add("CodeAbsoluteLinesChange")
    if [(o, n - la[0][1]) for o, n in la] != \
       [(o, n - lb[0][1]) for o, n in lb]:
        out.add("CodeRelativeLinesChange")
    if a.get("stack", 2) != b.get("stack", 2):
        out.add("CodeStackChange")
    if a.get("locals", 2) != b.get("locals", 2):
        out.add("CodeLocalsChange")
    if [tuple(e) for e in a.get("exc", ())] != \
       [tuple(e) for e in b.get("exc", ())]:
        out.add("CodeExceptionChange")
    # layout of the code: symbols as operands
    pa, pb = cf.Pool(), cf.Pool()
    ca, lsta = cf.code_bytes(pa, a["code"])
    cb, lstb = cf.code_bytes(pb, b["code"])
    if len(ca) != len(cb) or [x[:2] for x in lsta] != \
       [x[:2] for x in lstb]:
        out |= {"CodeBodyChange", "CodeConstantsChange"}
    elif [i[1] for i in a["code"]] != [i[1] for i in b["code"]]:
        out.add("CodeConstantsChange")
    return out


def rdiff(a, b):
    """set of (leaf, who) by which the classes differ; without the pool"""
    out = set()

    def leaf(name, x, y, who=""):
        if x != y:
            out.add((name, who))

    leaf("ClassNameChange", a["this"], b["this"])
    leaf("ClassVersionChange", a["version"], b["version"])
    leaf("ClassPlatformChange", cv.platform(*a["version"]),
         cv.platform(*b["version"]))
    leaf("ClassSuperclassChange", a["super"] or "", b["super"] or "")
    leaf("ClassInterfacesChange", set(a["interfaces"]),
         set(b["interfaces"]))
    leaf("ClassAccessflagsChange", a["access"], b["access"])
    leaf("ClassDeprecationChange", bool(has(a, "Deprecated")),
         bool(has(b, "Deprecated")))
    leaf("ClassSignatureChange", has(a, "Signature"), has(b, "Signature"))
    leaf("ClassAnnotationsChange", annos(a, "RuntimeVisibleAnnotations"),
         annos(b, "RuntimeVisibleAnnotations"))
    leaf("ClassInvisibleAnnotationsChange",
         annos(a, "RuntimeInvisibleAnnotations"),
         annos(b, "RuntimeInvisibleAnnotations"))

    for kind, key, word in (("fields", lambda f: f["name"], "Field"),
                            ("methods", mkey, "Method")):
        A = {key(m): m for m in a[kind]}
        B = {key(m): m for m in b[kind]}
        for k in set(A) | set(B):
            who = repr(k)
            if k not in B:
                out.add((word + "Removed", who))
                continue
            if k not in A:
                out.add((word + "Added", who))
                continue
            x, y = A[k], B[k]
            leaf(word + "SignatureChange", has(x, "Signature"),
                 has(y, "Signature"), who)
            leaf(word + "AnnotationsChange",
                 annos(x, "RuntimeVisibleAnnotations"),
                 annos(y, "RuntimeVisibleAnnotations"), who)
            leaf(word + "InvisibleAnnotationsChange",
                 annos(x, "RuntimeInvisibleAnnotations"),
                 annos(y, "RuntimeInvisibleAnnotations"), who)
            leaf(word + "AccessflagsChange", x["access"], y["access"], who)
            leaf(word + "DeprecationChange", bool(has(x, "Deprecated")),
                 bool(has(y, "Deprecated")), who)
            if word == "Field":
                leaf("FieldTypeChange", x["desc"], y["desc"], who)
                leaf("FieldConstvalueChange", has(x, "ConstantValue"),
                     has(y, "ConstantValue"), who)
            else:
                leaf("MethodTypeChange", x["desc"], y["desc"], who)
                leaf("MethodExceptionsChange",
                     tuple(has(x, "Exceptions") or ()),
                     tuple(has(y, "Exceptions") or ()), who)
                cx, cy = has(x, "Code"), has(y, "Code")
                leaf("MethodAbstractChange", cx is None, cy is None, who)
                for n in rdiff_code(cx, cy):
                    out.add((n, who))
    return out


# -- what the code under test reports

SUPER = ("JavaClassChange", "JavaClassReport", "ClassInfoChange",
         "ClassFieldsChange", "ClassMethodsChange", "FieldChange",
         "MethodChange")


def vkey(m):
    """identity of a member of the code under test, as in rdiff"""
    if not m.is_method:
        return repr(m.get_name())
    d = m.get_descriptor()
    return repr(mkey(dict(name=m.get_name(), desc=d,
                          access=m.access_flags)))


def leaves(change, who=""):
    """changed leaves below a checked change"""
    out = set()
    name = type(change).__name__
    if name in ("FieldChange", "MethodChange"):
        who = vkey(change.ldata)
    if name in ("FieldAdded", "MethodAdded"):
        out.add((name, vkey(change.rdata)))
        return out
    if name in ("FieldRemoved", "MethodRemoved"):
        out.add((name, vkey(change.ldata)))
        return out
    if name == "MethodCodeChange" and change.is_change() and \
       None in (change.ldata, change.rdata):
        out.add((name, who))
        return out
    subs = change.collect()
    if subs:
        for s in subs:
            out |= leaves(s, who)
        return out
    if name not in SUPER and name != "MethodCodeChange" and \
       change.is_change():
        out.add((name, who))
    return out


def every(change):
    """the change and everything below it"""
    yield change
    for s in change.collect():
        for x in every(s):
            yield x
