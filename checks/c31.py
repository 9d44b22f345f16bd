"""C31: the info commands"""

import itertools
import json
import os
import re

from vlib import classfile as cf
from vlib import classview as cv
from vlib import cli, edits, jars, opc, trees
from vlib.explore import Harness
from checks import c01, c02, c09, c11
from checks.c10 import keep, r_provides, r_requires

from javatools import classinfo, distinfo, jarinfo

ASSUMPTIONS = [
    "the output is compared line by line ignoring white space, blank lines "
    "and the order of the modifiers in a declaration",
    "one file for each command with JSON output",
    "the accessors the commands use are the subject of C01 to C11",
]


class Line(object):
    """an expected line"""

    def __init__(self, *words, **kw):
        self.words = " ".join(str(w) for w in words).split()
        self.anyorder = kw.get("anyorder", 0)
        self.has = kw.get("has")
        self.ints = kw.get("ints")

    def matches(self, text):
        got = text.split()
        if self.ints is not None:
            if got[:len(self.words)] != self.words:
                return False
            rest = " ".join(got[len(self.words):])
            return [int(x) for x in re.findall(r"-?\d+", rest)] == self.ints
        if self.has is not None:
            return got[:len(self.words)] == self.words and all(
                h in " ".join(got) for h in self.has)
        n = self.anyorder
        if n:
            return sorted(got[:n]) == sorted(self.words[:n]) and \
                got[n:] == self.words[n:]
        return got == self.words

    def __repr__(self):
        return " ".join(self.words) + (" ~%r" % (self.has or self.ints)
                                       if self.has or self.ints else "")


def compare(ctx, text, want, key="c31:text"):
    text = text.decode("utf-8")
    # both may or may not be on the line of the declaration
    text = re.sub(r"(?m)(\S)[ ]*\{$", r"\1\n{", text)
    text = re.sub(r"(?m)(\S.*)(Constants pool:)$", r"\1\n\2", text)
    got = [ln for ln in text.split("\n") if ln.strip()]
    for i, w in enumerate(want):
        if i >= len(got):
            ctx.fail(key, "ends before %r" % w)
        ctx.check(w.matches(got[i]), key, lambda: "line %d is %r instead of "
                  "%r" % (i, got[i], w))
    ctx.check(len(got) == len(want), key, lambda: "more lines: %r" %
              got[len(want):][:5])


def shows(show, flags):
    return show == "--private" or bool(flags & 1) or \
        show == "--package" and bool(flags & 4)


def annos(cp, attrs):
    lst = cv.find(attrs or (), "RuntimeVisibleAnnotations") or ()
    out = []
    if lst:
        out.append(Line("RuntimeVisibleAnnotations:"))
    for i, a in enumerate(lst):
        out.append(Line("%d:" % i, anno(cp, a)))
    return out


def anno(cp, a):
    """constants are shown by their place in the pool"""
    return "%s(%s)" % (cf.pretty_desc(a[0]), ", ".join(
        "%s=%s" % (k, element(cp, v)) for k, v in dict(a[1]).items()))


def element(cp, ev):
    tag, v = ev
    if tag == "@":
        return "@" + anno(cp, v)
    if tag == "[":
        return "[%s]" % ", ".join(element(cp, e) for e in v)
    if tag == "e":
        return "e#%d.#%d" % (cp(("u", v[0])), cp(("u", v[1])))
    kind = {"J": "j", "F": "f", "D": "d", "s": "u", "c": "u"}.get(tag, "i")
    return "%s#%d" % (tag, cp((kind, v)))


def const(v, sym):
    """type and text of a constant of the pool, as printed"""
    t = c02.TYPE[sym[0]]
    if sym[0] == "u":
        return t, repr(sym[1])[1:-1]
    if sym[0] in "fd":
        return t, "%f%s" % (cf.deref(sym), sym[0])
    return t, None


def r_const(cp, i):
    """(type, check of the printed value)"""
    sym = cp.at[i]
    t, text = const(None, sym)
    if text is not None:
        return t, lambda s: s.split() == text.split()
    if sym[0] in ("i", "j"):
        return t, lambda s: s.rstrip("l") == str(sym[1])
    ch = [cp(c) for c in cf.children(sym)]
    if sym[0] in ("mh", "dy", "id"):
        ch.insert(0, sym[1])
    return t, lambda s: [int(x) for x in re.findall(r"\d+", s)] == ch


class Const(object):

    def __init__(self, cp, i):
        self.i = i
        self.type, self.check = r_const(cp, i)

    def matches(self, text):
        m = re.match(r"\s*const #(\d+) =\s+(\S+)\s(.*);\Z", text, re.S)
        return bool(m) and m.group(1) == str(self.i) and \
            m.group(2) == self.type and self.check(m.group(3).strip("\t"))

    def __repr__(self):
        return "const #%d = %s" % (self.i, self.type)


def r_text(spec, cp, o):
    """the expected lines of the text output of a class"""
    r = cv.ref(spec, cp)
    if "--class-provides" in o or "--class-requires" in o:
        out = []
        syms = [s for _i, s in cp.syms]
        if "--class-provides" in o:
            out.append(Line("class", r["pretty_this"], "provides:"))
            out += [Line(s) for s in keep(r_provides(spec, False),
                                          o.get("--api-ignore", ()))]
        if "--class-requires" in o:
            out.append(Line("class", r["pretty_this"], "requires:"))
            out += [Line(s) for s in keep(r_requires(spec, syms),
                                          o.get("--api-ignore", ()))]
        return out
    verbose = "--verbose" in o
    show = o.get("show", "--public")
    out = []
    if r["sourcefile"]:
        out.append(Line("Compiled from \"%s\"" % r["sourcefile"]))
    members = show != "--header"
    out.append(Line(*r["pretty"], anyorder=len(r["words"]) + (
        not spec["access"] & 0x200)))
    if verbose or not members:
        if r["sourcefile"]:
            out.append(Line("SourceFile: \"%s\"" % r["sourcefile"]))
        if r["signature"]:
            out.append(Line("Signature:", r["signature"]))
        out += annos(cp, spec.get("attrs"))
        if r["enclosing"]:
            out.append(Line("EnclosingMethod:", r["enclosing"]))
        out.append(Line("minor version:", r["version"][1]))
        out.append(Line("major version:", r["version"][0]))
        if r["platform"] == "?":
            out.append(Line("Platform:", has=[]))
        else:
            out.append(Line("Platform:", r["platform"]))
    if "-p" in o or verbose:
        out.append(Line("Constants pool:"))
        out += [Const(cp, i) for i in range(1, cp.next) if i in cp.at]
    if not members:
        return out
    out.append(Line("{"))
    for m, f in zip(r["fields"], spec["fields"]):
        if shows(show, m["flags"]):
            out += r_field(cp, m, f, o, verbose)
    for m, s in zip(r["methods"], spec["methods"]):
        if shows(show, m["flags"]):
            out += r_method(cp, m, s, o, verbose)
    out.append(Line("}"))
    return out


def decl(m):
    return Line(" ".join(m["pretty"]) + ";", anyorder=len(m["words"]))


def r_field(cp, m, f, o, verbose):
    out = [decl(m)]
    if "-s" in o or verbose:
        out.append(Line("Signature:", m["signature"]))
    if verbose:
        out += annos(cp, f["attrs"])
        if m["hasconstant"]:
            sym = cv.find(f["attrs"], "ConstantValue")
            t, text = const(None, sym)
            if text is None and sym[0] in "ij":
                out.append(Line("Constant value:", t, ints=[sym[1]]))
            elif text is None:
                out.append(Line("Constant value:", t, has=[]))
            else:
                out.append(Line("Constant value:", t, text))
    return out


def flat(args):
    for a in args:
        if isinstance(a, (list, tuple)):
            for x in flat(a):
                yield x
        elif a is not None:
            yield a


def r_method(cp, m, s, o, verbose):
    out = [decl(m)]
    if "-s" in o or verbose:
        out.append(Line("Signature:", m["signature"]))
    out += annos(cp, s["attrs"])
    code = m["code"]
    if code and ("-c" in o or verbose):
        out.append(Line("Code:"))
        if verbose:
            out.append(Line("Stack=%d, Locals=%d, Args_size=%d" % (
                code["stack"], code["locals"],
                len(m["args"]) + (not m["flags"] & 8))))
        for off, op, args in code["dis"]:
            out.append(Line("%d:" % off, opc.NAME[op],
                            ints=list(flat(args))))
        if code["exc"]:
            out.append(Line("Exception table:"))
            out.append(Line("from to target type"))
            for s, e, h, _t, pretty, _i, _s in code["exc"]:
                out.append(Line(s, e, h, pretty))
    if verbose:
        for w, on in (("Deprecated", m["deprecated"]),
                      ("Synthetic", m["synthetic"]),
                      ("Bridge", m["flags"] & 0x40),
                      ("Varargs", m["flags"] & 0x80)):
            if on:
                out.append(Line(w + ": true"))
    if code and ("-l" in o or verbose) and code["lnt"]:
        out.append(Line("LineNumberTable:"))
        out += [Line("line %d: %d" % (ln, off)) for off, ln in code["lnt"]]
    if code and ("-o" in o or verbose):
        for k, title, col in (("lvt", "LocalVariableTable:", "Descriptor"),
                              ("lvtt", "LocalVariableTypeTable:",
                               "Signature")):
            if code[k]:
                out.append(Line(title))
                out.append(Line("Start Length Slot Name", col))
                out += [Line(s, ln, i, n, d) for s, ln, n, d, i in code[k]]
    if verbose and m["pretty_exceptions"]:
        out.append(Line("Exceptions:"))
        out += [Line("throws", e) for e in m["pretty_exceptions"]]
    return out


def r_json(ctx, got, spec, cp, o):
    r = cv.ref(spec, cp)
    syms = [s for _i, s in cp.syms]
    want = dict(name=r["pretty_this"], extends=r["pretty_super"],
                implements=list(r["pretty_interfaces"]),
                source_file=r["sourcefile"], version=list(r["version"]))
    if r["platform"] != "?":
        want["platform"] = r["platform"]
    pats = o.get("--api-ignore", ())
    if "--class-provides" in o:
        want["class_provides"] = keep(r_provides(spec, False), pats)
        got["class_provides"].sort()
    if "--class-requires" in o:
        want["class_requires"] = keep(r_requires(spec, syms), pats)
        got["class_requires"].sort()
    for k in ("signature", "enclosing_method"):
        v = r["enclosing" if k[0] == "e" else k]
        if v:
            want[k] = v
    consts = got.pop("constants_pool", None)
    if "-p" in o or "--verbose" in o:
        idx = [i for i in range(1, cp.next) if i in cp.at]
        ctx.eq([c[0] for c in consts], idx, "c31:json-constants")
        for i, t, v in consts:
            wt, check = r_const(cp, i)
            ctx.eq(t, wt, "c31:json-constants", "type of %d" % i)
            ctx.check(check(str(v)), "c31:json-constants",
                      "%r is %r" % (cp.at[i], v))
    else:
        ctx.eq(consts, None, "c31:json-constants")
    show = o.get("show", "--public")
    for kind in ("fields", "methods"):
        out = []
        for m, s in zip(r[kind], spec[kind]):
            # nobody is shown in a header
            if show == "--header" or not shows(show, m["flags"]):
                continue
            d = dict(name=m["name"], type=m["pretty_type"],
                     access_flags=m["words"])
            if m["signature"]:
                d["signature"] = m["signature"]
            if m["deprecated"]:
                d["deprecated"] = True
            if kind == "methods":
                d["arg_types"] = list(m["pretty_args"])
            elif m["hasconstant"]:
                d["constant_value"] = cv.find(s["attrs"], "ConstantValue")
            out.append(d)
        for g in got[kind]:
            g["access_flags"].sort()
        for g, w in zip(got[kind], out):
            sym = w.pop("constant_value", None)
            c = g.pop("constant_value", None)
            ctx.eq(sym is None, c is None, "c31:json-constant-value")
            if sym is not None:
                ctx.eq(c[0], c02.TYPE[sym[0]], "c31:json-constant-value")
                if sym[0] != "s":
                    ctx.check(r_const(cp, cp(sym))[1](str(c[1])),
                              "c31:json-constant-value", "%r: %r" % (sym, c))
        want[kind] = out
    for k in want:
        ctx.eq(got.get(k), want[k], "c31:json:" + k)
    ctx.check(set(got) - set(want) <= {"platform"}, "c31:json",
              lambda: "more: %r" % (set(got) - set(want)))


# -- classes

def special():
    """classes with what the edits do not have"""
    b = edits.base
    out = []
    c = b()
    c["consts"] = [("u", "a\nb\t\u00e9\u20ac\0'\"\\"), ("u", ""), ("u", " "),
                   ("s", "x  y"), ("j", -5), ("d", 0x7ff8000000000000),
                   ("f", 0xff800000), ("u", "\U0001f600"),
                   ("mh", 6, ("mr", "x/A", "b", "()V")), ("mt", "(I)V"),
                   ("dy", 3, "dn", "I"), ("id", 7, "in", "()V"),
                   ("mod", "m"), ("pkg", "p"), ("u", "\u2028")]
    c["version"] = (55, 0)
    out.append(c)
    for v in ((45, 0), (45, 3), (45, 65535), (46, 0), (52, 1), (61, 0),
              (99, 7)):
        c = b()
        c["version"] = v
        out.append(c)
    for acc in (0, 0x1, 0x10, 0x20, 0x200, 0x600, 0x2601, 0x4031, 0x1021,
                0xffff & ~0x8000):
        c = b()
        c["access"] = acc
        out.append(c)
    c = b()
    c["super"] = None
    c["interfaces"] = []
    c["attrs"] = []
    out.append(c)
    for a in c01.CLASS_ATTRS:
        c = b()
        c["attrs"] = [a]
        out.append(c)
    for a in c01.FIELD_ATTRS:
        c = b()
        c["fields"] = [dict(access=f, name="f%d" % f, desc=d, attrs=[a])
                       for f, d in ((0, "I"), (1, "[J"), (2, "Lx/Y;"),
                                    (4, "D"), (0x5041, "Z"))]
        out.append(c)
    for a in getattr(c01, "METHOD_ATTRS", ()):
        c = b()
        c["methods"] = [dict(access=f, name=n, desc=d, attrs=[a])
                        for f, n, d in (
                            (1, "<init>", "(I)V"), (8, "<clinit>", "()V"),
                            (9, "s", "([[ILx/Y;J)[D"), (2, "p", "()Lx/Z;"),
                            (4, "q", "(D)V"), (0x10c1, "r", "()V"))]
        out.append(c)
    out += map(coded, CODES)
    # every kind of annotation value, on every kind of member
    values = [("e%d" % i, v) for i, v in enumerate(c09.VALUES)]
    c = b()
    a = ("RuntimeVisibleAnnotations", [("Lx/A;", [v]) for v in values])
    c["attrs"] = [a]
    c["fields"] = [dict(access=1, name="f", desc="I", attrs=[a])]
    c["methods"] = [dict(access=0x401, name="m", desc="()V", attrs=[a])]
    out.append(c)
    c = b()
    c["attrs"] = [(a[0], [("Lx/A;", values), ("Lx/A;", [])])]
    out.append(c)
    return out


def coded(code):
    """a class with methods of the same code, static and not"""
    c = edits.base()
    c["methods"] = [dict(access=a, name="m%d" % a, desc="(JLx/T;)V",
                         attrs=[("Code", dict(stack=65535, locals=300,
                                              **code))]) for a in (1, 8)]
    return c


T = [(0, 2, "this", "Lx/C;", 0), (0, 2, "x", "Lx/T;", 1), (1, 1, "x", "J", 2),
     (65535, 65535, "", "[I", 65535)]
G = [(0, 2, "this", "Lx/C<TA;>;", 0), (1, 1, "y", "TA;", 1),
     (0, 2, "x", "Lx/T<*>;", 1), (1, 1, "x", "[TA;", 2)]
RET = [("return", ())]
CODES = [dict(code=RET, attrs=a) for a in [
    [("LocalVariableTable", T)],
    [("LocalVariableTypeTable", G)],
    [("LocalVariableTable", T), ("LocalVariableTypeTable", G)],
    [("LocalVariableTypeTable", G[:2]), ("LocalVariableTable", T[1:3])],
    [("LocalVariableTable", T[::-1]), ("LocalVariableTypeTable", G[1:2])],
    [("LocalVariableTable", T[:1]), ("LocalVariableTypeTable", [])],
    [("LineNumberTable", [(0, 5), (0, 3), (1, 65535), (2, 0)]),
     ("LocalVariableTypeTable", G[2:]), ("LocalVariableTable", T)],
    [("LineNumberTable", [(9, 1), (3, 1), (65535, 2)])],
    [("LineNumberTable", [])]]]
CODES += [dict(code=RET, exc=e) for e in [
    [(0, 1, 0, None)], [(0, 65535, 0, "java/lang/Throwable")],
    [(0, 1, 0, "[Lx/E;"), (0, 1, 0, "x/E$1"), (0, 1, 0, "x/E$1")]]]
OPERAND = {"B": 255, "b": -128, "h": -32768, "i": -2 ** 31, "L": 255}
CONSTANT = {"ldc": ("s", "a\tb"), "ldc_w": ("i", -1), "ldc2_w": ("j", -1),
            "invokeinterface": ("ir", "x/I", "m", "()V"),
            "invokedynamic": ("id", 0, "m", "()V")}


def every_instruction():
    """code with all instructions, with extreme operands"""
    out = []
    for code in sorted(opc.NAME):
        n, k = opc.NAME[code], opc.KINDS[code]
        if n == "tableswitch":
            args = (-2 ** 31, -1, 1, [-1, 2 ** 31 - 1, 0])
        elif n == "lookupswitch":
            args = (0, [(-2 ** 31, -4), (7, 2 ** 31 - 1)])
        elif n == "wide":
            out += [(n, (opc.CODE["iinc"], 65535, -32768)),
                    (n, (opc.CODE["aload"], 65535))]
            continue
        else:
            args = []
            for x in k:
                if x in "kK" and n in CONSTANT:
                    args.append(CONSTANT[n])
                elif x in "kK":
                    args.append(
                        ("fr", "x/T", "f", "I") if "field" in n or
                        "static" in n and "invoke" not in n else
                        ("mr", "x/T", "m", "()V") if "invoke" in n else
                        ("c", "[[Lx/T;"))
                else:
                    args.append(OPERAND[x])
        out.append((n, tuple(args)))
    return out


CODES += [dict(code=every_instruction()), dict(code=[("nop", ())] +
                                               every_instruction()[::-1])]


SHOW = [None, "--public", "--package", "--private", "--header"]
OPTS = ["-l", "-o", "-c", "-s", "-p", "--verbose", "--class-provides",
        "--class-requires"]
IGNORE = [(), ("x.*",), ("java.*", "*K*")]


def command(o):
    args = []
    for k in OPTS:
        if k in o:
            args.append(k)
    if o.get("show"):
        args.append(o["show"])
    for p in o.get("--api-ignore", ()):
        args += ["--api-ignore", p]
    return args


def options(ctx, free):
    o = {}
    show = ctx.choose("show", SHOW, dev=not free)
    if show:
        o["show"] = show
    for k in OPTS:
        if ctx.flag(k, dev=True):
            o[k] = True
    if "--class-provides" in o or "--class-requires" in o:
        p = ctx.choose("--api-ignore", IGNORE)
        if p:
            o["--api-ignore"] = p
    return o


def classes(specs, free):
    def run(ctx):
        spec = ctx.choose("class", specs, label=lambda s: str(
            s.get("label", "")))
        o = options(ctx, free)
        spec = {k: v for k, v in spec.items() if k != "label"}
        data, cp = edits.encode(spec)
        path = os.path.join(ctx.tmpdir, "C.class")
        with open(path, "wb") as fd:
            fd.write(data)
        rc, out, _e = cli.run(classinfo.main, ["classinfo"] + command(o) +
                              [path])
        ctx.eq(rc, 0, "c31:status")
        compare(ctx, out, r_text(spec, cp, o))
        rc, out, _e = cli.run(classinfo.main, ["classinfo", "--json", path] +
                              command(o))
        ctx.eq(rc, 0, "c31:json-status")
        r_json(ctx, json.loads(out.decode("utf-8")), spec, cp, o)
        ctx.state((data, sorted(o)))
        ctx.outcome(tuple(sorted(o)))
    return run


def whole(c):
    for f in c["fields"] + c["methods"]:
        f.setdefault("attrs", [])
    return c


def edited(base):
    out = []
    for t in [[]] + [[n] for n in edits.NAMES]:
        c = edits.apply(base(), t)
        if c is not None:
            whole(c)["label"] = "%s %s" % (base.__name__, t)
            out.append(c)
    return out


def several(ctx):
    """more than one file in a command"""
    n = ctx.choose("files", [2, 3])
    pool = [edits.base(), edits.small(),
            edits.apply(edits.base(), [edits.NAMES[3]])]
    order = ctx.choose("order", list(itertools.product(range(3), repeat=n)))
    o = options(ctx, True)
    args, want = [], []
    for i, j in enumerate(order):
        spec = whole(pool[j])
        data, cp = edits.encode(spec)
        p = os.path.join(ctx.tmpdir, "%d.class" % i)
        with open(p, "wb") as fd:
            fd.write(data)
        args.append(p)
        want += r_text(spec, cp, o)
    rc, out, _e = cli.run(classinfo.main, ["c"] + args + command(o))
    ctx.eq(rc, 0, "c31:status")
    # a declaration may share the line with what ended before
    compare(ctx, out, want, "c31:several")


# -- jars

MANIFESTS = [None, b"Manifest-Version: 1.0\r\n\r\n",
             b"Manifest-Version: 1.0\nB: x\nA: y: z\n\nName: b\nK: v\n\n"
             b"Name: a\nZ: 1\nY: \xc3\xa9\n\n"]


def r_manifest(mf):
    if mf is None:
        return [Line("Manifest not present.")]
    out = [Line("Manifest main section:")]
    secs = [jars.fields(s) for s in jars.raw_sections(mf)]
    out += [Line("%s: %s" % kv) for kv in sorted(secs[0])]
    for s in sorted(secs[1:], key=lambda s: s[0][1]):
        out.append(Line("Manifest sub-section:"))
        out += [Line("%s: %s" % kv) for kv in sorted(s)]
    return out


def rollup(path):
    import zipfile
    with zipfile.ZipFile(path) as zf:
        inf = zf.infolist()
        return (len([i for i in inf if not i.filename.endswith("/")]),
                len([i for i in inf if i.filename.endswith("/")]),
                sum(i.file_size for i in inf if i.filename[-1:] != "/"),
                sum(i.compress_size for i in inf
                    if i.filename[-1:] != "/"))


JOPTS = ["--zip", "--manifest", "--jar-provides", "--jar-requires",
         "--jar-classes"]


def jarspec(names):
    """classes of C11 as (entry, variant)"""
    return [("x/%s.class" % n[2:], c11.VARIANTS[n][v]) for n, v in names]


def jar(ctx):
    names = []
    for n in sorted(c11.VARIANTS):
        v = ctx.choose(n, [None] + list(range(len(c11.VARIANTS[n]))))
        if v is not None:
            names.append((n, v))
    cs = jarspec(names)
    mf = ctx.choose("manifest", MANIFESTS)
    o = {k for k in JOPTS if ctx.flag(k)}
    if "--jar-classes" in o and len(cs) > 1:
        o2 = {}
    pats = ctx.choose("--api-ignore", c11.PATTERNS[:4]) \
        if o & {"--jar-provides", "--jar-requires"} else ()
    items = [(e, v["data"]) for e, v in cs] + [("d/", b""), ("d/t", b"x" *
                                                            5000)]
    if ctx.choose("form", ["packed", "exploded"]) == "packed":
        path = jars.write(os.path.join(ctx.tmpdir, "j.jar"), items, mf)
        f, d, size, packed = rollup(path)
    else:
        tree = {n: c for n, c in items if n != "d/"}
        if mf is not None:
            tree[jars.MF] = mf
        path = trees.write(tree, os.path.join(ctx.tmpdir, "exploded"))
        f, d = len(tree), len(trees.dirs(tree))
        size = packed = sum(map(len, tree.values()))
        cs.sort(key=lambda c: c[0])
    prov, req, _p = c11.union(cs)
    prov, req = c11.keep(prov, pats), c11.keep(req, pats)
    want = []
    if "--zip" in o:
        want += [Line("Contains %d files, %d directories" % (f, d)),
                 Line("Uncompressed size is %d" % size),
                 Line("Compressed size is %d (%.1f%%)" % (
                     packed, 100.0 * packed / size))]
    if "--manifest" in o:
        want += r_manifest(mf)
    if "--jar-provides" in o:
        want += [Line("jar provides:")] + [Line(s) for s in sorted(prov)]
    if "--jar-requires" in o:
        want += [Line("jar requires:")] + [Line(s) for s in sorted(req)]
    args = sorted(o)
    for p in pats:
        args += ["--api-ignore", p]
    rc, out, _e = cli.run(jarinfo.main, ["jarinfo", path] + args)
    ctx.eq(rc, 0, "c31:jar-status")
    if "--jar-classes" in o:
        text, _s, rest = out.partition(b"Entry:")
        compare(ctx, text, want, "c31:jar")
        got = re.findall(r"^Entry:\s+(\S+)$", out.decode(), re.M)
        ctx.eq(got, [e for e, _v in cs], "c31:jar-classes")
    else:
        compare(ctx, out, want, "c31:jar")
    rc, out, _e = cli.run(jarinfo.main, ["jarinfo", "--json"] + args +
                          [path])
    ctx.eq(rc, 0, "c31:jar-status")
    js = json.loads(out.decode("utf-8"))
    w = {}
    if "--zip" in o:
        w = {"zip.file_count": f, "zip.dir_count": d,
             "zip.uncompressed_size": size, "zip.compressed_size": packed}
        ctx.eq(round(js.pop("zip.compress_percent"), 6),
               round(100.0 * packed / size, 6), "c31:jar-json")
        js.pop("zip.type")
    listed = lambda m: {s: sorted([list(x) for x in v])
                        for s, v in m.items()}
    if "--jar-provides" in o:
        w["jar.provides"] = listed(prov)
        js["jar.provides"] = listed(js["jar.provides"])
    if "--jar-requires" in o:
        w["jar.requires"] = listed(req)
        js["jar.requires"] = listed(js["jar.requires"])
    ctx.eq(js, w, "c31:jar-json")
    ctx.state((tuple(names), mf, tuple(sorted(o)), pats))


def jarclasses(specs):
    """the classes of a jar are shown as on their own"""
    def run(ctx):
        return one_jar(ctx, specs)
    return run


def one_jar(ctx, specs):
    n = ctx.choose("class", list(range(0, len(specs), 7)))
    o = options(ctx, True)
    items, want = [], []
    for i in (n, 0):
        spec = {k: v for k, v in specs[i].items() if k != "label"}
        data, cp = edits.encode(spec)
        e = "p/C%d.class" % len(items)
        items.append((e, data))
        want.append(Line("Entry:", e))
        want += r_text(spec, cp, o)
    path = jars.write(os.path.join(ctx.tmpdir, "j.jar"), items)
    rc, out, _e = cli.run(jarinfo.main, ["j", path, "--jar-classes"] +
                          command(o))
    ctx.eq(rc, 0, "c31:jar-status")
    if "--verbose" in o:
        # that implies --zip
        f, d, size, packed = rollup(path)
        want[:0] = [Line("Contains %d files, %d directories" % (f, d)),
                    Line("Uncompressed size is %d" % size),
                    Line("Compressed size is %d (%.1f%%)" % (
                        packed, 100.0 * packed / size))]
    compare(ctx, out, want, "c31:jar-class")


# -- distributions

def dist(ctx):
    places = [None, "loose", "a.jar", "lib/b.war"]
    loose, inj = [], {}
    for n in sorted(c11.VARIANTS):
        w = ctx.choose("where " + n, places)
        if w is None:
            continue
        v = c11.VARIANTS[n][ctx.choose(n, [0, 1, 2])]
        if w == "loose":
            loose.append(("c/" + n[2:] + ".class", v))
        else:
            inj.setdefault(w, []).append((n + ".class", v))
    form = ctx.choose("form", ["dir", "zip"])
    o = {k for k in ("--dist-provides", "--dist-requires") if ctx.flag(k)}
    pats = ctx.choose("--api-ignore", c11.PATTERNS[:3])
    tree = {e: v["data"] for e, v in loose}
    tree["readme"] = b"1"
    for j, cs in inj.items():
        q = jars.write(os.path.join(ctx.tmpdir, "q"), [
            (e, v["data"]) for e, v in cs])
        with open(q, "rb") as fd:
            tree[j] = fd.read()
    path = os.path.join(ctx.tmpdir, "dist")
    (trees.write_zip if form == "zip" else trees.write)(tree, path)
    prov = {s for _e, v in loose for s in v["pub"]}
    req = {s for _e, v in loose for s in v["req"]}
    priv = {s for _e, v in loose for s in v["priv"]}
    for cs in inj.values():
        p, r, q = c11.union(cs)
        prov |= set(p)
        req |= set(r)
        priv |= q
    prov, req = keep(prov, pats), keep(req - priv, pats)
    args = sorted(o)
    for p in pats:
        args += ["--api-ignore", p]
    want = []
    if "--dist-provides" in o:
        want += [Line("distribution provides:")] + [Line(s) for s in prov]
    if "--dist-requires" in o:
        want += [Line("distribution requires:")] + [Line(s) for s in req]
    rc, out, _e = cli.run(distinfo.main, ["distinfo", path] + args)
    ctx.eq(rc, 0, "c31:dist-status")
    compare(ctx, out, want, "c31:dist")
    rc, out, _e = cli.run(distinfo.main, ["distinfo", path, "--json"] + args)
    ctx.eq(rc, 0, "c31:dist-status")
    js = json.loads(out.decode("utf-8"))
    ctx.eq({k: sorted(v) for k, v in js.items()},
           {k: v for k, v in (("dist.provides", prov),
                              ("dist.requires", req))
            if "--" + k.replace(".", "-") in o}, "c31:dist-json")
    where = {e for e, _v in loose} | set(inj)
    for m in js.values():
        for s, by in m.items():
            ctx.check(by and all(x[1] in where for x in by),
                      "c31:dist-json", "%r by %r" % (s, by))


def harnesses(tier):
    deep = tier == "thorough"
    big, small = edited(edits.base), edited(edits.small)
    return [Harness("classes", classes(big, True), bound=3 if deep else 1),
            Harness("small-classes", classes(small, True),
                    bound=2 if deep else 1),
            Harness("special-classes", classes(list(map(whole, special())),
                                               True),
                    bound=3 if deep else 2),
            Harness("several-classes", several, bound=2 if deep else 1),
            Harness("jars", jar), Harness("classes-of-jars", jarclasses(big),
                                          bound=2 if deep else 1),
            Harness("distributions", dist)]
