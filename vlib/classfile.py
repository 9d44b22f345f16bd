"""
Class-file builder: the reference model.  A class is described by plain
Python data; encode() lays it out in bytes and the description itself is
the oracle for what a parser has to report.

constants (symbols), hashable tuples:
  ("u", text) ("i", int) ("f", bits) ("j", int) ("d", bits)
  ("c", name) ("s", text)
  ("fr", cls, name, desc) ("mr", ...) ("ir", ...)
  ("nt", name, desc)
  ("mid", a, b)                          ModuleId (tag 13)
  ("mh", kind, refsym) ("mt", desc)
  ("dy", bsm, name, desc) ("id", bsm, name, desc)
  ("mod", name) ("pkg", name)
floats are given by their bit pattern, so that -0.0 and NaNs are exact.
"""

import struct

from . import opc

TAG = {"u": 1, "i": 3, "f": 4, "j": 5, "d": 6, "c": 7, "s": 8, "fr": 9,
       "mr": 10, "ir": 11, "nt": 12, "mid": 13, "mh": 15, "mt": 16,
       "dy": 17, "id": 18, "mod": 19, "pkg": 20}


def mutf8(s):
    """JVM modified UTF-8"""
    out = bytearray()
    for u in struct.unpack(">%dH" % (len(s.encode("utf-16-be",
                                                  "surrogatepass")) // 2),
                           s.encode("utf-16-be", "surrogatepass")):
        if u == 0 or 0x80 <= u <= 0x7ff:
            out += bytes((0xC0 | u >> 6, 0x80 | u & 0x3f))
        elif u < 0x80:
            out.append(u)
        else:
            out += bytes((0xE0 | u >> 12, 0x80 | u >> 6 & 0x3f,
                          0x80 | u & 0x3f))
    return bytes(out)


def fbits(x):
    return struct.unpack(">I", struct.pack(">f", x))[0]


def dbits(x):
    return struct.unpack(">Q", struct.pack(">d", x))[0]


def fval(bits):
    return struct.unpack(">f", struct.pack(">I", bits))[0]


def dval(bits):
    return struct.unpack(">d", struct.pack(">Q", bits))[0]


def children(sym):
    t = sym[0]
    if t in ("c", "s", "mt", "mod", "pkg"):
        return (("u", sym[1]),)
    if t in ("fr", "mr", "ir"):
        return (("c", sym[1]), ("nt", sym[2], sym[3]))
    if t == "nt":
        return (("u", sym[1]), ("u", sym[2]))
    if t == "mid":
        return (("u", sym[1]), ("u", sym[2]))
    if t == "mh":
        return (sym[2],)
    if t in ("dy", "id"):
        return (("nt", sym[2], sym[3]),)
    return ()


class Pool(object):
    """constant pool under construction"""

    def __init__(self, order=()):
        self.syms = []
        self.index = {}
        self.next = 1
        self.at = {}
        for s in order:
            self.add(s)

    def add(self, sym):
        """append an entry; duplicates allowed (index of last wins not)"""
        i = self.next
        self.syms.append((i, sym))
        self.at[i] = sym
        self.next += 2 if sym[0] in ("j", "d") else 1
        self.index.setdefault(sym, i)
        return i

    def __call__(self, sym):
        i = self.index.get(sym)
        if i is None:
            i = self.add(sym)
        return i

    def close(self):
        k = 0
        while k < len(self.syms):
            for c in children(self.syms[k][1]):
                self(c)
            k += 1

    def encode(self):
        self.close()
        out = bytearray(struct.pack(">H", self.next))
        for i, sym in self.syms:
            t = sym[0]
            out.append(TAG[t])
            ch = [self(c) for c in children(sym)]
            if t == "u":
                b = sym[1] if isinstance(sym[1], bytes) else mutf8(sym[1])
                out += struct.pack(">H", len(b)) + b
            elif t == "i":
                out += struct.pack(">i", sym[1])
            elif t == "f":
                out += struct.pack(">I", sym[1])
            elif t == "j":
                out += struct.pack(">q", sym[1])
            elif t == "d":
                out += struct.pack(">Q", sym[1])
            elif t == "mh":
                out += struct.pack(">BH", sym[1], ch[0])
            elif t in ("dy", "id"):
                out += struct.pack(">HH", sym[1], ch[0])
            else:
                out += struct.pack(">%dH" % len(ch), *ch)
        return bytes(out)


# -- attributes

def _ev(cp, ev):
    tag, v = ev
    o = tag.encode()
    if tag in "BCISZ":
        return o + struct.pack(">H", cp(("i", v)))
    if tag == "J":
        return o + struct.pack(">H", cp(("j", v)))
    if tag == "F":
        return o + struct.pack(">H", cp(("f", v)))
    if tag == "D":
        return o + struct.pack(">H", cp(("d", v)))
    if tag == "s":
        return o + struct.pack(">H", cp(("u", v)))
    if tag == "c":
        return o + struct.pack(">H", cp(("u", v)))
    if tag == "e":
        return o + struct.pack(">HH", cp(("u", v[0])), cp(("u", v[1])))
    if tag == "@":
        return o + _anno(cp, v)
    if tag == "[":
        return o + struct.pack(">H", len(v)) + b"".join(_ev(cp, e)
                                                        for e in v)
    raise ValueError(tag)


def _anno(cp, anno):
    t, pairs = anno
    out = struct.pack(">HH", cp(("u", t)), len(pairs))
    for k, v in pairs:
        out += struct.pack(">H", cp(("u", k))) + _ev(cp, v)
    return out


def _annos(cp, annos):
    return struct.pack(">H", len(annos)) + b"".join(_anno(cp, a)
                                                    for a in annos)


def _ref(cp, sym):
    return 0 if sym is None else cp(sym)


def code_bytes(cp, instrs):
    """instructions whose constant operand may be a symbol"""
    res = []
    for name, args in instrs:
        if opc.CODE[name] in opc.CONST and args and \
           isinstance(args[0], tuple):
            args = (cp(args[0]),) + tuple(args[1:])
        res.append((name, args))
    return opc.assemble(res)


def attr(cp, a):
    name = a[0]
    if name == "Raw":
        name, data = a[1], a[2]
    elif name in ("Deprecated", "Synthetic"):
        data = b""
    elif name in ("Signature", "SourceFile"):
        data = struct.pack(">H", cp(("u", a[1])))
    elif name == "ConstantValue":
        data = struct.pack(">H", cp(a[1]))
    elif name == "Exceptions":
        data = struct.pack(">H", len(a[1])) + b"".join(
            struct.pack(">H", cp(("c", n))) for n in a[1])
    elif name == "SourceDebugExtension":
        data = a[1] if isinstance(a[1], bytes) else mutf8(a[1])
    elif name == "InnerClasses":
        data = struct.pack(">H", len(a[1]))
        for inner, outer, nm, fl in a[1]:
            data += struct.pack(
                ">HHHH", cp(("c", inner)),
                _ref(cp, outer and ("c", outer)),
                _ref(cp, nm and ("u", nm)), fl)
    elif name == "EnclosingMethod":
        data = struct.pack(">HH", cp(("c", a[1])),
                           _ref(cp, a[2] and ("nt",) + tuple(a[2])))
    elif name in ("RuntimeVisibleAnnotations",
                  "RuntimeInvisibleAnnotations"):
        data = _annos(cp, a[1])
    elif name in ("RuntimeVisibleParameterAnnotations",
                  "RuntimeInvisibleParameterAnnotations"):
        data = struct.pack(">B", len(a[1])) + b"".join(
            _annos(cp, p) for p in a[1])
    elif name == "AnnotationDefault":
        data = _ev(cp, a[1])
    elif name == "BootstrapMethods":
        data = struct.pack(">H", len(a[1]))
        for mh, args in a[1]:
            data += struct.pack(">HH", cp(mh), len(args)) + b"".join(
                struct.pack(">H", cp(x)) for x in args)
    elif name == "LineNumberTable":
        data = struct.pack(">H", len(a[1])) + b"".join(
            struct.pack(">HH", *e) for e in a[1])
    elif name in ("LocalVariableTable", "LocalVariableTypeTable"):
        data = struct.pack(">H", len(a[1])) + b"".join(
            struct.pack(">HHHHH", s, l, cp(("u", n)), cp(("u", d)), i)
            for s, l, n, d, i in a[1])
    elif name == "Code":
        c = a[1]
        code = c["code"]
        if not isinstance(code, bytes):
            code, _ = code_bytes(cp, code)
        data = struct.pack(">HHI", c.get("stack", 2), c.get("locals", 2),
                           len(code)) + code
        exc = c.get("exc", ())
        data += struct.pack(">H", len(exc))
        for s, e, h, t in exc:
            data += struct.pack(">HHHH", s, e, h,
                                _ref(cp, t and ("c", t)))
        data += attrs(cp, c.get("attrs", ()))
    else:
        raise ValueError(name)
    return struct.pack(">HI", cp(("u", name)), len(data)) + data


def attrs(cp, lst):
    return struct.pack(">H", len(lst)) + b"".join(attr(cp, a) for a in lst)


def member(cp, m):
    return struct.pack(">HHH", m["access"], cp(("u", m["name"])),
                       cp(("u", m["desc"]))) + attrs(cp, m.get("attrs", ()))


def body(cp, c):
    out = struct.pack(
        ">HHH", c["access"], cp(("c", c["this"])),
        _ref(cp, c["super"] and ("c", c["super"])))
    ifs = c.get("interfaces", ())
    out += struct.pack(">H", len(ifs)) + b"".join(
        struct.pack(">H", cp(("c", i))) for i in ifs)
    for kind in ("fields", "methods"):
        ms = c.get(kind, ())
        out += struct.pack(">H", len(ms)) + b"".join(member(cp, m)
                                                     for m in ms)
    return out + attrs(cp, c.get("attrs", ()))


def encode(c, pool=None, order=None):
    """
    bytes of class c. order: None, or a sequence of symbols the constant
    pool starts with (extra symbols are allowed: unused constants).
    Returns (bytes, pool)
    """
    cp = pool if pool is not None else Pool(order or ())
    for s in c.get("consts", ()):
        cp(s)
    b = body(cp, c)
    p = cp.encode()
    major, minor = c.get("version", (52, 0))
    return (b"\xca\xfe\xba\xbe" + struct.pack(">HH", minor, major) + p + b,
            cp)


def encode_bytes(c, order=None):
    return encode(c, order=order)[0]


def symbols(c):
    """all symbols class c uses, in default order"""
    _, cp = encode(c)
    return [s for _, s in cp.syms]


# -- reference views of constants

def pretty_class(n):
    return n.replace("/", ".")


def deref(sym):
    t = sym[0]
    if t in ("u", "i", "j", "c", "s", "mt", "mod", "pkg"):
        return sym[1]
    if t == "f":
        return fval(sym[1])
    if t == "d":
        return dval(sym[1])
    if t in ("fr", "mr", "ir"):
        return (sym[1], (sym[2], sym[3]))
    if t in ("nt", "mid"):
        return (sym[1], sym[2])
    if t == "mh":
        return (sym[1], deref(sym[2]))
    if t in ("dy", "id"):
        return (sym[1], (sym[2], sym[3]))
    raise ValueError(t)


# -- reference descriptor grammar

_BASE = {"B": "byte", "C": "char", "D": "double", "F": "float", "I": "int",
         "J": "long", "S": "short", "Z": "boolean", "V": "void"}


def split_desc(d):
    """split a run of field descriptors"""
    out = []
    i = 0
    while i < len(d):
        j = i
        while d[j] == "[":
            j += 1
        if d[j] == "L":
            j = d.index(";", j)
        out.append(d[i:j + 1])
        i = j + 1
    return tuple(out)


def parse_mdesc(d):
    assert d[0] == "("
    i = d.index(")")
    return split_desc(d[1:i]), d[i + 1:]


def pretty_desc(d):
    dims = 0
    while d[dims] == "[":
        dims += 1
    d = d[dims:]
    if d[0] == "L":
        n = d[1:-1].replace("/", ".")
    else:
        n = _BASE[d]
    return n + "[]" * dims


def pretty_ident(name, desc):
    if desc.startswith("("):
        a, r = parse_mdesc(desc)
        return "%s(%s):%s" % (name, ",".join(pretty_desc(x) for x in a),
                              pretty_desc(r))
    return "%s:%s" % (name, pretty_desc(desc))
