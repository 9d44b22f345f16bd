"""
Two views of a class as plain data: view(ci), through the public API of
the code under test, and ref(spec), from the reference description.
"""

import math

from . import classfile as cf


def num(v):
    if isinstance(v, float):
        return "nan" if math.isnan(v) else "f:" + repr(v)
    if isinstance(v, tuple):
        return tuple(num(x) for x in v)
    if isinstance(v, list):
        return [num(x) for x in v]
    return v


CLASS_PRED = (("is_public", 0x1), ("is_final", 0x10), ("is_super", 0x20),
              ("is_interface", 0x200), ("is_abstract", 0x400),
              ("is_annotation", 0x2000), ("is_enum", 0x4000))
MEMBER_PRED = (("is_public", 0x1), ("is_private", 0x2),
               ("is_protected", 0x4), ("is_static", 0x8),
               ("is_final", 0x10), ("is_synchronized", 0x20),
               ("is_volatile", 0x40), ("is_bridge", 0x40),
               ("is_transient", 0x80), ("is_varargs", 0x80),
               ("is_native", 0x100), ("is_abstract", 0x400),
               ("is_strict", 0x800), ("is_enum", 0x4000),
               ("is_module", 0x8000))


def v_anno(a):
    return (a.cpool.deref_const(a.type_ref), a.pretty_type(),
            sorted((k, v_ev(v, a.cpool)) for k, v in a.items()))


def v_ev(ev, cp):
    tag, data = ev
    if tag == "e":
        return (tag, tuple(cp.deref_const(d) for d in data))
    if tag == "@":
        return (tag, v_anno(data))
    if tag == "[":
        return (tag, [v_ev(e, cp) for e in data])
    return (tag, num(cp.deref_const(data)))


def r_anno(a):
    t, pairs = a
    return (t, cf.pretty_desc(t), sorted((k, r_ev(v)) for k, v in
                                         dict(pairs).items()))


def r_ev(ev):
    tag, d = ev
    if tag == "e":
        return (tag, tuple(d))
    if tag == "@":
        return (tag, r_anno(d))
    if tag == "[":
        return (tag, [r_ev(e) for e in d])
    if tag == "F":
        d = cf.fval(d)
    elif tag == "D":
        d = cf.dval(d)
    return (tag, num(d))


def norm_args(args):
    """instruction arguments; a switch's jump offsets may come as
    1-tuples or as integers, pairs as tuples or lists"""
    out = []
    for a in args:
        if isinstance(a, (list, tuple)):
            l = []
            for x in a:
                if isinstance(x, (list, tuple)):
                    x = tuple(x)
                    if len(x) == 1:
                        x = x[0]
                l.append(x)
            out.append(l)
        else:
            out.append(a)
    return tuple(out)


def v_code(c):
    if c is None:
        return None
    cv = c.cpool.deref_const
    return dict(
        stack=c.max_stack, locals=c.max_locals, code=bytes(c.code),
        exc=[(e.start_pc, e.end_pc, e.handler_pc, e.get_catch_type(),
              e.pretty_catch_type(), e.info(), str(e))
             for e in c.exceptions],
        lnt=[tuple(x) for x in c.get_linenumbertable()],
        rlnt=[tuple(x) for x in c.get_relativelinenumbertable()],
        lvt=[(s, l, cv(n), cv(d), i) for s, l, n, d, i in
             c.get_localvariabletable()],
        lvtt=[(s, l, cv(n), cv(d), i) for s, l, n, d, i in
              c.get_localvariabletypetable()],
        dis=[(o, op, norm_args(a)) for o, op, a in c.disassemble()])


def find(attrs, name):
    for a in attrs:
        if a[0] == name:
            return a[1] if len(a) > 1 else True
    return None


def r_code(m, listing):
    c = find(m.get("attrs", ()), "Code")
    if c is None:
        return None
    at = c.get("attrs", ())
    lnt = [tuple(x) for x in find(at, "LineNumberTable") or ()]
    code, lst = listing
    return dict(
        stack=c.get("stack", 2), locals=c.get("locals", 2), code=code,
        exc=[(s, e, h, t, "Class " + t.replace("/", ".") if t else "any",
              (s, e, h, t), "(%s,%s,%s,%s)" % (s, e, h, t))
             for s, e, h, t in c.get("exc", ())],
        lnt=lnt, rlnt=[(o, l - lnt[0][1]) for o, l in lnt],
        lvt=[tuple(x) for x in find(at, "LocalVariableTable") or ()],
        lvtt=[tuple(x) for x in find(at, "LocalVariableTypeTable") or ()],
        dis=lst)


def flagset(ci):
    return sorted(ci)


def v_member(m):
    d = dict(
        flags=m.access_flags, name=m.get_name(), desc=m.get_descriptor(),
        type=m.get_type_descriptor(),
        args=tuple(m.get_arg_type_descriptors()),
        pretty_type=m.pretty_type(),
        pretty_args=tuple(m.pretty_arg_types()),
        ident=m.get_identifier(), pident=m.pretty_identifier(),
        pred=[bool(getattr(m, p)()) for p, _ in MEMBER_PRED],
        words=sorted(m.pretty_access_flags()),
        words_all=sorted(m.pretty_access_flags(showall=True)),
        signature=m.get_signature(), pretty_signature=m.pretty_signature(),
        deprecated=bool(m.is_deprecated()), synthetic=bool(m.is_synthetic()),
        exceptions=tuple(m.get_exceptions()),
        pretty_exceptions=tuple(m.pretty_exceptions()),
        constant=num(m.deref_constantvalue()),
        hasconstant=m.get_constantvalue() is not None,
        annos=[v_anno(a) for a in m.get_annotations()],
        iannos=[v_anno(a) for a in m.get_invisible_annotations()],
        pannos=[[v_anno(a) for a in p]
                for p in m.get_parameter_annotations()],
        ipannos=[[v_anno(a) for a in p]
                 for p in m.get_invisible_parameter_annotations()],
        code=v_code(m.get_code()),
        pretty=m.pretty_descriptor().split())
    ad = m.get_annotationdefault()
    d["default"] = None if ad is None else v_ev(ad, m.cpool)
    return d


def member_words(flags, method, synthetic, showall):
    w = []
    for name, bit in (("public", 1), ("private", 2), ("protected", 4),
                      ("static", 8), ("final", 0x10), ("strict", 0x800),
                      ("native", 0x100), ("abstract", 0x400),
                      ("enum", 0x4000), ("module", 0x8000)):
        if flags & bit:
            w.append(name)
    if showall and synthetic:
        w.append("synthetic")
    if method:
        if flags & 0x20:
            w.append("synchronized")
        if showall and flags & 0x40:
            w.append("bridge")
        if showall and flags & 0x80:
            w.append("varargs")
    else:
        if flags & 0x80:
            w.append("transient")
        if flags & 0x40:
            w.append("volatile")
    return sorted(w)


def r_member(m, method, cp):
    at = m.get("attrs", ())
    f = m["access"]
    desc = m["desc"]
    if method:
        args, ret = cf.parse_mdesc(desc)
    else:
        args, ret = (), desc
    name = m["name"]
    ident = name
    if method:
        ident = "%s(%s)" % (name, ",".join(args))
        if f & 0x40:
            ident += ":" + desc
    syn = bool(f & 0x1000) or find(at, "Synthetic") is not None
    exc = tuple(find(at, "Exceptions") or ())
    pexc = tuple(e.replace("/", ".") for e in exc)
    cvs = find(at, "ConstantValue")
    code = find(at, "Code")
    listing = None
    if code is not None:
        if isinstance(code["code"], bytes):
            listing = (code["code"], code.get("listing"))
        else:
            listing = cf.code_bytes(cp, code["code"])
    words = member_words(f, method, syn, False)
    sig = find(at, "Signature")
    pargs = tuple(cf.pretty_desc(a) for a in args)
    pr = [w for w in words]
    tail = []
    if name != "<init>":
        tail.append(cf.pretty_desc(ret))
    if method:
        tail.append("%s(%s)" % (name, ",".join(pargs)))
    else:
        tail.append(name)
    if pexc:
        tail += ["throws", ",".join(pexc)]
    ad = find(at, "AnnotationDefault")
    return dict(
        flags=f, name=name, desc=desc, type=ret, args=args,
        pretty_type=cf.pretty_desc(ret), pretty_args=pargs, ident=ident,
        pident=cf.pretty_ident(name, desc),
        pred=[bool(f & b) for _, b in MEMBER_PRED],
        words=words, words_all=member_words(f, method, syn, True),
        signature=sig, pretty_signature=sig,
        deprecated=find(at, "Deprecated") is not None, synthetic=syn,
        exceptions=exc, pretty_exceptions=pexc,
        constant=None if cvs is None else num(cf.deref(cvs)),
        hasconstant=cvs is not None,
        annos=[r_anno(a) for a in
               find(at, "RuntimeVisibleAnnotations") or ()],
        iannos=[r_anno(a) for a in
                find(at, "RuntimeInvisibleAnnotations") or ()],
        pannos=[[r_anno(a) for a in p] for p in
                find(at, "RuntimeVisibleParameterAnnotations") or ()],
        ipannos=[[r_anno(a) for a in p] for p in
                 find(at, "RuntimeInvisibleParameterAnnotations") or ()],
        code=r_code(m, listing) if code is not None else None,
        pretty=pr + tail,
        default=None if ad is None else r_ev(ad))


def class_words(f):
    w = []
    for name, bit in (("public", 1), ("final", 0x10), ("abstract", 0x400)):
        if f & bit:
            w.append(name)
    if f & 0x200:
        w.append("@interface" if f & 0x2000 else "interface")
    if f & 0x4000:
        w.append("enum")
    return sorted(w)


def platform(major, minor):
    if major == 45:
        return "1.0.2" if minor <= 3 else "1.1"
    if 46 <= major <= 52:
        return "1.%d" % (major - 44)
    return None


def view(ci):
    return dict(
        version=tuple(ci.get_version()),
        platform=ci.get_platform()
        if 45 <= ci.get_version()[0] <= 52 else "?",
        flags=ci.access_flags,
        pred=[bool(getattr(ci, p)()) for p, _ in CLASS_PRED],
        words=sorted(ci.pretty_access_flags()),
        this=ci.get_this(), super=ci.get_super(),
        pretty_this=ci.pretty_this(), pretty_super=ci.pretty_super(),
        interfaces=tuple(ci.get_interfaces()),
        pretty_interfaces=tuple(ci.pretty_interfaces()),
        pretty=ci.pretty_descriptor().split(),
        signature=ci.get_signature(), pretty_signature=ci.pretty_signature(),
        sourcefile=ci.get_sourcefile(),
        sde=ci.get_source_debug_extension(),
        enclosing=ci.get_enclosingmethod(),
        deprecated=bool(ci.is_deprecated()),
        inner=[(i.cpool.deref_const(i.inner_info_ref),
                i.cpool.deref_const(i.outer_info_ref)
                if i.outer_info_ref else None,
                i.get_name(), i.access_flags)
               for i in ci.get_innerclasses()],
        annos=[v_anno(a) for a in ci.get_annotations()],
        iannos=[v_anno(a) for a in ci.get_invisible_annotations()],
        nfields=len(ci.fields), nmethods=len(ci.methods),
        fields=[v_member(m) for m in ci.fields],
        methods=[v_member(m) for m in ci.methods])


def ref(c, cp):
    f = c["access"]
    at = c.get("attrs", ())
    ifs = tuple(c.get("interfaces", ()))
    enc = None
    for a in at:
        if a[0] == "EnclosingMethod":
            enc = a[1] if a[2] is None else "%s.%s%s" % (
                (a[1],) + tuple(a[2]))
    v = tuple(c.get("version", (52, 0)))
    sup = c["super"] or ""
    words = class_words(f)
    pr = list(words)
    if not f & 0x200:
        pr.append("class")
    pr += [c["this"].replace("/", "."), "extends"]
    if sup:
        pr.append(sup.replace("/", "."))
    if ifs:
        pr += ["implements", ",".join(i.replace("/", ".") for i in ifs)]
    sig = find(at, "Signature")
    sde = find(at, "SourceDebugExtension")
    fields = c.get("fields", ())
    methods = c.get("methods", ())
    return dict(
        version=v, platform=platform(*v) if 45 <= v[0] <= 52 else "?",
        flags=f, pred=[bool(f & b) for _, b in CLASS_PRED], words=words,
        this=c["this"], super=sup, pretty_this=c["this"].replace("/", "."),
        pretty_super=sup.replace("/", "."), interfaces=ifs,
        pretty_interfaces=tuple(i.replace("/", ".") for i in ifs),
        pretty=pr, signature=sig, pretty_signature=sig,
        sourcefile=find(at, "SourceFile"), sde=sde or None, enclosing=enc,
        deprecated=find(at, "Deprecated") is not None,
        inner=[tuple(i) for i in find(at, "InnerClasses") or ()],
        annos=[r_anno(a) for a in
               find(at, "RuntimeVisibleAnnotations") or ()],
        iannos=[r_anno(a) for a in
                find(at, "RuntimeInvisibleAnnotations") or ()],
        nfields=len(fields), nmethods=len(methods),
        fields=[r_member(m, False, cp) for m in fields],
        methods=[r_member(m, True, cp) for m in methods])


def diff(got, want, path=""):
    """first difference of two views, or None"""
    if want is None and path.endswith("/pretty"):
        return None
    if path.endswith("/pretty"):
        # modifier order is presentation: compare as sets of words, the
        # declaration part has to come last and in order
        if sorted(got) != sorted(want):
            return path, got, want
        return None
    if isinstance(want, dict):
        for k in want:
            d = diff(got[k], want[k], path + "/" + k)
            if d:
                return d
        return None
    if isinstance(want, list) and isinstance(got, (list, tuple)) and \
       len(got) == len(want) and path.count("/") < 6:
        for i, (g, w) in enumerate(zip(got, want)):
            d = diff(g, w, "%s/%d" % (path, i))
            if d:
                return d
        return None
    if isinstance(want, list) and isinstance(got, tuple):
        got = list(got)
    if got != want:
        return path, got, want
    return None


def compare(ctx, ci, spec, cp, what=""):
    want = ref(spec, cp)
    got = view(ci)
    d = diff(got, want)
    ctx.step(len(want) + sum(len(m) for k in ("fields", "methods")
                             for m in want[k]))
    if d:
        path = "/".join(p for p in d[0].split("/") if not p.isdigit())
        ctx.fail("view:" + path, "%s%s: got %.400r, encoded %.400r" %
                 (what, d[0], d[1], d[2]))
    return want
