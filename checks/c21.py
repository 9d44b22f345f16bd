"""C21: manifests survive writing and reading"""

import io
import os
import zipfile

from vlib.explore import Harness

from javatools import manifest
from javatools.manifest import Manifest, ManifestKeyException, \
    MalformedManifest, SignatureManifest

ASSUMPTIONS = [
    "the main section is not empty, and each section is filed under its "
    "own name",
    "attribute names are told apart by case, as the library does",
    "keys of 69 or 70 bytes may be refused or kept (the library's limit is "
    "68, the specification's 70)",
    "line ends: LF, CR LF and CR for reading, LF and CR LF kept when "
    "written again",
]

SEPS = ["\n", "\r\n", "\r"]


# -- an independent reader (JAR specification, on bytes)

def reader(data):
    """[section], section a list of (key, value); None: malformed"""
    lines = data.replace(b"\r\n", b"\n").replace(b"\r", b"\n").split(b"\n")
    assert lines[-1] == b"", "no line end at the end"
    out, curr = [], []
    for line in lines[:-1]:
        if not line:
            out.append(curr)
            curr = []
        elif line[:1] == b" ":
            k, v = curr[-1]
            curr[-1] = (k, v + line[1:])
        else:
            k, v = line.split(b": ", 1)
            curr.append((k, v))
    if curr:
        out.append(curr)
    return [[(k.decode("utf-8"), v.decode("utf-8")) for k, v in s]
            for s in out]


def contents(mf):
    return (list(mf.items()),
            {n: list(s.items()) for n, s in mf.sub_sections.items()})


def width(ctx, data, sep):
    sep = sep.encode()
    for line in data.split(sep):
        if len(line) > 72 or b"\n" in line or b"\r" in line:
            ctx.fail("c21:width", "line of %d bytes: %r" % (len(line), line))


def roundtrip(ctx, mf, sep, main, subs, what=""):
    """main: [(key, value)], subs: {name: [(key, value)]}"""
    data = mf.get_data(sep) if sep else mf.get_data()
    width(ctx, data, sep or mf.linesep or os.linesep)
    secs = reader(data)
    ctx.eq(secs[0], main, "c21:written-main", what)
    ctx.eq(sorted(secs[1:]), sorted(subs.values()), "c21:written-sections",
           what)
    back = Manifest()
    back.clear()
    back.parse(data)
    ctx.eq(contents(back), (main, subs), "c21:read", what)
    if sep != "\r":
        ctx.eq(back.get_data(), data, "c21:again", what)
    ctx.step(3)
    return data


CHARS = ["x", "\u00e9", "\u20ac", "\U0001f600", " ", ":", "\t", "\x7f",
         "\u2028", "\u0085", "\ufeff"]


def lengths(top):
    def run(ctx):
        """every length around every continuation boundary"""
        char = ctx.choose("char", CHARS)
        sep = ctx.choose("linesep", SEPS)
        klen = ctx.choose("key", [1, 2, 16, 67, 68])
        place = ctx.choose("place", ["main", "section", "name"])
        lead = ctx.choose("lead", ["", "a", "ab", "abc"])
        if place == "name" and klen != 1:
            ctx.choose("n/a", [])
        key = "K" * klen
        for n in range(0, top + 1):
            value = lead + char * n
            mf = Manifest()
            main, subs = [("Manifest-Version", "1.0")], {}
            if place == "main":
                mf[key] = value
                main.append((key, value))
            elif place == "section":
                mf.create_section("s")[key] = value
                subs["s"] = [("Name", "s"), (key, value)]
            else:
                mf.create_section(value)["K"] = "v"
                subs[value] = [("Name", value), ("K", "v")]
            roundtrip(ctx, mf, sep, main, subs, "%r + %d times %r" %
                      (lead, n, char))
        ctx.state((char, sep, klen, place, lead))
    return run


def positions(ctx):
    """a wide character at every byte around the ends of lines"""
    char = ctx.choose("char", CHARS[1:])
    sep = ctx.choose("linesep", SEPS)
    klen = ctx.choose("key", [1, 2, 3, 16, 60, 66, 68])
    for n in range(0, 230):
        mf = Manifest()
        value = "y" * n + char + "z" * 3
        key = "K" * klen
        mf[key] = value
        roundtrip(ctx, mf, sep, [("Manifest-Version", "1.0"), (key, value)],
                  {}, "character %r after %d" % (char, n))
    ctx.state((char, klen))


# -- keys and values

KEYS = ["a", "A", "a-b", "a_b", "0", "x.y", "a b", "a=b", "\u00e9",
        "", ":", "a:b", "a:", ":a", " a", "a\nb", "a\rb", "a\n", "\n",
        "a\x00b", "\x00", "a\r\nb"]
KEYS += ["k" * n for n in (67, 68, 69, 70, 71, 72, 200)]
KEYS += ["\u00e9" * n for n in (33, 34, 35, 36, 60, 68)]
KEYS += ["\u20ac" * n for n in (22, 23, 24, 68, 69)]
VALUES = ["", "v", " v", "v ", "  ", ":", ": ", "a: b", "Name: x", "\t",
          "\u00e9", "v\n", "\nv", "a\nb", "a\n b", "a\n\nName: x", "a\rb",
          "a\r\nb", "a\x00b", "\x00", "\x0b", "\x0c", "\x1c", "\x85",
          "\u2028", "x" * 65 + "\n", "x" * 80 + "\n", "0"]


def bad_key(k):
    """what cannot be written as a name"""
    if any(c in k for c in "\n\r\x00:") or k.startswith(" ") or not k:
        return True
    n = len(k.encode("utf-8"))
    return None if n in (69, 70) else n > 70


def keyvals(ctx):
    key = ctx.choose("key", KEYS)
    value = ctx.choose("value", VALUES)
    place = ctx.choose("place", ["main", "section", "name"])
    sep = ctx.choose("linesep", SEPS)
    bad = any(c in value for c in "\n\r\x00")
    if place == "name":
        if key != "a":
            ctx.choose("n/a", [])
    elif not bad:
        bad = bad_key(key)
    mf = Manifest()
    main, subs = [("Manifest-Version", "1.0")], {}
    try:
        if place == "main":
            mf[key] = value
            main.append((key, value))
        elif place == "section":
            mf.create_section("s")[key] = value
            subs["s"] = [("Name", "s"), (key, value)]
        else:
            mf.create_section(value)[key] = "v"
            subs[value] = [("Name", value), (key, "v")]
        data = mf.get_data(sep)
    except ManifestKeyException:
        ctx.outcome("refused")
        if bad is False:
            ctx.fail("c21:refused", "%r: %r was refused" % (key, value))
        return
    ctx.outcome("written")
    if bad:
        ctx.fail("c21:accepted", "%r: %r was written as %r" %
                 (key, value, data))
        return
    roundtrip(ctx, mf, sep, main, subs)
    ctx.state((key, value, place))


def several(ctx):
    """sections of any names, values and order"""
    names = ["a", "b", "B", "a b", "\u00e9", "x" * 63, "x" * 64, "x" * 65,
             "x" * 66, "x" * 200, "d/", "d/e", "Name", "0", " lead"]
    mf = Manifest()
    main, subs = [("Manifest-Version", "1.0")], {}
    sep = ctx.choose("linesep", SEPS)
    for i in range(3):
        n = ctx.choose("name%d" % i, [None] + [
            x for x in names if x not in subs])
        if n is None:
            break
        attrs = ctx.choose("attrs%d" % i, [
            [], [("K", "v")], [("K", "w" * 70), ("L", "")],
            [("L", ""), ("K", "v")]], dev=i > 0)
        s = mf.create_section(n)
        for k, v in attrs:
            s[k] = v
        subs[n] = [("Name", n)] + attrs
    roundtrip(ctx, mf, sep, main, subs)
    ctx.state(sorted(subs.items()))
    ctx.outcome(len(subs))


# -- histories

OPS = [("set", None, "K", "1"), ("set", None, "K", "2" * 80),
       ("set", None, "L", "x"), ("set", None, "Manifest-Version", "2.0"),
       ("new", "s", True), ("new", "s", False), ("new", "t", True),
       ("set", "s", "K", "3"), ("set", "t", "K", "4"), ("del", None, "K"),
       ("del", "s", "K"), ("drop", "s"), ("clear",), ("write",),
       ("parse", b"Manifest-Version: 1.0\nK: p\n\nName: s\nM: p\n\n"),
       ("parse", b"Manifest-Version: 1.0\r\n\r\nName: u\r\nK: p\r\n\r\n")]


def history(depth):
    def run(ctx):
        mf = Manifest()
        main = {"Manifest-Version": "1.0"}
        subs = {}
        for i in range(depth):
            op = ctx.choose("op%d" % i, [("end",)] + OPS)
            kind = op[0]
            if kind == "end":
                break
            if kind in ("set", "del"):
                ref = main if op[1] is None else subs.get(op[1])
                got = mf if op[1] is None else mf.sub_sections.get(op[1])
                ctx.eq(ref is None, got is None, "c21:section")
                if ref is None or kind == "del" and op[2] not in ref:
                    ctx.choose("n/a", [])
                if kind == "set":
                    ref[op[2]] = op[3]
                    got[op[2]] = op[3]
                else:
                    del ref[op[2]]
                    del got[op[2]]
            elif kind == "new":
                sec = mf.create_section(op[1], overwrite=op[2])
                if op[2] or op[1] not in subs:
                    subs[op[1]] = {"Name": op[1]}
                ctx.check(sec is mf.sub_sections[op[1]], "c21:created",
                          "not the section of the manifest")
                ctx.eq(sec.primary(), op[1], "c21:primary")
            elif kind == "drop":
                if op[1] not in subs:
                    ctx.choose("n/a", [])
                del subs[op[1]]
                del mf.sub_sections[op[1]]
            elif kind == "clear":
                mf.clear()
                main, subs = {}, {}
            elif kind == "write":
                mf.get_data()
                mf.get_main_section()
            else:
                mf.parse(op[1])
                secs = reader(op[1])
                main.update(secs[0])
                for s in secs[1:]:
                    subs.setdefault(dict(s)["Name"], {}).update(s)
            ctx.eq((dict(mf), {n: dict(s) for n, s in
                               mf.sub_sections.items()}), (main, subs),
                   "c21:model")
            ctx.step(1)
        ctx.state((sorted(main.items()), sorted(
            (n, sorted(s.items())) for n, s in subs.items())))
        if main:
            roundtrip(ctx, mf, None, list(main.items()),
                      {n: list(s.items()) for n, s in subs.items()})
            data = mf.get_main_section()
            ctx.eq(reader(data), [list(main.items())], "c21:main-section")
    return run


# -- ways of writing and reading

class Text(object):
    """a text stream over a binary one, as sys.stdout is"""

    def __init__(self):
        self.buffer = io.BytesIO()


def ways(ctx):
    cls = ctx.choose("class", [Manifest, SignatureManifest])
    own = ctx.choose("own", [None] + SEPS[:2])
    given = ctx.choose("given", [None] + SEPS)
    out = ctx.choose("out", ["data", "stream", "text", "file"])
    into = ctx.choose("in", ["parse", "file", "jar"])
    mf = cls(linesep=own)
    mf["K"] = "v" * 100
    mf.create_section("\u00e9" * 50)["L"] = "w"
    main = list(mf.items())
    ctx.eq(main[0], (("Manifest-Version" if cls is Manifest else
                      "Signature-Version"), "1.0"), "c21:version")
    sep = given or own or os.linesep
    fn = os.path.join(ctx.tmpdir, "m")
    if out == "data":
        data = mf.get_data(given)
    elif out == "file":
        with open(fn, "wb") as fd:
            mf.store(fd, given)
        with open(fn, "rb") as fd:
            data = fd.read()
    else:
        st = io.BytesIO() if out == "stream" else Text()
        mf.store(st, given)
        data = (st if out == "stream" else st.buffer).getvalue()
    width(ctx, data, sep)
    ctx.eq(sorted(reader(data)), sorted([main, [
        ("Name", "\u00e9" * 50), ("L", "w")]]), "c21:written")
    if sep == "\n":
        ctx.check(b"\r" not in data, "c21:linesep", "%r" % data)
    elif sep == "\r\n":
        ctx.eq(data.count(b"\r\n"), data.count(b"\n"), "c21:linesep")
    back = cls()
    if into == "parse":
        back.parse(data)
    elif into == "file":
        with open(fn, "wb") as fd:
            fd.write(data)
        back.parse_file(fn)
    else:
        jar = os.path.join(ctx.tmpdir, "j.jar")
        with zipfile.ZipFile(jar, "w") as zf:
            zf.writestr("META-INF/MANIFEST.MF", data)
        back.load_from_jar(jar)
    ctx.eq(contents(back), contents(mf), "c21:read")
    if sep != "\r":
        ctx.eq(back.linesep, sep, "c21:kept-linesep")
        ctx.eq(back.get_data(), data, "c21:again")
    ctx.step(3)
    ctx.state((cls.__name__, own, given, out, into))


def harnesses(tier):
    deep = tier == "thorough"
    return [Harness("lengths", lengths(1000 if deep else 290), quota=6,
                    timeout=120),
            Harness("positions", positions, quota=6, timeout=120),
            Harness("keys-values", keyvals),
            Harness("sections", several, bound=2 if deep else 1),
            Harness("histories", history(5 if deep else 4)),
            Harness("ways", ways)]
