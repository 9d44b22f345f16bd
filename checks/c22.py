"""C22: manifests are parsed as the JAR specification says"""

import itertools
import os
import zipfile

from vlib.explore import Harness

from javatools.manifest import Manifest, ManifestSection, \
    MalformedManifest, ManifestKeyException, SignatureManifest, \
    parse_sections

ASSUMPTIONS = [
    "texts that do not begin with a blank line, without NUL bytes, valid "
    "UTF-8, no attribute twice in a section (whatever its case)",
    "every section but the main one begins with its Name",
    "a name and nothing but a colon on a line, and an empty name, may be "
    "taken or refused",
    "a last line without line end counts as a line",
]


class Malformed(Exception):
    pass


class Outside(Exception):
    """not in the domain of the check"""


# -- an independent parser of the specification, working on lines of bytes

def ref_parse(lines, version="Manifest-Version"):
    """(main, {name: section}) of the lines, as dicts of str; the names that
    are looked up as the specification spells them"""
    secs = []
    new = True
    for line in lines:
        if not line:
            if not secs:
                raise Outside()
            new = True
        elif line[:1] == b" ":
            if new:
                raise Malformed(line)
            k, v = secs[-1][-1]
            secs[-1][-1] = (k, v + line[1:])
        else:
            at = line.find(b":")
            if at < 0:
                raise Malformed(line)
            if at == 0 or at == len(line) - 1:
                raise Outside()
            if line[at + 1:at + 2] != b" ":
                raise Malformed(line)
            if new:
                secs.append([])
                new = False
            secs[-1].append((line[:at], line[at + 2:]))
    out = []
    for s in secs:
        keys = [k.lower() for k, _v in s]
        if len(set(keys)) < len(keys):
            raise Outside()
        try:
            special = "Name" if out else version
            out.append([(special if k.lower() == special.lower().encode()
                         else k.decode("utf-8"), v.decode("utf-8"))
                        for k, v in s])
        except UnicodeDecodeError:
            raise Outside()
    subs = {}
    for s in out[1:]:
        if s[0][0] != "Name":
            raise Outside()
        subs.setdefault(s[0][1], {}).update(s)
    return dict(out[0]) if out else {}, subs


def expect(lines, cls=Manifest):
    """ref_parse, but Malformed wins over Outside: what comes before a
    malformed line does not heal it"""
    try:
        return ref_parse(lines, "Signature-Version" if issubclass(
            cls, SignatureManifest) else "Manifest-Version")
    except Malformed:
        return Malformed


def join(lines, ends, last):
    n = len(ends)
    text = b"".join(line + ends[i % n] for i, line in enumerate(lines))
    if not last and lines:
        text = text[:-len(ends[(len(lines) - 1) % n])]
    return text


ENDS = {"LF": [b"\n"], "CRLF": [b"\r\n"], "CR": [b"\r"],
        "LF,CRLF": [b"\n", b"\r\n"], "CRLF,LF": [b"\r\n", b"\n"],
        "CR,CRLF,LF": [b"\r", b"\r\n", b"\n"]}


def parsed(cls, text):
    mf = cls()
    mf.clear()
    try:
        mf.parse(text)
    except MalformedManifest:
        return Malformed
    return dict(mf), {n: dict(s) for n, s in mf.sub_sections.items()}


def compare(ctx, lines, ends, last, cls=Manifest):
    # a text of which only a part was split into lines differently: CR LF
    # must not come about by joining
    text = join(lines, ends, last)
    want = expect(lines, cls)
    got = parsed(cls, text)
    if got != want:
        ctx.fail("c22:parsed" if want is not Malformed else
                 "c22:accepted" if got is not Malformed else "c22:refused",
                 "%r is %s, expected %s" % (
                     text, *("refused" if x is Malformed else repr(x)
                             for x in (got, want))))
    return want


ALPHABET = [b"Manifest-Version: 1.0", b"K: v", b"L:  w: x ", b"M: ",
            b"Name: a", b"Name: b c", b" n", b"  o ", b" ", b"",
            b"\xc3\xa9: \xe2\x82\xac", b"nocolon", b"x:y"]


def texts(depth):
    def run(ctx):
        """every sequence of lines"""
        first = ctx.choose("line0", ALPHABET)
        second = ctx.choose("line1", [None] + ALPHABET)
        style = ctx.choose("ends", sorted(ENDS))
        last = ctx.flag("ends with a line end")
        ends = ENDS[style]
        n = 0
        top = depth - 2 if second is not None else 0
        for k in range(top + 1):
            for rest in itertools.product(ALPHABET, repeat=k):
                lines = [first] + ([second] if second is not None else []) \
                    + list(rest)
                try:
                    want = compare(ctx, lines, ends, last)
                except Outside:
                    continue
                n += 1
                if n % 50 == 0:
                    ctx.state(repr(want))
        ctx.step(n)
        if not n:
            ctx.choose("n/a", [])
        ctx.outcome(n)
    return run


# sections: the lines of a file with many sections, of any order and with
# any number of blank lines between them

SECTIONS = [[b"Name: a", b"K: 1"], [b"Name: b", b"K: 2", b"L: 3"],
            [b"Name: a", b"L: 4"], [b"Name: a", b"K: 5"],
            [b"Name: \xc3", b" \xa9/b", b" c", b"K: ", b" 6"],
            [b"Name: a", b" ", b"M: 7"], [b"Name: "], [b"Name: None"],
            [b"name: a", b"N: 8"], [b"NAME: c", b"manifest-version: 9",
                                    b"Namen: x"]]


def sections(depth):
    return lambda ctx: sections_run(ctx, depth)


def sections_run(ctx, depth):
    lines = ctx.choose("main", [
        [b"Manifest-Version: 1.0", b"K: main"],
        [b"manifest-version: 2.0", b"K: main"],
        [b"K: main", b"SIGNATURE-VERSION: 2.0", b"MANIFEST-Version: 3"],
        [b"signature-Version: 2.0"]], dev=True)[:]
    for i in range(depth):
        s = ctx.choose("section%d" % i, [None] + SECTIONS)
        if s is None:
            break
        lines += [b""] * ctx.choose("blank%d" % i, [1, 2, 3], dev=True)
        lines += s
    lines += [b""] * ctx.choose("tail", [0, 1, 2])
    style = ctx.choose("ends", sorted(ENDS))
    cls = ctx.choose("class", [Manifest, SignatureManifest], dev=True)
    want = compare(ctx, lines, ENDS[style], ctx.flag("last"), cls)
    ctx.step(len(lines))
    ctx.state(repr(want))
    ctx.outcome(len(want[1]))


VALUES = [b"abcdefgh", b" a  b  ", "\u00e9\u20ac\U0001f600".encode(),
          b"a: b: c", b"Name: x", "x\u2028\u0085y".encode(),
          b"a\x0bb\x0c\x1c\x1d", b"\xef\xbb\xbf\xef\xbb\xbf"]


def continuations(ctx):
    """a value broken anywhere, as often as can be"""
    value = ctx.choose("value", VALUES)
    key = ctx.choose("key", [b"K", b"Name"])
    style = ctx.choose("ends", sorted(ENDS))
    after = ctx.choose("after", [[], [b""], [b"L: x"], [b"", b"Name: z"]])
    empty = ctx.flag("empty continuation")
    ends = ENDS[style]
    n = len(value)
    for mask in range(1 << (n + 1)):
        parts, curr = [], b""
        for i in range(n + 1):
            if mask >> i & 1:
                parts.append(curr)
                curr = b""
            curr += value[i:i + 1]
        parts.append(curr)
        lines = [key + b": " + parts[0]] + [b" " + p for p in parts[1:]]
        if empty:
            lines.append(b" ")
        if key == b"Name":
            lines = [b"Manifest-Version: 1.0", b""] + lines
        want = compare(ctx, lines + after, ends, True)
        got = want[1] if key == b"Name" else want[0]["K"]
        assert value.decode() in got
    ctx.step(1 << (n + 1))
    ctx.state((value, key, style))


def bad_lines(ctx):
    """one malformed line anywhere"""
    good = ctx.choose("text", [
        [b"Manifest-Version: 1.0"],
        [b"Manifest-Version: 1.0", b"K: v", b" w"],
        [b"Manifest-Version: 1.0", b"", b"Name: a", b"K: v", b"",
         b"Name: b", b" c"]])
    bad = ctx.choose("line", [
        b"nocolon", b"a:b", b"a:\tb", b"\tx", b"a b", b"a :b", b"K:v: w",
        b"a=b", b"\xc3\xa9", b"a:b c", b"a,: ,:b"[:2], b"http://x: y"])
    style = ctx.choose("ends", sorted(ENDS))
    last = ctx.flag("last")
    for at in range(len(good) + 1):
        lines = good[:at] + [bad] + good[at:]
        try:
            want = compare(ctx, lines, ENDS[style], last)
        except Outside:
            continue
        ctx.check(want is Malformed, "c22:oracle", repr(lines))
        ctx.step(1)
    # a continuation with nothing to continue
    for cont in (b" x", b" ", b"  ", b" K: v"):
        for at in range(len(good) + 1):
            if at and good[at - 1]:
                lines = good[:at] + [b"", cont] + good[at:]
            else:
                lines = good[:at] + [cont] + good[at:]
            if expect(lines) is not Malformed:
                ctx.fail("c22:oracle", repr(lines))
            compare(ctx, lines, ENDS[style], last)
            ctx.step(1)


def long_keys(ctx):
    n = ctx.choose("length", [1, 2, 67, 68, 71, 72, 100, 1000])
    place = ctx.choose("place", ["main", "section"])
    end = ctx.choose("ends", [b"\n", b"\r\n"])
    key = b"k" * n
    lines = [b"Manifest-Version: 1.0", b"", b"Name: a", key + b": v"] \
        if place == "section" else [b"Manifest-Version: 1.0", key + b": v"]
    mf = Manifest()
    try:
        mf.parse(join(lines, [end], True))
        got = mf if place == "main" else mf.sub_sections["a"]
        ctx.eq(dict(got)[key.decode()], "v", "c22:long")
        ctx.check(n <= 70, "c22:long", "a name of %d bytes was taken" % n)
    except ManifestKeyException:
        ctx.check(n > 68, "c22:long", "a name of %d bytes was refused" % n)


def sources(ctx):
    """from memory, a file or a jar; the line end is kept for writing"""
    lines = ctx.choose("text", [
        [b"Manifest-Version: 1.0", b""],
        [b"Manifest-Version: 2.1", b"K: " + b"x" * 60, b" y", b""],
        [b"Manifest-Version: 1.0", b"", b"Name: a", b"K: v", b""],
        [b"Manifest-Version: 1.0", b"nocolon"]])
    style = ctx.choose("ends", ["LF", "CRLF"])
    how = ctx.choose("from", ["memory", "file", "jar", "sections"])
    data = join(lines, ENDS[style], True)
    want = expect(lines)
    fn = os.path.join(ctx.tmpdir, "m")
    mf = Manifest()
    try:
        if how == "memory":
            mf.parse(data)
        elif how == "file":
            with open(fn, "wb") as fd:
                fd.write(data)
            mf.parse_file(fn)
        elif how == "jar":
            with zipfile.ZipFile(fn, "w") as zf:
                zf.writestr("a", "b")
                zf.writestr("META-INF/MANIFEST.MF", data)
            mf.load_from_jar(fn)
        else:
            secs = [[(k, "".join(v)) for k, v in s]
                    for s in parse_sections(data)]
            ctx.eq(secs[0], list(want[0].items()) if want is not Malformed
                   else None, "c22:sections")
            ctx.eq([dict(s) for s in secs[1:]], list(want[1].values()),
                   "c22:sections")
            return
        got = dict(mf), {n: dict(s) for n, s in mf.sub_sections.items()}
    except MalformedManifest:
        got = Malformed
    ctx.eq(got, want, "c22:source", how)
    if got is not Malformed:
        ctx.eq(mf.linesep, {"LF": "\n", "CRLF": "\r\n"}[style],
               "c22:linesep")
        ctx.eq(mf.primary(), want[0]["Manifest-Version"], "c22:version")
        for n, s in mf.sub_sections.items():
            ctx.check(isinstance(s, ManifestSection), "c22:type", repr(s))
            ctx.eq(s.primary(), n, "c22:primary")
    ctx.outcome(got is Malformed)


def harnesses(tier):
    deep = tier == "thorough"
    return [Harness("texts", texts(6 if deep else 5), quota=20,
                    timeout=400),
            Harness("sections", sections(4 if deep else 3), bound=1),
            Harness("continuations", continuations, quota=20, timeout=60),
            Harness("malformed", bad_lines), Harness("long-keys", long_keys),
            Harness("sources", sources)]
