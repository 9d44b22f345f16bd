"""C29: exploded archives, and what is an archive"""

import io
import os
import zipfile
import zlib

from vlib import trees
from vlib import names as every
from vlib.explore import Harness

from javatools import ziputils

ASSUMPTIONS = [
    "exploded archives of regular files and directories; the packed "
    "archive has an entry for each directory, as the jar tool makes them",
    "file name, sizes and CRC are the entry information of an exploded "
    "archive (documented)",
    "streams for detection can be read, told and sought",
]

SLOTS = [
    ("a", [{}, {"a": b""}, {"a": b"\x00\xff\r\n\x1a"},
           {"a": b"line\r\nline\n" * 3000}]),
    ("d", [{}, {"d/": None}, {"d/a.txt": b"x\r\ny\n"},
           {"d/a.txt": b"1", "d/b.class": b"\xca\xfe\xba\xbe\x80"}]),
    ("deep", [{}, {"d/e/": None}, {"d/e/f/g": b"\xc3\xa9"},
              {"META-INF/MANIFEST.MF": b"Manifest-Version: 1.0\r\n\r\n",
               "META-INF/X.SF": b"x"}]),
    ("odd", [{}, {"a b/\u00e9": b"7"}, {".hidden": b"8", "d.d/": None}]),
]


def full(tree):
    t = {d: None for d in trees.dirs(tree)}
    t.update(tree)
    return t


def make(ctx, tree):
    t = full(tree)
    z = trees.write_zip(t, os.path.join(ctx.tmpdir, "t.jar"),
                        compress=ctx.choose("compress", [True, False]))
    d = trees.write(tree, os.path.join(ctx.tmpdir, "t"))
    form = ctx.choose("form", ["plain", "slash", "relative"])
    os.chdir(ctx.tmpdir)
    return t, z, {"plain": d, "slash": d + "/", "relative": "t"}[form]


def check_archive(ctx, ar, t, packed):
    ctx.eq(sorted(ar.namelist()), sorted(t), "c29:namelist")
    infos = list(ar.infolist())
    ctx.eq(sorted(i.filename for i in infos), sorted(t), "c29:infolist")
    for n in sorted(t):
        i = ar.getinfo(n)
        data = t[n] or b""
        ctx.eq(i.filename, n, "c29:filename", n)
        ctx.eq(i.file_size, len(data), "c29:size", n)
        ctx.eq(i.CRC & 0xffffffff, zlib.crc32(data) & 0xffffffff, "c29:crc",
               n)
        if not packed:
            ctx.eq(i.compress_size, len(data), "c29:csize", n)
        if n.endswith("/"):
            continue
        ctx.eq(ar.read(n), data, "c29:read", n)
        with ar.open(n) as fd:
            ctx.eq(fd.read(), data, "c29:open", n)
        with ziputils.open_zip_entry(ar, n) as fd:
            ctx.eq(fd.read(), data, "c29:entry", n)
            inner = fd
        ctx.check(inner.closed, "c29:closed", "%s is left open" % n)
        with ziputils.open_zip_entry(ar, n, "r") as fd:
            ctx.eq(fd.read(3) + fd.read(), data, "c29:entry-r", n)
        for size in (1, 7, 16384):
            if len(data) > 1000 and size < 1000:
                continue
            chunks = list(ziputils.chunk_zip_entry(ar, n, size))
            ctx.eq(b"".join(chunks), data, "c29:chunks", n)
            ctx.check(all(0 < len(c) <= size for c in chunks),
                      "c29:chunk", "chunks of %r for %d" %
                      ([len(c) for c in chunks][:5], size))
        ctx.eq(b"".join(ziputils.chunk_zip_entry(ar, n)), data, "c29:chunks")
    files = trees.files(t)
    roll = ziputils.zip_entry_rollup(ar)
    ctx.eq(tuple(roll[:2]), (len(files), len(t) - len(files)), "c29:count")
    ctx.eq(roll[3], sum(len(c) for c in files.values()), "c29:total")
    ctx.eq(roll[2], sum(i.compress_size for i in infos
                        if not i.filename.endswith("/")), "c29:compressed")


def archives(ctx):
    tree = trees.choose(ctx, "t", SLOTS)
    t, z, d = make(ctx, tree)
    for path, packed in ((z, True), (d, False)):
        with ziputils.open_zip(path) as ar:
            check_archive(ctx, ar, t, packed)
        ar = ziputils.zip_file(path)
        check_archive(ctx, ar, t, packed)
        ar.close()
    # both say the same about each other
    for l, r in ((z, d), (d, z), (d, d), (z, z)):
        got = sorted(ziputils.compare(l, r))
        ctx.eq(got, sorted((ziputils.SAME, n) for n in trees.files(t)),
               "c29:compare")
    ctx.state(sorted(t))
    ctx.outcome(len(t))


def each(ctx):
    n = every.choose(ctx)
    as_dir = ctx.flag("directory")
    tree = {"a0": b"1", n + "/" if as_dir else n: None if as_dir else b"2"}
    t = full(tree)
    z = trees.write_zip(t, os.path.join(ctx.tmpdir, "t.jar"))
    d = trees.write(tree, os.path.join(ctx.tmpdir, "t"))
    for path, packed in ((z, True), (d, False)):
        with ziputils.open_zip(path) as ar:
            check_archive(ctx, ar, t, packed)


def among(ctx):
    tree = {n: b"%d" % i for i, n in enumerate(every.TOGETHER)}
    t = full(tree)
    z = trees.write_zip(t, os.path.join(ctx.tmpdir, "t.jar"))
    d = trees.write(tree, os.path.join(ctx.tmpdir, "t"))
    for path, packed in ((z, True), (d, False)):
        with ziputils.open_zip(path) as ar:
            check_archive(ctx, ar, t, packed)


def refreshing(ctx):
    """an exploded archive shows what is there after refresh"""
    tree = trees.choose(ctx, "t", SLOTS[:2])
    more = trees.choose(ctx, "u", SLOTS[1:3])
    d = trees.write(tree, os.path.join(ctx.tmpdir, "t"))
    with ziputils.open_zip(d) as ar:
        check_archive(ctx, ar, full(tree), False)
        trees.write(more, d)
        ar.refresh()
        check_archive(ctx, ar, full(more), False)
    ctx.state((sorted(tree), sorted(more)))


# -- detection

def bases():
    out = {"empty": b""}
    for name, tree, comment in (
            ("nothing", {}, b""),
            ("one", {"a": b"hello"}, b""),
            ("comment", {"a": b"hello"}, b"a comment"),
            ("two", {"d/": None, "d/b": b"x" * 50}, b"PK")):
        b = io.BytesIO()
        with zipfile.ZipFile(b, "w") as z:
            for n, c in tree.items():
                z.writestr(zipfile.ZipInfo(n, (2020, 1, 1, 0, 0, 0)),
                           c or b"")
            z.comment = comment
        out[name] = b.getvalue()
    return out


BASES = bases()
CHANGES = ["none", "cut", "head-cut", "prefix", "suffix", "suffix-long",
           "magic", "first"]


class Stream(object):
    """nothing but read, tell and seek"""

    def __init__(self, data):
        self.b = io.BytesIO(data)

    def read(self, n=-1):
        return self.b.read(n)

    def tell(self):
        return self.b.tell()

    def seek(self, *a):
        return self.b.seek(*a)


def is_archive(data):
    """an end of central directory record near the end whose comment
    reaches to the end of the data or is at least announced"""
    lo = max(0, len(data) - (1 << 16) - 22)
    if len(data) < 22:
        return False
    i = data.rfind(b"PK\5\6", lo)
    return i >= 0 and len(data) - i >= 22


def detection(ctx):
    b = ctx.choose("base", sorted(BASES))
    how = ctx.choose("change", CHANGES)
    data = BASES[b]
    if how == "cut":
        n = ctx.choose("at", list(range(len(data))))
        data = data[:n]
    elif how == "head-cut":
        n = ctx.choose("at", list(range(len(data) + 1)))
        data = data[n:]
    elif how == "prefix":
        data = ctx.choose("prefix", [b"#!/bin/sh\n", b"x" * 70000,
                                     b"PK\5\6"]) + data
    elif how == "suffix":
        data = data + b"z" * ctx.choose("n", [1, 21, 22, 23, 1000])
    elif how == "suffix-long":
        data = data + b"z" * ctx.choose("n", [65510, 65536, 65558, 70000])
    elif how == "magic":
        i = data.rfind(b"PK\5\6")
        if i < 0:
            ctx.choose("n/a", [])
        k = ctx.choose("byte", [0, 1, 2, 3])
        d = bytearray(data)
        d[i + k] ^= 1
        data = bytes(d)
    elif how == "first":
        if not data:
            ctx.choose("n/a", [])
        data = b"X" + data[1:]
    want = is_archive(data)
    path = os.path.join(ctx.tmpdir, "f.bin")
    with open(path, "wb") as fd:
        fd.write(data)
    if zipfile.is_zipfile(path) != want:
        # the two references disagree: zip64 or multi-disk corner
        ctx.choose("n/a", [])
    for kind in (bytes, bytearray, memoryview):
        ctx.eq(bool(ziputils.is_zipstream(kind(data))), want,
               "c29:detect", kind.__name__)
    for pos in (0, 1, len(data) // 2, len(data)):
        for kind in ("bytesio", "stream", "file"):
            s = (io.BytesIO(data) if kind == "bytesio" else
                 Stream(data) if kind == "stream" else open(path, "rb"))
            s.seek(pos)
            ctx.eq(bool(ziputils.is_zipstream(s)), want, "c29:detect",
                   "%s at %d" % (kind, pos))
            ctx.eq(s.tell(), pos, "c29:rewound", kind)
            if kind == "file":
                s.close()
    # opening agrees
    try:
        ziputils.zip_file(path).close()
        opened = True
    except Exception:
        opened = False
    if not want:
        ctx.eq(opened, False, "c29:opened")
    elif how == "none":
        ctx.eq(opened, True, "c29:opened")
    for bad in (None, 7, [], object()):
        try:
            ziputils.is_zipstream(bad)
        except TypeError:
            pass
        else:
            ctx.fail("c29:type", "%r was taken for data" % bad)
    ctx.state(data)
    ctx.outcome((b, how, want))


def harnesses(tier):
    t = tier == "thorough"
    return [
        Harness("archives", archives, quota=50,
                describe="every tree over the slots x packed/exploded"),
        Harness("refreshing", refreshing),
        Harness("each", each, quota=20),
        Harness("among", among),
        Harness("detection", detection, quota=100,
                describe="every truncation at both ends, prefixes, suffixes "
                "and damaged magic of a set of archives x kinds of input x "
                "positions"),
    ]
