"""C16: directory comparison"""

import os
import collections

from vlib import trees
from vlib import names as every
from vlib.explore import Harness

from javatools import dirutils

ASSUMPTIONS = [
    "trees of regular files and directories (no links, no special files), "
    "all files with the same modification time",
    "empty directories give no event",
]

LEFT, RIGHT, DIFF, SAME = (dirutils.LEFT, dirutils.RIGHT, dirutils.DIFF,
                           dirutils.SAME)


def reference(a, b):
    a, b = trees.files(a), trees.files(b)
    out = {}
    for p in set(a) | set(b):
        if p not in b:
            out[p] = LEFT
        elif p not in a:
            out[p] = RIGHT
        else:
            out[p] = SAME if a[p] == b[p] else DIFF
    # a name that is a file on one side and a directory on the other does
    # not collide: the file's own name and the names below differ
    return out


def norm(p):
    return os.path.normpath(p)


def verify(ctx, a, b, lpath, rpath):
    want = reference(a, b)
    seen = collections.Counter()
    got = {}
    for ev, p in dirutils.compare(lpath, rpath):
        seen[norm(p)] += 1
        ctx.check(os.path.relpath(p, ".") == p, "c16:name",
                  "%r is not the plain relative path" % p)
        got[p] = ev
    dup = sorted(p for p, n in seen.items() if n > 1)
    if dup:
        ctx.fail("c16:twice", "more than one event for %r" % dup)
    if got != want:
        bad = sorted(p for p in set(got) | set(want)
                     if got.get(p) != want.get(p))
        ctx.fail("c16:%s-for-%s" % (got.get(bad[0]), want.get(bad[0])),
                 "events %r, expected %r" % (
                     {p: got.get(p) for p in bad},
                     {p: want.get(p) for p in bad}))
    ctx.step(len(want) + 1)
    groups = tuple(sorted(p for p, e in want.items() if e == w)
                   for w in (RIGHT, LEFT, DIFF, SAME))
    res = dirutils.collect_compare(lpath, rpath)
    ctx.eq(tuple(sorted(x) for x in res), groups, "c16:collect")
    alt = ["before"]
    res = dirutils.collect_compare_into(lpath, rpath, None, None, alt, None)
    ctx.eq((res[0], res[1], res[3]), (None, None, None), "c16:into-none")
    ctx.check(res[2] is alt, "c16:into", "not collected into the list given")
    ctx.eq(sorted(alt), sorted(["before"] + groups[2]), "c16:into")
    ctx.state((sorted(want.items())))
    ctx.outcome(tuple(len(g) for g in groups))


def variants(p, contents=(b"1", b"2"), extra=()):
    return (p, [{}] + [{p: c} for c in contents] + list(extra))


SLOTS = [
    variants("a"),
    variants("d/a", extra=[{"d/": None}]),
    variants("d/e/a"),
    ("x", [{}, {"x": b"1"}, {"x": b"2"}, {"x/": None}, {"x/y": b"1"},
           {"x/y": b"1", "x/z/": None, "x/w/a": b"1"}]),
]
MORE = SLOTS + [variants("d/x", (b"1", b"22"), [{"d/x/y": b"1"}])]


def pairs(slots):
    def run(ctx):
        a = trees.choose(ctx, "l", slots)
        b = trees.choose(ctx, "r", slots)
        l = trees.write(a, os.path.join(ctx.tmpdir, "l"))
        r = trees.write(b, os.path.join(ctx.tmpdir, "r"))
        verify(ctx, a, b, l, r)
    return run


SIZES = [0, 1, 2, 4095, 4096, 8191, 8192, 8193, 16383, 16384, 16385, 32767,
         32768, 32769, 65536, 65537]


def contents(ctx):
    """differences at any place of files of many sizes"""
    n = ctx.choose("size", SIZES)
    where = ctx.choose("where", ["same", 0, 1, n // 2, n - 1, 16383, 16384,
                                 "shorter", "longer", "earlier", "later"])
    data = bytearray(b"ab" * (n // 2 + 1))[:n]
    other = bytearray(data)
    stamp = trees.STAMP
    if where == "shorter":
        if not n:
            ctx.choose("n/a", [])
        other = other[:-1]
    elif where == "longer":
        other += b"b"
    elif where == "earlier":
        stamp -= 5
    elif where == "later":
        stamp += 5
    elif where != "same":
        if not 0 <= where < n:
            ctx.choose("n/a", [])
        other[where] ^= 1
    swap = ctx.choose("swap", [False, True])
    a, b = {"d/f": bytes(data)}, {"d/f": bytes(other)}
    if swap:
        a, b = b, a
    l = trees.write(a, os.path.join(ctx.tmpdir, "l"))
    r = trees.write(b, os.path.join(ctx.tmpdir, "r"), stamp)
    verify(ctx, a, b, l, r)


NAMES = ["f", ".f", "f~", "f.pyc", "CVS", "RCS", "tags", "__pycache__", "F",
         "f f", "-f", "f\n", "\u00e9", "*", "[a]", "..f", "core"]


def names(ctx):
    """no name is special"""
    n = ctx.choose("name", NAMES)
    where = ctx.choose("where", ["%s", "d/%s", "%s/f", "d/%s/f"])
    p = where % n
    a = ctx.choose("left", [{}, {p: b"1"}, {p: b"2", "z": b"z"}])
    b = ctx.choose("right", [{}, {p: b"1"}, {p: b"3"}])
    form = ctx.choose("form", ["plain", "slash", "relative", "dotted"])
    trees.write(a, os.path.join(ctx.tmpdir, "l"))
    trees.write(b, os.path.join(ctx.tmpdir, "r"))
    l, r = {"plain": (ctx.tmpdir + "/l", ctx.tmpdir + "/r"),
            "slash": (ctx.tmpdir + "/l/", ctx.tmpdir + "/r/"),
            "relative": ("l", "r"),
            "dotted": ("./l/../l", "./r")}[form]
    os.chdir(ctx.tmpdir)
    verify(ctx, a, b, l, r)


def each(ctx):
    """no name is left out, of a file or a directory"""
    n = every.choose(ctx)
    if ctx.choose("as", ["file", "directory"]) == "directory":
        n += "/f"
    for l, r in ((b"1", None), (None, b"1"), (b"1", b"1"), (b"1", b"2")):
        a, b = {"zz": b"1"}, {"zz": b"1"}
        if l:
            a[n] = l
        if r:
            b[n] = r
        verify(ctx, a, b, trees.write(a, os.path.join(ctx.tmpdir, "l")),
               trees.write(b, os.path.join(ctx.tmpdir, "r")))


def among(ctx):
    a = {n: b"1" for n in every.TOGETHER}
    step = ctx.choose("step", [1, 2, 3])
    diff = ctx.flag("diff")
    b = {n: c + b"2" * (i % step == 1) for i, (n, c) in enumerate(a.items())
         if i % step or diff}
    if ctx.flag("swap"):
        a, b = b, a
    verify(ctx, a, b, trees.write(a, os.path.join(ctx.tmpdir, "l")),
           trees.write(b, os.path.join(ctx.tmpdir, "r")))


def harnesses(tier):
    t = tier == "thorough"
    return [
        Harness("pairs", pairs(MORE if t else SLOTS), quota=400,
                describe="all pairs of trees over the slots"),
        Harness("contents", contents,
                describe="file sizes around the chunk sizes x place of the "
                "difference x time stamps"),
        Harness("names", names,
                describe="special names x places x forms of the roots"),
        Harness("each", each, quota=20, describe="each of 1500 names"),
        Harness("among", among, describe="all names at once"),
    ]
