"""C15: jar comparison"""

import collections
import os

from vlib import edits
from vlib import trees
from vlib import names as every
from vlib.explore import Harness

from javatools import change
from javatools import jardiff
from javatools import ziputils

ASSUMPTIONS = [
    "an entry name occurs once in an archive",
    "a directory entry gives an event only when the other side has no such "
    "entry; an exploded archive has an entry for each directory in it",
    "a class, manifest or signature file whose bytes differ in nothing the "
    "comparison of classes or manifests knows is not a change",
]

LEFT, RIGHT, DIFF, SAME = (ziputils.LEFT, ziputils.RIGHT, ziputils.DIFF,
                           ziputils.SAME)
EV = {LEFT: "left", RIGHT: "right", DIFF: "diff", SAME: "same"}


def entries(tree, form):
    if form == "zip":
        return set(tree)
    return set(tree) | trees.dirs(tree)


def store(ctx, tree, side, form):
    p = os.path.join(ctx.tmpdir, side)
    if form == "zip":
        for x in (p,):
            if os.path.isdir(x):
                import shutil
                shutil.rmtree(x)
        return trees.write_zip(tree, p, compress=side == "l")
    if os.path.isfile(p):
        os.unlink(p)
    return trees.write(tree, p)


def reference(a, fa, b, fb):
    A, B = entries(a, fa), entries(b, fb)
    out = {}
    for n in A | B:
        if n not in B:
            out[n] = LEFT
        elif n not in A:
            out[n] = RIGHT
        elif not n.endswith("/"):
            out[n] = SAME if a[n] == b[n] else DIFF
    return out


def events(ctx, got, want):
    seen = collections.Counter(n for _, n in got)
    twice = sorted(n for n in seen if seen[n] > 1)
    if twice:
        ctx.fail("c15:twice", "more than one event for %r" % twice)
    got = {n: e for e, n in got}
    if got != want:
        bad = sorted(n for n in set(got) | set(want)
                     if got.get(n) != want.get(n))
        ctx.fail("c15:%s-for-%s" % (got.get(bad[0]), want.get(bad[0])),
                 "events %r, expected %r" % (
                     {n: got.get(n) for n in bad},
                     {n: want.get(n) for n in bad}))
    ctx.step(len(want) + 1)


FORMS = [(x, y) for x in ("zip", "dir") for y in ("zip", "dir")]

# plumless and buckeroo have the same CRC
V3 = [b"plumless", b"buckeroo", b"x"]
SLOTS = [
    ("a", [{}] + [{"a": v} for v in V3]),
    ("d", [{}, {"d/": None}, {"d/": None, "d/f": b"1"}, {"d/f": b"1"},
           {"d/f": b"\x802"}]),
    ("M", [{}, {"META-INF/MANIFEST.MF": b"1\r\n"},
           {"META-INF/MANIFEST.MF": b"1\n\n"}]),
]
MORE = SLOTS + [("x", [{}, {"x": b""}, {"x/": None}, {"x/y": b"1"}])]


def compare(slots):
    def run(ctx):
        a = trees.choose(ctx, "l", slots)
        b = trees.choose(ctx, "r", slots)
        for fa, fb in FORMS:
            l = store(ctx, a, "l", fa)
            r = store(ctx, b, "r", fb)
            want = reference(a, fa, b, fb)
            events(ctx, list(ziputils.compare(l, r)), want)
            with ziputils.open_zip(l) as lz, ziputils.open_zip(r) as rz:
                events(ctx, list(ziputils.compare_zips(lz, rz)), want)
                groups = tuple(sorted(p for p, e in want.items() if e == w)
                               for w in (RIGHT, LEFT, DIFF, SAME))
                ctx.eq(tuple(sorted(x) for x in
                             ziputils.collect_compare_zips(lz, rz)),
                       groups, "c15:collect")
            ctx.eq(tuple(sorted(x) for x in
                         ziputils.collect_compare(l, r)), groups,
                   "c15:collect")
        ctx.state(sorted(want.items()))
        ctx.outcome(tuple(len(g) for g in groups))
    return run


SIZES = [0, 1, 4095, 4096, 16383, 16384, 16385, 32768, 32769, 70000]


def contents(ctx):
    """differences at any place of large entries, with the same CRC"""
    n = ctx.choose("size", SIZES)
    where = ctx.choose("where", [None, 0, n // 2, n - 8, 16380, 16384,
                                 32764])
    same_crc = ctx.choose("crc", ["same", "other"])
    left = bytearray(b"ab" * (n // 2 + 1))[:n]
    right = bytearray(left)
    if where is not None:
        if where < 0 or where + 8 > n:
            ctx.choose("n/a", [])
        left[where:where + 8] = b"plumless"
        right[where:where + 8] = b"buckeroo" if same_crc == "same" \
            else b"plumlesz"
    a, b = {"f": bytes(left)}, {"f": bytes(right)}
    for fa, fb in FORMS:
        l = store(ctx, a, "l", fa)
        r = store(ctx, b, "r", fb)
        events(ctx, list(ziputils.compare(l, r)),
               {"f": SAME if a == b else DIFF})
    ctx.state((n, where, same_crc))


# -- jar changes

def cls(names=()):
    return edits.encode(edits.apply(edits.small(), list(names)))[0]


C1, C2 = cls(), cls(["flag-0x10"])
M1 = (b"Manifest-Version: 1.0\r\nA: 1\r\n\r\nName: a\r\nX: 1\r\n\r\n"
      b"Name: b\r\nX: 2\r\n\r\n")
M1x = (b"Manifest-Version: 1.0\r\nA: \r\n 1\r\n\r\n\r\nName: b\r\nX: 2\r\n\r\n"
       b"Name: a\r\nX: 1\r\n\r\n")
M2 = M1.replace(b"X: 1", b"X: 3")
S1 = M1.replace(b"Manifest-", b"Signature-")
S1x = M1x.replace(b"Manifest-", b"Signature-")
S2 = S1.replace(b"X: 2", b"X: 4")

SAMEMEANING = [{M1, M1x}, {S1, S1x}]


def kind(n):
    if n == "META-INF/MANIFEST.MF":
        return "manifest"
    parts = n.split("/")
    if len(parts) == 2 and parts[0] == "META-INF":
        u = parts[1].upper()
        if u.endswith(".SF"):
            return "sf"
        if u.endswith((".RSA", ".DSA", ".EC")) or u.startswith("SIG-"):
            return "block"
    if n.endswith(".class"):
        return "class"
    return "other"


TYPES = {
    ("class", DIFF): jardiff.JarClassChange,
    ("class", SAME): jardiff.JarClassChange,
    ("class", LEFT): jardiff.JarClassRemoved,
    ("class", RIGHT): jardiff.JarClassAdded,
    ("sf", DIFF): jardiff.JarSignatureFileChange,
    ("sf", SAME): jardiff.JarSignatureFileChange,
    ("sf", LEFT): jardiff.JarSignatureFileRemoved,
    ("sf", RIGHT): jardiff.JarSignatureFileAdded,
    ("block", DIFF): jardiff.JarSignatureBlockFileChange,
    ("block", SAME): jardiff.JarSignatureBlockFileChange,
    ("block", LEFT): jardiff.JarSignatureBlockFileRemoved,
    ("block", RIGHT): jardiff.JarSignatureBlockFileAdded,
    ("manifest", DIFF): jardiff.JarManifestChange,
    ("manifest", SAME): jardiff.JarManifestChange,
    ("manifest", LEFT): jardiff.JarContentRemoved,
    ("manifest", RIGHT): jardiff.JarContentAdded,
    ("other", DIFF): jardiff.JarContentChange,
    ("other", SAME): jardiff.JarContentChange,
    ("other", LEFT): jardiff.JarContentRemoved,
    ("other", RIGHT): jardiff.JarContentAdded,
}
SPECIFIC = (jardiff.JarClassChange, jardiff.JarManifestChange,
            jardiff.JarSignatureFileChange,
            jardiff.JarSignatureBlockFileChange, jardiff.JarClassAdded,
            jardiff.JarClassRemoved, jardiff.JarSignatureFileAdded,
            jardiff.JarSignatureFileRemoved,
            jardiff.JarSignatureBlockFileAdded,
            jardiff.JarSignatureBlockFileRemoved)

OPTIONS = []


def options():
    if not OPTIONS:
        OPTIONS.append(jardiff.default_jardiff_options(dict(silent=True)))
    return OPTIONS[0]


def delta_of(ctx, a, fa, b, fb):
    l = store(ctx, a, "l", fa)
    r = store(ctx, b, "r", fb)
    want = reference(a, fa, b, fb)
    delta = jardiff.JarChange(l, r)
    delta.check()
    subs = list(delta.collect())
    types = [s for s in subs if isinstance(s, jardiff.JarTypeChange)]
    conts = [s for s in subs if isinstance(s, jardiff.JarContentsChange)]
    ctx.eq((len(subs), len(types), len(conts)), (2, 1, 1), "c15:parts")
    ctx.eq(bool(types[0].is_change()), fa != fb, "c15:type")
    got = collections.Counter()
    changed = False
    for c in conts[0].collect():
        got[c.entry] += 1
        n = c.entry
        ctx.check(n in want, "c15:entry", "a change for %r" % n)
        ev = want[n]
        k = kind(n)
        t = TYPES[k, ev]
        ctx.check(isinstance(c, t), "c15:kind:%s:%s" % (k, EV[ev]),
                  "%s for %r" % (type(c).__name__, n))
        if k in ("other", "manifest") and t not in SPECIFIC:
            ctx.check(not isinstance(c, SPECIFIC), "c15:kind:%s" % k,
                      "%s for %r" % (type(c).__name__, n))
        ctx.eq(isinstance(c, change.Addition), ev == RIGHT, "c15:added", n)
        ctx.eq(isinstance(c, change.Removal), ev == LEFT, "c15:removed", n)
        w = ev in (LEFT, RIGHT) or ev == DIFF and not any(
            a[n] in s and b[n] in s for s in SAMEMEANING)
        ctx.eq(bool(c.is_change()), w, "c15:changed:%s:%s" % (k, EV[ev]), n)
        ctx.check(n in c.get_description(), "c15:describe",
                  "%r does not name %r" % (c.get_description(), n))
        changed = changed or w
    ctx.eq(sorted(got), sorted(want), "c15:entries")
    ctx.check(not [n for n in got if got[n] > 1], "c15:once",
              "an entry more than once")
    ctx.eq(bool(conts[0].is_change()), changed, "c15:contents")
    changed = changed or fa != fb
    ctx.eq(bool(delta.is_change()), changed, "c15:jar")
    ctx.eq(jardiff.cli_jars_diff(options(), l, r), int(changed), "c15:exit")
    ctx.eq(jardiff.main(["jardiff", "-q", l, r]), int(changed), "c15:main")
    ctx.state(sorted(want.items()))
    return changed


JSLOTS = [
    ("class", [{}, {"x/C.class": C1}, {"x/C.class": C2}]),
    ("mf", [{}, {"META-INF/MANIFEST.MF": M1}, {"META-INF/MANIFEST.MF": M1x},
            {"META-INF/MANIFEST.MF": M2}]),
    ("sig", [{}, {"META-INF/X.SF": S1, "META-INF/X.RSA": b"\x30\x80"},
             {"META-INF/X.SF": S1x, "META-INF/X.RSA": b"\x30\x80"},
             {"META-INF/X.SF": S2, "META-INF/X.RSA": b"\x30\x81"}]),
    ("res", [{}, {"res": b"1\xff", "d/": None}, {"res": b"2\xff"}]),
]


def jars(forms):
    def run(ctx):
        a = trees.choose(ctx, "l", JSLOTS)
        b = trees.choose(ctx, "r", JSLOTS)
        for fa, fb in forms:
            changed = delta_of(ctx, a, fa, b, fb)
        ctx.outcome(changed)
    return run


NAMES = ["a", "META-INF/MANIFEST.MF", "meta-inf/manifest.mf",
         "META-INF/d/X.SF", "META-INF/x.sf", "META-INF/X.DSA",
         "META-INF/x.ec", "META-INF/SIG-X", "META-INF/sig-x", "X.SF",
         "X.RSA", "d/META-INF/X.SF", "META-INF/X.SFX", "x.class", "A.CLASS",
         "META-INF/x.class", "d/MANIFEST.MF", "META-INF/services/x",
         "d/x.class/", "META-INF/", "\u00e9.class", "a b/c$1.class",
         "META-INF/C.class.EC", "deep/er/x.classes"]


def names(ctx):
    n = ctx.choose("name", NAMES)
    k = kind(n)
    if n.endswith("/"):
        vals = [None, None]
    else:
        vals = {"class": [C1, C2], "manifest": [M1, M2], "sf": [S1, S2],
                "block": [b"\x30", b"\x31"]}.get(k, [b"1", b"2"])
    fa, fb = ctx.choose("forms", FORMS)
    side = ctx.choose("sides", ["l", "r", "same", "diff"])
    other = {"zz": b"1"} if ctx.choose("other", [False, True]) else {}
    a, b = dict(other), dict(other)
    if side != "r":
        a[n] = vals[0]
    if side != "l":
        b[n] = vals[1] if side == "diff" else vals[0]
    ctx.outcome(delta_of(ctx, a, fa, b, fb))


def values(n):
    return {"class": [C1, C2], "manifest": [M1, M2], "sf": [S1, S2],
            "block": [b"\x30", b"\x31"]}.get(kind(n), [b"1", b"2"])


def each(ctx):
    """no name is left out"""
    n = every.choose(ctx, False)
    form = ctx.choose("form", ["zip", "dir"] if n in every.PATHS else ["zip"])
    v = values(n)
    for l, r in ((0, None), (None, 0), (0, 0), (0, 1)):
        a, b = {"zz": b"1"}, {"zz": b"1"}
        if l is not None:
            a[n] = v[l]
        if r is not None:
            b[n] = v[r]
        ctx.eq(delta_of(ctx, a, form, b, form), l != r, "c15:each", n)


def among(ctx):
    """nor is one when there are many"""
    form = ctx.choose("form", ["zip", "dir"])
    step = ctx.choose("step", [1, 2, 3])
    side = ctx.choose("side", ["l", "r", "diff", "same"])
    a = {n: values(n)[0] for n in
         (every.ENTRIES if form == "zip" else every.TOGETHER)}
    b = {}
    for i, n in enumerate(a):
        if i % step:
            b[n] = a[n]
        elif side == "diff":
            b[n] = values(n)[1]
        elif side == "same":
            b[n] = a[n]
    if side == "r":
        a, b = b, a
    l = store(ctx, a, "l", form)
    r = store(ctx, b, "r", form)
    events(ctx, list(ziputils.compare(l, r)), reference(a, form, b, form))
    ctx.outcome(side)


def many(totals, forms, ats):
    return lambda ctx: big(ctx, ctx.choose("total", totals),
                           ctx.choose("form", forms),
                           ctx.choose("differing", ats))


def big(ctx, total, form, at):
    """nor when there are more than 16 bits can count"""
    a = {"e%x" % i: b"" for i in range(total)}
    b = dict(a)
    b["e%x" % at] = b"."
    del b["e%x" % 40000]
    b["new"] = b""
    l = store(ctx, a, "l", form)
    r = store(ctx, b, "r", form)
    events(ctx, list(ziputils.compare(l, r)), reference(a, form, b, form))
    ctx.step(total)


def harnesses(tier):
    t = tier == "thorough"
    return [
        Harness("compare", compare(MORE if t else SLOTS), quota=100,
                describe="all pairs of trees x packed/exploded on each "
                "side"),
        Harness("contents", contents, quota=50,
                describe="sizes around the chunk size x place of the "
                "difference x equal CRC"),
        Harness("jars", jars(FORMS if t else FORMS[:2]), quota=50,
                describe="all pairs of jars over class, manifest, signature "
                "and other entries"),
        Harness("names", names, quota=50,
                describe="kinds of entries by name"),
        Harness("each", each, quota=20,
                describe="each of 1500 names added, removed, the same and "
                "changed"),
        Harness("among", among, describe="all names at once"),
        Harness("many", many([65535, 65536], ["zip", "dir"], [0, 65534])
                if t else many([65536], ["zip"], [65534]), timeout=200,
                describe="around 65536 entries"),
    ]
