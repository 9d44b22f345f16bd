"""C17: distribution comparison"""

import collections
import io
import itertools
import os
import zipfile

from vlib import edits
from vlib import trees
from vlib.explore import Harness
from checks.c14 import parse
from checks.c15 import M1, M1x, M2

from javatools import change
from javatools import distdiff

ASSUMPTIONS = [
    "a class, jar or manifest whose bytes differ in nothing the comparison "
    "of classes, jars or manifests knows is not a change, except in the "
    "shallow mode",
    "manifests that differ only in the order of their attributes are "
    "outside the domain",
]


def cls(names=(), order=None):
    return edits.encode(edits.apply(edits.small(), list(names)), order)[0]


def jar(entries, date=(2020, 1, 1, 0, 0, 0), compress=True):
    out = io.BytesIO()
    with zipfile.ZipFile(out, "w") as z:
        for n, c in entries:
            i = zipfile.ZipInfo(n, date)
            i.compress_type = zipfile.ZIP_DEFLATED if compress \
                else zipfile.ZIP_STORED
            z.writestr(i, c)
    return out.getvalue()


C = cls()
CP = cls(["pool-unused"])
CF = cls(["flag-0x10"])
CFP = cls(["flag-0x10", "pool-unused"])
J = [("x/C.class", C), ("res", b"1")]
MA = M1.replace(b"A: 1", b"A: 2")

# per kind: name, and contents with what is in them; two contents differ
# in the facets in which their values differ
KINDS = {
    "class": ("p/C.class", [
        (C, {}), (CP, {"pool": 1}), (CF, {"flag": 1}),
        (CFP, {"pool": 1, "flag": 1})]),
    "jar": ("lib/x.jar", [
        (jar(J), {}),
        (jar(J[::-1], (2021, 1, 1, 0, 0, 0), False), {}),
        (jar([("x/C.class", CP), J[1]]), {"pool": 1}),
        (jar([J[0], ("res", b"2")]), {"res": 1}),
        (jar([("x/C.class", CP), ("res", b"2")]), {"pool": 1, "res": 1}),
        (jar(J[:1]), {"res": 2}),
        (jar(J + [("more", b"")]), {"more": 1})]),
    "text": ("t/n.txt", [
        (b"a\nb\n", {}), (b"a \r\nb\t\r\n", {"ws": 1}),
        (b"a\nb", {"ws": 2}), (b"a\nc\n", {"text": 1}),
        (b" a\nb\n", {"text": 2}), (b"a\n\xff\n", {"text": 3}),
        (b"a\n\xfe \n", {"text": 4, "ws": 3}), (b"", {"text": 5}),
        (b"a\nb\n \n", {"ws": 4})]),
    "manifest": ("m/MANIFEST.MF", [
        (M1, {}), (M1x, {}), (M2, {"section": 1}), (MA, {"main": 1}),
        (MA.replace(b"X: 1", b"X: 3"), {"main": 1, "section": 1})]),
    "other": ("o.bin", [(b"1", {"bytes": 1}), (b"2", {"bytes": 2}),
                        (b"", {"bytes": 3}), (b"1\n", {"bytes": 4})]),
}
NAME = {k: v[0] for k, v in KINDS.items()}

D = distdiff
TYPES = {
    "class": (D.DistClassRemoved, D.DistClassAdded, D.DistClassChange),
    "jar": (D.DistJarRemoved, D.DistJarAdded, D.DistJarChange),
    "text": (D.DistContentRemoved, D.DistContentAdded, D.DistTextChange),
    "manifest": (D.DistContentRemoved, D.DistContentAdded,
                 D.DistManifestChange),
    "other": (D.DistContentRemoved, D.DistContentAdded,
              D.DistContentChange),
}

# option -> facets it covers, per kind
OPTIONS = {
    "--ignore-pool": {"class": {"pool"}, "jar": {"pool"}},
    "--ignore-trailing-whitespace": {"text": {"ws"}},
    "--ignore-manifest": {"manifest": {"main", "section"}},
    "--ignore-manifest-subsections": {"manifest": {"section"}},
    "--ignore-jar-entry=res": {"jar": {"res"}},
    "--ignore-jar-entry=*o*": {"jar": {"more"}},
}
# file name pattern -> which of the names above match
PATTERNS = {
    "p/C.class": {"class"}, "C.class": set(), "*.class": {"class"},
    "*": set(KINDS), "lib/*": {"jar"}, "?/*": {"class", "text", "manifest"},
    "o.bin": {"other"}, "*.[tb]*": {"text", "other"}, "lib": set(),
    "*n*": {"text", "other"},
}
FLAGS = sorted(OPTIONS) + ["--ignore-filenames=" + p
                           for p in sorted(PATTERNS)]


def optsets(n):
    return [s for k in range(n + 1)
            for s in itertools.combinations(FLAGS, k)]


def facets(x, y):
    return {f for f in set(x) | set(y) if x.get(f) != y.get(f)}


def expect(kind, l, r, shallow, flags):
    """is it changed, is it hidden by the options"""
    names = {f.split("=", 1)[1] for f in flags
             if f.startswith("--ignore-filenames")}
    hidden = any(kind in PATTERNS[p] for p in names)
    if l is None or r is None:
        return True, hidden
    diff = facets(l[1], r[1])
    changed = bool(diff) if not shallow else l[0] != r[0]
    if shallow:
        return changed, hidden
    cover = set()
    for f in flags:
        cover |= OPTIONS.get(f, {}).get(kind, set())
    if kind == "text" and diff - {"ws"}:
        cover = set()
    return changed, changed and (hidden or diff <= cover)


def verify(ctx, files, optsets, cli):
    """files: kind -> (left, right)"""
    a = {NAME[k]: l[0] for k, (l, r) in files.items() if l is not None}
    b = {NAME[k]: r[0] for k, (l, r) in files.items() if r is not None}
    lp = trees.write(a, os.path.join(ctx.tmpdir, "l"))
    rp = trees.write(b, os.path.join(ctx.tmpdir, "r"))
    for shallow in (False, True):
        delta = distdiff.DistChange(lp, rp, shallow)
        delta.check()
        subs = {}
        for c in delta.collect():
            ctx.check(c.entry not in subs, "c17:twice", c.entry)
            subs[c.entry] = c
        want = {NAME[k] for k, lr in files.items() if lr != (None, None)}
        ctx.eq(sorted(subs), sorted(want), "c17:entries")
        anyc = False
        for k, (l, r) in files.items():
            if l is r is None:
                continue
            c = subs[NAME[k]]
            i = 0 if r is None else 1 if l is None else 2
            kinds = TYPES["other" if shallow else k]
            ctx.eq(type(c), kinds[i], "c17:kind:%s:%d" % (k, i))
            ctx.eq(isinstance(c, change.Addition), i == 1, "c17:added")
            ctx.eq(isinstance(c, change.Removal), i == 0, "c17:removed")
            changed = expect(k, l, r, shallow, ())[0]
            ctx.eq(bool(c.is_change()), changed, "c17:changed:%s" % k,
                   "%r %r shallow=%r" % (l, r, shallow))
            ctx.check(NAME[k] in c.get_description(), "c17:describe",
                      c.get_description())
            anyc = anyc or changed
        ctx.eq(bool(delta.is_change()), anyc, "c17:dist")
        for flags in optsets:
            fl = list(flags) + (["--shallow"] if shallow else [])
            opts = parse(distdiff, fl)
            bad = False
            for k, (l, r) in files.items():
                if l is r is None:
                    continue
                changed, hidden = expect(k, l, r, shallow, flags)
                bad = bad or changed and not hidden
                if changed:
                    ctx.eq(bool(subs[NAME[k]].is_ignored(opts)), hidden,
                           "c17:ignored:%s" % k, "%r %r %r" % (fl, l, r))
            ctx.eq(int(delta.is_change() and not delta.is_ignored(opts)),
                   int(bad), "c17:verdict", repr(fl))
            if cli and len(flags) <= 1:
                ctx.eq(distdiff.main(["distdiff", "-q", lp, rp] + fl),
                       int(bad), "c17:exit", repr(fl))
        if shallow:
            ctx.outcome(bad)
    ctx.state(sorted((k, l and l[0], r and r[0])
                     for k, (l, r) in files.items()))


def one(n):
    sets = optsets(n)

    def run(ctx):
        kind = ctx.choose("kind", sorted(KINDS))
        alts = [None] + KINDS[kind][1]
        lab = lambda v: str(v and sorted(v[1].items()))
        l = ctx.choose("left", alts, label=lab)
        r = ctx.choose("right", alts, label=lab)
        verify(ctx, {kind: (l, r)}, sets, True)
    return run


FEW = {k: v[1][:1] + [x for x in v[1][1:] if len(x[1]) == 1][:1] +
       v[1][-1:] for k, v in KINDS.items()}


def several(n, flags):
    sets = [s for s in optsets(flags)]

    def run(ctx):
        ks = ctx.choose("kinds", list(itertools.combinations(
            sorted(KINDS), n)))
        files = {}
        for k in ks:
            alts = [None] + FEW[k]
            lab = lambda v: str(v and sorted(v[1].items()))
            files[k] = (ctx.choose("l " + k, alts[:3], label=lab),
                        ctx.choose("r " + k, alts, label=lab))
        verify(ctx, files, sets, False)
    return run


NAMES = {
    "a.jar": "jar", "d/a.ear": "jar", "a.war": "jar", "x/y/a.sar": "jar",
    "a.rar": "jar", ".jar": "jar", "a.class": "class", "d/e/a.class":
    "class", "a$1.class": "class", "a.bat": "text", "a.cert": "text",
    "a.cfg": "text", "a.conf": "text", "a.dtd": "text", "d/a.html": "text",
    "a.ini": "text", "a.properties": "text", "a.sh": "text",
    "a.text": "text", "a.txt": "text", "a.xml": "text",
    "MANIFEST.MF": "manifest", "META-INF/MANIFEST.MF": "manifest",
    "a/b/MANIFEST.MF": "manifest", "xMANIFEST.MF": "other",
    "MANIFEST.MF.x": "other", "a.jar.x": "other", "jar": "other",
    "a.zip": "other", "a.JAR": "other", "a.Class": "other", "a.txt~":
    "other", "a.class.txt": "text", "a.txt.class": "class",
    "a.class/b": "other", "d.jar/b.txt": "text", "a.xml.jar": "jar",
    "a.md": "other", "README": "other", "\u00e9.txt": "text",
    "a b.txt": "text",
}
for _e in ("ear", "jar", "rar", "sar", "war", "class", "bat", "cert", "cfg",
           "conf", "dtd", "html", "ini", "properties", "sh", "text", "txt",
           "xml"):
    _k = NAMES.get("a." + _e) or NAMES.get("d/a." + _e) or NAMES["x/y/a." + _e]
    for _n in ("a.%ss", "a.%s2", "a%s", "a.x%s", "a.%s.", "a.%s ", "%s",
               "%s/a", "a.%s/%s"):
        NAMES[_n.replace("%s", _e)] = "other"
    for _n in (".%s", "a..%s", "[a].%s", "a*.%s", "d.x/a.%s", "-a\n.%s",
               "MANIFEST.MF.%s"):
        NAMES[_n % _e] = _k
    NAMES["a." + _e.upper()] = NAMES["a." + _e[:-1]] = "other"
for _n, _k in (("manifest.mf", "other"), ("a/Manifest.mf", "other"),
               ("MANIFEST.MF/a", "other"), ("a/MANIFEST.MF/MANIFEST.MF",
                                            "manifest"),
               ("MANIFEST.MFx", "other"), ("d/xMANIFEST.MF", "other"),
               ("MANIFEST_MF", "other"), ("x/MANIFEST.M", "other")):
    NAMES[_n] = _k


def names(ctx):
    """the kind of a file by its name"""
    n = ctx.choose("name", sorted(NAMES))
    k = NAMES[n]
    v = KINDS[k][1]
    ev = ctx.choose("event", ["left", "right", "same", "diff"])
    shallow = ctx.flag("shallow")
    other = ctx.flag("other")
    x, y = v[0][0], v[2][0]
    a = {} if ev == "right" else {n: x}
    b = {} if ev == "left" else {n: y if ev == "diff" else x}
    if other:
        a["zz/f"] = b["zz/f"] = b"1"
    lp = trees.write(a, os.path.join(ctx.tmpdir, "l"))
    rp = trees.write(b, os.path.join(ctx.tmpdir, "r"))
    delta = distdiff.DistChange(lp, rp, shallow)
    delta.check()
    subs = [c for c in delta.collect() if c.entry != "zz/f"]
    ctx.eq([c.entry for c in subs], [n], "c17:entries")
    i = {"left": 0, "right": 1}.get(ev, 2)
    ctx.eq(type(subs[0]), TYPES["other" if shallow else k][i],
           "c17:kind:%s:%s" % (k, ev), n)
    ctx.eq(bool(subs[0].is_change()), ev != "same", "c17:changed:%s" % k, n)
    ctx.eq(len(delta.collect()), 1 + other, "c17:entries")
    fl = ["--shallow"] if shallow else []
    ctx.eq(distdiff.main(["distdiff", "-q", lp, rp] + fl),
           int(ev != "same"), "c17:exit")
    ctx.eq(distdiff.main(["distdiff", "-q", lp, rp, "--ignore-filenames=zz*",
                          "--ignore-filenames=" + "".join(
                              "[%s]" % x if x in "[*?" else x
                              for x in n)] + fl),
           0, "c17:exit", "ignored by its name")
    ctx.eq(distdiff.main(["distdiff", "-q", lp, rp,
                          "--ignore-filenames=" + n + "x"] + fl),
           int(ev != "same"), "c17:exit", "another name ignored")
    ctx.state((n, ev, shallow, other))
    ctx.outcome((k, ev))


def harnesses(tier):
    t = tier == "thorough"
    return [
        Harness("one", one(3 if t else 2), quota=4,
                describe="a file of each kind, all pairs of contents, all "
                "sets of up to 2 (3) options"),
        Harness("names", names, quota=50),
        Harness("two", several(2, 2 if t else 1), quota=20,
                describe="all pairs of kinds, pairs of contents"),
    ] + ([Harness("three", several(3, 1), quota=20)] if t else [])
