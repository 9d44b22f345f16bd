"""C14: ignore options hide exactly their category"""

import fnmatch
import os

from vlib import edits
from vlib import html
from vlib.explore import Harness
from vlib import trees
from checks.c12 import options

from javatools import unpack_class
from javatools import classdiff
from javatools import distdiff
from javatools import jardiff

ASSUMPTIONS = [
    "which category an option covers is taken from its name, its help text "
    "and the property: version options also cover the platform difference "
    "that a version difference implies",
    "manifests whose attributes only differ in order, a manifest present on "
    "one side only, and signature files under the manifest options are "
    "outside the domain",
]

# -- class options

SIMPLE = ["version-up", "version-down", "platform-up", "platform-down",
          "absolute-lines", "relative-lines", "deprecated", "added", "pool"]
COMPOSITE = {"lines": ("absolute-lines", "relative-lines"),
             "version": ("version-up", "version-down"),
             "platform": ("platform-up", "platform-down")}
FLAGS = SIMPLE + sorted(COMPOSITE)

PARSED = {}


def parse(module, args):
    key = (module.__name__,) + tuple(args)
    if key not in PARSED:
        o = module.create_optparser().parse_args(list(args) + ["x", "y"])
        o.silent = True
        PARSED[key] = o
    return PARSED[key]


def expand(flags):
    out = set()
    for f in flags:
        out |= set(COMPOSITE.get(f, (f,)))
    return out


def covered(leaf, active, up):
    """up: the right class has the higher format version (None: equal)"""
    if leaf == "ClassVersionChange":
        return (up is True and "version-up" in active or
                up is False and "version-down" in active)
    if leaf == "ClassPlatformChange":
        return (up is True and active & {"version-up", "platform-up"} or
                up is False and active & {"version-down", "platform-down"})
    if leaf == "CodeAbsoluteLinesChange":
        return "absolute-lines" in active
    if leaf == "CodeRelativeLinesChange":
        return "relative-lines" in active
    if leaf.endswith("DeprecationChange"):
        return "deprecated" in active
    if leaf in ("FieldAdded", "MethodAdded"):
        return "added" in active
    if leaf == "ClassConstantPoolChange":
        return "pool" in active
    return False


EDITS = ["version-up", "version-down", "minor-up", "java17",
         "class-deprecated", "f1-deprecated", "m0-deprecated",
         "field-added", "f1-removed", "f0-renamed", "m1-renamed",
         "m1-args", "pool-unused", "pool-order", "m1-lines-shift",
         "m1-lines-stretch", "m0-lines-removed", "anno-value", "iface-added",
         "flag-0x10", "f0-flag-0x1", "m1-flag-0x1", "f0-const", "m1-sig",
         "m1-exceptions", "made-abstract", "m1-stack", "m1-exc",
         "code-ldc-text", "code-last-op", "m1-code-longer", "super", "name"]


def verdict(a, b, flags, cpool):
    """expected exit status"""
    l = {n for n, _ in edits.rdiff(a, b)}
    if cpool:
        l.add("ClassConstantPoolChange")
    active = expand(flags)
    up = None
    if a["version"] != b["version"]:
        up = tuple(a["version"]) < tuple(b["version"])
    bad = sorted(n for n in l if not covered(n, active, up))
    return int(bool(bad)), l, bad


def classes(nedits, nflags, base, names=None):
    names = [e for e in (names or EDITS)
             if edits.apply(base(), [e]) is not None]

    def run(ctx):
        sel = []
        for i in range(nedits):
            rest = names[names.index(sel[-1]) + 1:] if sel else names
            e = ctx.choose("e%d" % i, [None] + rest)
            if e is None:
                break
            sel.append(e)
        b = edits.apply(base(), sel)
        if b is None:
            ctx.choose("n/a", [])
        a = base()
        swap = ctx.choose("swap", [False, True])
        if swap:
            a, b = b, a
        da, pa = edits.encode(a)
        db, pb = edits.encode(b)
        l, r = unpack_class(da), unpack_class(db)
        delta = classdiff.JavaClassChange(l, r)
        delta.check()
        cpool = pa.encode() != pb.encode()
        for flags in subsets(FLAGS, nflags):
            want, leaves, bad = verdict(a, b, flags, cpool)
            ways = [["--ignore-" + f for f in flags]]
            if flags:
                ways.append(["--ignore=" + ",".join(flags)])
                ways.append(["--ignore", flags[-1]] +
                            ["--ignore-" + f for f in flags[:-1]])
            for args in ways:
                o = parse(classdiff, args)
                got = int(bool(delta.is_change() and
                               not delta.is_ignored(o)))
                if got != want:
                    ctx.fail("c14:%s:%s" % (
                        "not-hidden" if got else "hidden",
                        "+".join(bad[:2] if bad else sorted(leaves)[:2])),
                        "%r: differences %r, uncovered %r: verdict %d" %
                        (args, sorted(leaves), bad, got))
                ctx.step()
        # the exit status, for one option set
        flags = ctx.choose("flags", [[]] + [[f] for f in FLAGS]) \
            if len(sel) <= 1 else []
        want, leaves, bad = verdict(a, b, flags, cpool)
        args = ["--ignore-" + f for f in flags]
        ctx.eq(classdiff.cli_classes_diff(parse(classdiff, args), l, r),
               want, "c14:exit", repr(args))
        if len(sel) <= 1:
            for n, d in (("L.class", da), ("R.class", db)):
                with open(os.path.join(ctx.tmpdir, n), "wb") as fd:
                    fd.write(d)
            ctx.eq(classdiff.main(["classdiff"] + args + [
                os.path.join(ctx.tmpdir, n) for n in ("L.class",
                                                      "R.class")]),
                   want, "c14:main", repr(args))
        ctx.state(da + db)
        ctx.outcome((want, tuple(sorted(leaves))[:4]))
    return run


# -- options for manifests, signatures and entries of archives

def manifest(main, secs):
    out = "Manifest-Version: 1.0\r\n"
    out += "".join("%s: %s\r\n" % kv for kv in main) + "\r\n"
    for n, kvs in secs:
        out += "Name: %s\r\n" % n
        out += "".join("%s: %s\r\n" % kv for kv in kvs) + "\r\n"
    return out.encode("ascii")


def attrs(ctx, where, keys):
    """two lists of attributes and the keys in which they differ"""
    l, r, diff = [], [], set()
    for k in keys:
        how = ctx.choose("%s %s" % (where, k),
                         ["same", "changed", "added", "removed"])
        if how != "added":
            l.append((k, "1"))
        if how != "removed":
            r.append((k, "2" if how == "changed" else "1"))
        if how != "same":
            diff.add(k.lower())
    return l, r, diff


def differing(ctx, nsecs):
    """two manifests and their differences: (section, key), with key None
    for a section on one side only"""
    l, r, d = attrs(ctx, "main", ["A", "Bb-C"])
    diff = {("main", k) for k in d}
    ls, rs = [], []
    for i in range(nsecs):
        n = "s%d" % i
        how = ctx.choose(n, ["none", "both", "added", "removed"])
        if how == "both":
            x, y, d = attrs(ctx, n, ["A", "X-y"][:2 - i])
            ls.append((n, x))
            rs.append((n, y))
            diff |= {(n, k) for k in d}
        elif how != "none":
            (rs if how == "added" else ls).append((n, [("A", "1")]))
            diff.add((n, None))
    return manifest(l, ls), manifest(r, rs), diff


MKEYS = ["a", "A", "bb-c", "BB-C", "x-Y", "bb", "main", "s0"]
MFLAGS = ["--ignore-manifest", "--ignore-manifest-subsections",
          "--ignore=manifest", "--ignore=manifest-subsections,pool",
          "--ignore-jar-signature", "--ignore-jar-entry=META-INF/*.MF",
          "--ignore-jar-entry=*.mf", "--ignore-jar-entry=s0"] + \
    ["--ignore-manifest-key=" + k for k in MKEYS]


def mcovered(d, flags):
    opts = {f.split("=")[0] for f in flags}
    names = {n for f in flags if f.startswith("--ignore=")
             for n in f[9:].split(",")}
    if "--ignore-manifest" in opts or "manifest" in names or \
       "--ignore-jar-entry=META-INF/*.MF" in flags:
        return True
    if d[0] != "main" and ("--ignore-manifest-subsections" in opts or
                           "manifest-subsections" in names):
        return True
    return d[1] is not None and d[1] in {
        f.split("=")[1].lower() for f in flags
        if f.startswith("--ignore-manifest-key=")}


def judge(ctx, key, delta, flags, want, what):
    o = parse(jardiff, flags)
    got = int(bool(delta.is_change() and not delta.is_ignored(o)))
    if got != want:
        ctx.fail("c14:%s:%s" % (key, "not-hidden" if got else "hidden"),
                 "%r: %s: verdict %d" % (flags, what, got))
    ctx.step()


def reported(formats, nflags, base):
    """what is ignored does not depend on whether a report is written"""
    names = [e for e in EDITS if edits.apply(base(), [e]) is not None]

    def run(ctx):
        a = base()
        b = edits.apply(a, [ctx.choose("edit", names)])
        if ctx.choose("swap", [False, True]):
            a, b = b, a
        da, pa = edits.encode(a)
        db, pb = edits.encode(b)
        cpool = pa.encode() != pb.encode()
        lp, rp = write_two(ctx, {"p/A.class": da, "p/B.class": da},
                           {"p/A.class": db, "p/B.class": da})
        fmt = ctx.choose("format", formats)
        for flags in subsets(FLAGS, nflags):
            want, leaves, bad = verdict(a, b, flags, cpool)
            args = ["jardiff", "-q", "--report=" + fmt, "--report-dir=" +
                    os.path.join(ctx.tmpdir, "report")] + [
                        "--ignore-" + f for f in flags]
            got = jardiff.main(args + [lp, rp])
            if got != want:
                ctx.fail("c14:reported:%s" % ("not-hidden" if got else
                                              "hidden"),
                         "%r: differences %r, uncovered %r: status %d" %
                         (args[2:], sorted(leaves), bad, got))
            ctx.step()
        ctx.state((da, db, fmt))
        ctx.outcome((fmt, want))
    return run


def write_two(ctx, l, r):
    out = []
    for side, t in (("l.jar", l), ("r.jar", r)):
        out.append(trees.write_zip(t, os.path.join(ctx.tmpdir, side)))
    return out


def manifests(nsecs, nflags):
    sets = list(subsets(MFLAGS, nflags))

    def run(ctx):
        l, r, diff = differing(ctx, nsecs)
        lp, rp = write_two(ctx, {"META-INF/MANIFEST.MF": l},
                           {"META-INF/MANIFEST.MF": r})
        delta = jardiff.JarChange(lp, rp)
        delta.check()
        for flags in sets:
            bad = sorted(repr(d) for d in diff if not mcovered(d, flags))
            judge(ctx, "manifest", delta, flags, int(bool(bad)),
                  "uncovered " + ", ".join(bad))
        for flags in [[]] + [[f] for f in MFLAGS]:
            ctx.eq(jardiff.main(["jardiff", "-q"] + flags + [lp, rp]),
                   int(any(not mcovered(d, flags) for d in diff)),
                   "c14:manifest:main", repr(flags))
        ctx.state((l, r))
        ctx.outcome(tuple(sorted(map(repr, diff)))[:4])
    return run


SIG = b"Signature-Version: 1.0\r\nA: %d\r\n\r\n"


def small(names=()):
    return edits.encode(edits.apply(edits.small(), list(names)))[0]


ENTRIES = [
    ("sf", "META-INF/K.SF", [SIG % 1, SIG % 2]),
    ("block", "META-INF/K.RSA", [b"1", b"2"]),
    ("pool", "p/C.class", [small(), small(["pool-unused"])]),
    ("class", "D.class", [small(), small(["flag-0x10"])]),
    ("res", "r/x.txt", [b"1", b"2"]),
    ("mf", "META-INF/MANIFEST.MF", [manifest([("A", "1")], []),
                                    manifest([("A", "2")], [])]),
    ("res", "W/META-INF/MANIFEST.MF", [manifest([("A", "1")], []),
                                       manifest([("A", "2")], [])]),
]
EFLAGS = ["--ignore-jar-signature", "--ignore=jar-signature", "--ignore-pool",
          "--ignore=pool", "--ignore-manifest", "--ignore-manifest-key=A"] + ["--ignore-jar-entry=" + x for x in (
              "META-INF/K.SF", "META-INF/*", "*.class", "D.class",
              "C.class", "r/*", "*/x.txt", "x.txt", "*", "[!r]*", "?.class",
              "R/*")]


def ecovered(kind, name, how, flags):
    for f in flags:
        if f.startswith("--ignore-jar-entry="):
            if fnmatch.fnmatchcase(name, f.split("=", 1)[1]):
                return True
        elif f.endswith("jar-signature"):
            if kind in ("sf", "block"):
                return True
        elif "-manifest" in f:
            if kind == "mf":
                return True
        elif f.endswith("pool"):
            if kind == "pool" and how == "changed":
                return True
    return False


def outside(diff, flags):
    """signature files under the manifest options are outside the domain"""
    return any("-manifest" in f for f in flags) and \
        any(d[0] == "sf" for d in diff)


def archives(nent, nflags):
    sets = list(subsets(EFLAGS, nflags))

    def run(ctx):
        l, r = {"same": b"1"}, {"same": b"1"}
        diff = []
        start = 0
        for i in range(nent):
            j = ctx.choose("entry%d" % i, [None] + list(range(
                start, len(ENTRIES))), label=lambda j: str(
                    None if j is None else ENTRIES[j][0]))
            if j is None:
                break
            start = j + 1
            kind, n, (a, b) = ENTRIES[j]
            # a manifest on one side only is outside the domain
            how = ctx.choose(kind, ["changed"] if kind == "mf" else
                             ["changed", "added", "removed"])
            if how != "added":
                l[n] = a
            if how != "removed":
                r[n] = b if how == "changed" else a
            diff.append((kind, n, how))
        lp, rp = write_two(ctx, l, r)
        delta = jardiff.JarChange(lp, rp)
        delta.check()
        for flags in sets:
            bad = [d for d in diff if not ecovered(*(d + (flags,)))]
            if outside(diff, flags):
                continue
            judge(ctx, "entry", delta, flags, int(bool(bad)),
                  "uncovered %r" % bad)
        if len(diff) < 2:
            for flags in subsets(EFLAGS, 1):
                if outside(diff, flags):
                    continue
                ctx.eq(jardiff.main(["jardiff", "-q"] + flags + [lp, rp]),
                       int(any(not ecovered(*(d + (flags,)))
                               for d in diff)), "c14:entry:main",
                       repr(flags))
        ctx.state((sorted(l), sorted(r), tuple(diff)))
        ctx.outcome(tuple(diff))
    return run


setup = html.setup


def subsets(items, n, start=0):
    yield []
    if n:
        for i in range(start, len(items)):
            for s in subsets(items, n - 1, i + 1):
                yield [items[i]] + s


# -- options made for use from Python

DEFAULTS = {classdiff: "default_classdiff_options",
            jardiff: "default_jardiff_options",
            distdiff: "default_distdiff_options"}


def defaults(ctx):
    """they are those of a command line without options, but for what is
    given; nothing is carried over from one to the next"""
    module = ctx.choose("module", sorted(DEFAULTS, key=lambda m: m.__name__),
                        label=lambda m: m.__name__)
    make = getattr(module, DEFAULTS[module])
    plain = vars(module.create_optparser().parse_args(["x", "y"]))
    places = {k for k, v in plain.items() if v in ("x", "y", ["x", "y"])}
    values = {k: v for k, v in plain.items() if k not in places}

    def got(o):
        return {k: v for k, v in vars(o).items() if k not in places}
    ctx.eq(got(make()), values, "c14:defaults")
    first = ctx.choose("given", [None] + sorted(values))
    second = ctx.choose("also", [None, "no such option"] + sorted(values))
    marks = {k: object() for k in (first, second) if k}
    o = make(marks)
    want = dict(values)
    want.update((k, v) for k, v in marks.items() if k in values)
    ctx.eq(got(o), want, "c14:defaults")
    ctx.eq(got(make({})), values, "c14:defaults", "after using others")
    ctx.state((module.__name__, first, second))


def harnesses(tier):
    t = tier == "thorough"
    return [
        Harness("defaults", defaults, quota=5),
        Harness("manifests", manifests(2 if t else 1, 2), quota=20,
                describe="pairs of manifests: each attribute and section "
                "the same, changed, added, removed, all option sets"),
        Harness("archives", archives(4 if t else 3, 3 if t else 2),
                quota=20, describe="sets of up to 3 (4) differing entries, "
                "all sets of 2 (3) options"),
        Harness("reported", reported(
            ["json", "text", "html", "json,text,html"] if t else
            ["json"], 2 if t else 1, edits.base), quota=5,
                describe="every edit x options x report formats: the exit "
                "status of jardiff when it also writes reports"),
        Harness("classes", classes(2, 2, edits.base), quota=20,
                describe="up to two of %d edits x up to two of %d options, "
                "as own options and by name" % (len(EDITS), len(FLAGS))),
    ] + ([
        Harness("small", classes(3, 3, edits.small), quota=10,
                describe="up to three edits of the small class x up to "
                "three options"),
        Harness("all", classes(1, 3, edits.base, edits.NAMES), quota=10,
                describe="every edit x up to three options"),
    ] if t else [])
