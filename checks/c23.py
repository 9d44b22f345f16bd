"""C23: manifest create, query and verify"""

import base64
import hashlib
import os
import zipfile

from vlib import cli, trees
from vlib import names as every
from vlib.explore import Harness
from checks.c21 import reader
from checks.c30 import match, parse_glob

from javatools import manifest
from javatools.manifest import Manifest

ASSUMPTIONS = [
    "entry names in valid UTF-8, each once",
    "an entry with several digests is accepted if one of them matches (as "
    "documented), with digests the library does not support not counting",
    "removed entries are tolerated by verification (as documented)",
]

HASH = {"MD5": "md5", "SHA1": "sha1", "SHA-256": "sha256",
        "SHA-384": "sha384", "SHA-512": "sha512"}


def digest(alg, data):
    return base64.b64encode(hashlib.new(HASH[alg], data).digest()).decode()


def skips(name):
    """the entries that need no digest (JAR specification)"""
    up = name.upper()
    if up == "META-INF/MANIFEST.MF" or name.endswith("/"):
        return True
    parts = up.split("/")
    return len(parts) == 2 and parts[0] == "META-INF" and (
        parts[1].startswith("SIG-") or
        parts[1].rsplit(".", 1)[-1] in ("SF", "RSA", "DSA", "EC") and
        "." in parts[1])


# -- create

SLOTS = [
    ("a", [{}, {"a": b""}, {"a": b"x" * 16384}, {"a": b"xy" * 20000}]),
    ("d", [{}, {"d/a.class": b"1", "d/b.txt": b"2"}, {"d/e/": None},
           {"d/e/META-INF/f": b"3"}]),
    ("m", [{}, {"META-INF/MANIFEST.MF": b"Manifest-Version: 1.0\n\n",
                "META-INF/x/y": b"4"}]),
    ("odd", [{}, {"\u00e9" * 40 + "/" + "z" * 60: b"5"},
             {"b c:d": b"6"}]),
]
DIGESTS = [None, "MD5", "SHA1", "SHA-256", "SHA-512", "SHA-256,MD5",
           "MD5,SHA1,SHA-256,SHA-384,SHA-512"]
IGNORES = [[], ["-i", "*.txt"], ["-i", "d/*", "-i", "zz"],
           ["-i", "*.class", "a"], ["-i", "e"]]


def creating(ctx):
    tree = trees.choose(ctx, "tree", SLOTS)
    form = ctx.choose("form", ["dir", "dir/", "relative", "jar", "jar-dirs",
                               "recursive"])
    alg = ctx.choose("digests", DIGESTS)
    ign = ctx.choose("ignore", IGNORES)
    out = ctx.choose("out", ["stdout", "file", "new/dirs/file", "old"])
    os.chdir(ctx.tmpdir)
    prefix = ""
    if form.startswith("jar"):
        t = tree if form == "jar" else dict(
            {d: None for d in trees.dirs(tree)}, **tree)
        content = trees.write_zip(
            {k: v for k, v in t.items()}, os.path.join(ctx.tmpdir, "c.jar"))
    else:
        content = trees.write(tree, os.path.join(ctx.tmpdir, "c"))
        if form == "dir/":
            content += "/"
        elif form == "relative":
            content = "c"
        elif form == "recursive":
            # the names are the paths as found
            prefix = content + "/"
    args = ["m", "c"]
    if alg:
        args += ["-d", alg]
    if form == "recursive":
        args.append("-r")
    args.append(content)
    args += ign
    mfn = None
    if out != "stdout":
        mfn = "mf" if out == "old" else out
        if out == "old":
            with open(mfn, "w") as fd:
                fd.write("what was there before\n" * 500)
        args += ["-m", mfn]
    rc, text, _err = cli.run(manifest.main, args)
    ctx.eq(rc, 0, "c23:status")
    if mfn:
        ctx.eq(text, b"", "c23:noise")
        with open(mfn, "rb") as fd:
            text = fd.read()
    pats = ["META-INF/*"] + [x for x in ign if x != "-i"]
    want = []
    for p, c in trees.files(tree).items():
        p = prefix + p
        if any(match(p, parse_glob(g)) for g in pats):
            continue
        want.append([("Name", p)] + [
            (a + "-Digest", digest(a, c))
            for a in (alg or "MD5,SHA1").split(",")])
    secs = reader(text)
    ctx.eq(secs[0], [("Manifest-Version", "1.0")], "c23:main")
    ctx.eq(sorted(secs[1:]), sorted(want), "c23:created")
    ctx.step(len(want) + 1)
    ctx.state(sorted(want))
    ctx.outcome(len(want))
    trees.clear(os.path.join(ctx.tmpdir, "new"))


# -- verify

ENTRIES = [
    ("a", b"content"), ("d/b", b""), ("d/", b""),
    ("META-INF/MANIFEST.MFX", b"1"), ("META-INF/x.txt", b"2"),
    ("META-INF/d/X.SF", b"3"), ("X.SF", b"4"), ("META-INF/X.SF", b"5"),
    ("META-INF/x.rsa", b"6"), ("META-INF/SIG-x", b"7"),
    ("META-INF/SIG-", b"8"), ("meta-inf/Y.Ec", b"9"), ("META-INF/SF", b"A"),
    ("META-INF/x.dsa", b"B"), ("d/META-INF/X.SF", b"C"),
    ("META-INF/xSIG-x", b"D"), ("META-INF/X.SFX", b"E"),
    ("\u00e9" * 50, b"F"), ("META-INF/", b""), ("b:c d", b"G"),
]
SETS = [["MD5", "SHA1"], ["SHA-256"], ["SHA-512", "SHA-384"], ["SHA1"]]


def edits(algs, names):
    """what can be done to (entries, sections); each returns nothing"""
    out = []

    def add(label, fn):
        out.append((label, fn))
    for n in names:
        if n.endswith("/"):
            continue
        add(("content", n), lambda e, s, n=n: e.__setitem__(n, e[n] + b"!"))
        if n == names[0]:
            add(("emptied", n), lambda e, s, n=n: e.__setitem__(n, b""))
            add(("flipped", n), lambda e, s, n=n: e.__setitem__(
                n, bytes([e[n][0] ^ 1]) + e[n][1:]))
        add(("gone", n), lambda e, s, n=n: e.pop(n))
        add(("renamed", n), lambda e, s, n=n: e.__setitem__(
            n + "2", e.pop(n)))
        if not skips(n):
            add(("section", n), lambda e, s, n=n: s.pop(n))
            add(("section renamed", n), lambda e, s, n=n: s.__setitem__(
                n + "2", s.pop(n)))
            add(("digests", n), lambda e, s, n=n: s[n].clear())
            for a in algs:
                def wrong(e, s, n=n, a=a):
                    v = s[n][a]
                    s[n][a] = ("B" if v[0] == "A" else "A") + v[1:]

                def case(e, s, n=n, a=a):
                    s[n][a] = s[n][a].swapcase()

                def other(e, s, n=n, a=a):
                    s[n]["SHA-999"] = s[n].pop(a)

                def cross(e, s, n=n, a=a):
                    s[n]["MD5" if a != "MD5" else "SHA1"] = s[n].pop(a)
                add(("wrong " + a, n), wrong)
                add(("case " + a, n), case)
                add(("unknown " + a, n), other)
                add(("cross " + a, n), cross)
                add(("without " + a, n), lambda e, s, n=n, a=a:
                    s[n].pop(a))
            add(("extra", n), lambda e, s, n=n: s[n].__setitem__(
                "SHA-384", "AAAA"))
            add(("unknown extra", n), lambda e, s, n=n: s[n].__setitem__(
                "MD2", "AAAA"))
    for n in ("new", "META-INF/new", "META-INF/new.SF", "new.SF",
              "META-INF/d/new.RSA", "new/", "META-INF/SIG-new", "Name"):
        add(("added", n), lambda e, s, n=n: e.__setitem__(n, b""))
    add(("section for nothing", ""), lambda e, s: s.__setitem__(
        "nothing", {"MD5": "AAAA"}))
    return out


def mf_data(sections, sep):
    lines = ["Manifest-Version: 1.0", ""]
    for n, ds in sections.items():
        data = ("Name: " + n).encode("utf-8")
        first = True
        while data:
            cut = 70 if first else 69
            lines.append(("" if first else " ").encode() + data[:cut])
            data = data[cut:]
            first = False
        for a, v in ds.items():
            lines.append("%s-Digest: " % a)
            lines.append(" " + v[:60])
            lines.append(" " + v[60:])
        lines.append("")
    return sep.join(x if isinstance(x, bytes) else x.encode("utf-8")
                    for x in lines + [""])


def verifying(pairs):
    def run(ctx):
        if pairs:
            names = ctx.choose("entries", [["a", "d/b", "d/"],
                                           ["META-INF/x.txt", "a",
                                            "META-INF/X.SF"],
                                           ["\u00e9" * 50, "X.SF"]])
        else:
            names = ["a", ctx.choose("entry", [n for n, _c in ENTRIES[1:]])]
        algs = ctx.choose("digests", SETS)
        sep = ctx.choose("linesep", [b"\n", b"\r\n"])
        entries = {n: dict(ENTRIES)[n] for n in names}
        sections = {n: {a: digest(a, c) for a in algs}
                    for n, c in entries.items() if not skips(n)}
        todo = edits(algs, names)
        done = []
        for i in range(pairs or 1):
            if i == 2 and (len(done) < 2 or sep != b"\n"):
                break
            k = ctx.choose("edit%d" % i, [None] + [
                j for j in range(len(todo)) if not done or j > done[-1]],
                label=lambda j: "-" if j is None else " ".join(todo[j][0]))
            if k is None:
                break
            done.append(k)
            try:
                todo[k][1](entries, sections)
            except (KeyError, IndexError):
                ctx.choose("n/a", [])
        jar = os.path.join(ctx.tmpdir, "v.jar")
        data = mf_data(sections, sep)
        where = ctx.choose("manifest", ["first", "last"]) \
            if len(done) < 3 else "last"
        order = sorted(entries) if where == "first" else list(entries)
        with zipfile.ZipFile(jar, "w") as zf:
            if where == "first":
                zf.writestr("META-INF/MANIFEST.MF", data)
            for n in order:
                zf.writestr(n, entries[n])
            if where == "last":
                zf.writestr("META-INF/MANIFEST.MF", data)
        bad, loose = [], []
        for n in order:
            if skips(n):
                continue
            ds = sections.get(n) or {}
            if any(a in HASH and digest(a, entries[n]) == v
                   for a, v in ds.items()):
                continue
            bad.append(n)
            if ds:
                loose.append(n)
        mf = Manifest()
        mf.load_from_jar(jar)
        before = mf.get_data()
        ctx.eq(sorted(mf.verify_jar_checksums(jar)), sorted(bad),
               "c23:verify")
        ctx.eq(sorted(mf.verify_jar_checksums(jar, strict=False)),
               sorted(loose), "c23:loose")
        ctx.eq(sorted(mf.verify_jar_checksums(jar)), sorted(bad),
               "c23:verify", "asked again")
        ctx.eq(mf.get_data(), before, "c23:changed")
        rc, out, _err = cli.run(manifest.main, ["m", "v", jar])
        ctx.eq(rc, 1 if bad else 0, "c23:status")
        for n in bad:
            ctx.check(n.encode("utf-8") in out, "c23:named",
                      "%r is not named in %r" % (n, out))
        if not bad:
            ctx.eq(out, b"", "c23:noise")
        ctx.step(3)
        ctx.state((sorted(entries.items()), sorted(
            (n, sorted(d.items())) for n, d in sections.items())))
        ctx.outcome(len(bad))
    return run


def created(ctx):
    """a jar with the manifest created for it is accepted, and not any
    more once anything in it is changed"""
    tree = trees.choose(ctx, "tree", SLOTS[:2] + SLOTS[3:])
    alg = ctx.choose("digests", DIGESTS)
    form = ctx.choose("from", ["dir", "jar"])
    src = trees.write(tree, os.path.join(ctx.tmpdir, "s")) \
        if form == "dir" else trees.write_zip(
            tree, os.path.join(ctx.tmpdir, "s.jar"))
    fn = os.path.join(ctx.tmpdir, "mf")
    args = ["m", "create", src, "-m", fn]
    if alg:
        args += ["-d", alg]
    cli.run(manifest.main, args)
    with open(fn, "rb") as fd:
        data = fd.read()
    jar = os.path.join(ctx.tmpdir, "out.jar")

    def verdict(t):
        trees.write_zip(dict({"META-INF/MANIFEST.MF": data}, **t), jar)
        return cli.run(manifest.main, ["m", "verify", jar])
    ctx.eq(verdict(tree)[0], 0, "c23:accepted")
    for p in trees.files(tree):
        for t in (dict(tree, **{p: tree[p] + b"."}),
                  dict(tree, **{p + "x": b""})):
            rc, out, _err = verdict(t)
            ctx.eq(rc, 1, "c23:rejected", repr(p))
            ctx.check(p.encode("utf-8") in out, "c23:named", repr(p))
            ctx.step(1)
    ctx.state((sorted(tree), alg))


def each(ctx):
    """the same for an entry of any name"""
    n = every.choose(ctx, False)
    form = ctx.choose("form", ["zip", "dir"] if n in every.PATHS else ["zip"])
    store = trees.write if form == "dir" else trees.write_zip
    src = store({"a0": b"1", n: b"2"}, os.path.join(ctx.tmpdir, form))
    rc, data, _err = cli.run(manifest.main, ["m", "create", src])
    ctx.eq(rc, 0, "c23:status")
    want = ["a0"] if n.startswith("META-INF/") else sorted(["a0", n])
    secs = [dict(s) for s in reader(data)[1:]]
    ctx.eq(sorted(s["Name"] for s in secs), want, "c23:each", repr(n))
    for s in secs:
        ctx.eq(s["SHA1-Digest"], digest("SHA1", b"1" if s["Name"] == "a0"
                                        else b"2"), "c23:each", repr(n))
    jar = os.path.join(ctx.tmpdir, "v.jar")
    mf = "META-INF/MANIFEST.MF"
    full = mf_data({"a0": {"SHA1": digest("SHA1", b"1")},
                    n: {"SHA1": digest("SHA1", b"2")}}, b"\n")
    for has, c, bad in ((full, b"2", False), (full, b"3", True),
                        (full, b"", True),
                        (mf_data({"a0": {"SHA1": digest("SHA1", b"1")}},
                                 b"\n"), b"2", True)):
        if n == mf:
            break
        trees.write_zip({"a0": b"1", mf: has, n: c}, jar)
        m = Manifest()
        m.load_from_jar(jar)
        bad = [n] if bad and not skips(n) else []
        ctx.eq(list(m.verify_jar_checksums(jar)), bad, "c23:each")
        rc, out, _err = cli.run(manifest.main, ["m", "v", jar])
        ctx.eq((rc, n.encode("utf-8") in out), (len(bad), bool(bad)),
               "c23:each", repr(n))
    m = Manifest()
    m.add_jar_entries(trees.write_zip({"a0": b"1", n: b"2"}, jar), "SHA1")
    ctx.eq(sorted(m.sub_sections), sorted(x for x in ("a0", n)
                                          if not skips(x)), "c23:each")
    ctx.step(6)


# -- add_jar_entries

def adding(ctx):
    names = ["a", ctx.choose("entry", [n for n, _c in ENTRIES[1:]])]
    alg = ctx.choose("digest", sorted(HASH))
    entries = {n: dict(ENTRIES)[n] for n in names}
    jar = os.path.join(ctx.tmpdir, "a.jar")
    trees.write_zip(entries, jar)
    mf = Manifest()
    mf.add_jar_entries(jar, alg)
    want = {n: [("Name", n), (alg + "-Digest", digest(alg, c))]
            for n, c in entries.items() if not skips(n)}
    ctx.eq({n: list(s.items()) for n, s in mf.sub_sections.items()}, want,
           "c23:added")
    ctx.eq(mf.verify_jar_checksums(jar), [], "c23:added")


# -- query

def querying(ctx):
    names = ["a", "d/b", "C:/x", "a:b:c", "\u00e9" * 50, "K"]
    sep = ctx.choose("linesep", [b"\n", b"\r\n"])
    value = ctx.choose("value", ["v", "", " x", "a = b", "u" * 200,
                                 "\u20ac:\u20ac", "None"])
    lines = [b"Manifest-Version: 1.0", b"K: " + value.encode("utf-8")[:60]] \
        + [b" " + value.encode("utf-8")[60:]] * bool(value[60:]) + [b""]
    name = ctx.choose("section", names)
    for i, n in enumerate(names):
        lines += [b"Name: " + n.encode("utf-8"), b"K: k%d" % i,
                  b"L: " + value.encode("utf-8"), b""]
    jar = os.path.join(ctx.tmpdir, "q.jar")
    trees.write_zip({"META-INF/MANIFEST.MF": sep.join(lines + [b""])}, jar)
    i = names.index(name)
    qs = [("K", value), ("Manifest-Version", "1.0"), (name + ":K", "k%d" % i),
          (name + ":L", value), (name + ":Name", name), ("X", None),
          (name + ":X", None), ("nosuch:K", "no section")]
    asked = [q for q in qs if ctx.flag(q[0])]
    if not asked:
        ctx.choose("n/a", [])
    rc, out, _err = cli.run(manifest.main, ["m", "q", jar] +
                            [q for q, _v in asked])
    ctx.eq(rc, 0, "c23:status")
    want = []
    for q, v in asked:
        want.append("%s : No such section" % q if v == "no section" else
                    "%s = %s" % (q, v))
    ctx.eq(out.decode("utf-8"), "".join(w + "\n" for w in want),
           "c23:query")
    ctx.step(len(asked))
    ctx.outcome(len(asked))


def harnesses(tier):
    deep = tier == "thorough"
    return [Harness("create", creating),
            Harness("verify", verifying(0)),
            Harness("verify-pairs", verifying(3 if deep else 2)),
            Harness("created", created), Harness("add", adding),
            Harness("each", each, quota=20),
            Harness("query", querying)]
