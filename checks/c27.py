"""C27: a created jar contains exactly what was asked for"""

import itertools
import os
import shutil
import subprocess
import zipfile

from vlib import cli, jars, trees
from vlib import names as every
from vlib.explore import Harness
from vlib.jars import MF, cert, key

from javatools import jarutil
from javatools.jarinfo import JarInfo
from javatools.manifest import Manifest

ASSUMPTIONS = [
    "paths below the current directory, or absolute; symbolic links to files, "
    "and to directories that are named or lead to something named (whether "
    "others are followed is not said); files younger than 1980; the jar is not written below a "
    "directory it is to contain",
    "a manifest among the files does not replace the generated one (as "
    "with the jar tool)",
]

FILES = {"a": b"1", "d/b": b"\xca\xfe" * 5000, "d/e/f": b"",
         "d/e/g/h.class": b"3", "\u00e9 x/i": b"4", "META-INF/x": b"5",
         "META-INF/MANIFEST.MF": b"Own: yes\n\n", "d/a": b"6",
         "dd/a": b"7", "d/META-INF/MANIFEST.MF": b"8"}
DIRS = ["empty", "d/void", "d/e/deep/er"]
ARGS = ["a", "d", "d/", "./d", "d/b", "d/e", ".", "\u00e9 x", "META-INF",
        "./a", "d/../a", "d//b", "dd", "empty", "empty/", "d/e/g/h.class",
        "META-INF/MANIFEST.MF", "<abs>/d/e", "<abs>/a"]


def wanted(args, files, dirs):
    """{entry: content} of the jar of some arguments"""
    out = {"META-INF/": b""}
    for arg in args:
        p = os.path.normpath(arg)
        base = ""
        if p.startswith("/"):
            base = p.lstrip("/")
            cwd = os.getcwd()
            base, p = cwd.lstrip("/") + "/", os.path.relpath(p, cwd)
        for f, c in files.items():
            if f == p or f.startswith(p + "/") or p == ".":
                out[base + f] = c
        for d in dirs:
            if d == p or d.startswith(p + "/") or p == ".":
                out[base + d + "/"] = b""
        if base and p == ".":
            out[base] = b""
    out.pop(MF, None)
    return out


def tree(files, dirs):
    """all directories of the files and directories"""
    out = set()
    for p in [os.path.dirname(f) for f in files] + list(dirs):
        while p:
            out.add(p)
            p = os.path.dirname(p)
    return out


def judge(ctx, jar, want, main, tools):
    with zipfile.ZipFile(jar) as zf:
        names = zf.namelist()
        ctx.check(zf.testzip() is None, "c27:broken", "bad checksum")
        ctx.eq(names[:2], ["META-INF/", MF], "c27:front")
        ctx.eq(len(names), len(set(names)), "c27:twice", repr(names))
        got = {n: zf.read(n) for n in names}
    mf = got.pop(MF)
    ctx.eq(sorted(got), sorted(want), "c27:names")
    ctx.eq(got, want, "c27:content")
    ctx.check(mf.endswith((b"\n\n", b"\r\n\r\n", b"\r\r")), "c27:manifest",
              repr(mf))
    secs = jars.raw_sections(mf)
    ctx.eq(len(secs), 1, "c27:manifest", repr(mf))
    f = dict(jars.fields(secs[0]))
    ctx.eq(jars.fields(secs[0])[0][0], "Manifest-Version", "c27:manifest")
    ctx.eq(f.get("Main-Class"), main, "c27:main-class")
    ctx.check(max(map(len, mf.splitlines())) <= 72, "c27:manifest", repr(mf))
    # the library reads it
    m = Manifest()
    m.load_from_jar(jar)
    ctx.eq(m.get("Main-Class"), main, "c27:main-class")
    with JarInfo(filename=jar) as ji:
        ctx.eq(sorted(ji.get_classes()), sorted(
            n for n in want if n.endswith(".class")), "c27:jarinfo")
    if tools and shutil.which("jar"):
        p = subprocess.run(["jar", "-J-XX:TieredStopAtLevel=1", "tf", jar],
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT,
                           env=dict(os.environ, LC_ALL="C.UTF-8"))
        ctx.eq((p.returncode, sorted(p.stdout.decode().splitlines())),
               (0, sorted(list(want) + [MF])), "c27:jar")


def workdir(ctx, files, dirs):
    work = os.path.join(ctx.tmpdir, "w")
    trees.clear(work)
    os.makedirs(work)
    for d in dirs:
        os.makedirs(os.path.join(work, d), exist_ok=True)
    for f, c in files.items():
        p = os.path.join(work, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as fd:
            fd.write(c)
    os.chdir(work)
    return work


def arguments(lengths, tools=False):
    lists = [ls for n in lengths for ls in itertools.product(ARGS, repeat=n)]

    def run(ctx):
        args = ctx.choose("arguments", lists)
        how = ctx.choose("how", ["function", "command"])
        dirs = tree(FILES, DIRS)
        work = workdir(ctx, FILES, dirs)
        args = [a.replace("<abs>", work) for a in args]
        jar = os.path.join(ctx.tmpdir, "out.jar")
        trees.clear(jar)
        if how == "function":
            jarutil.create_jar(jar, args)
        else:
            ctx.eq(cli.run(jarutil.main, ["j", "c", jar] + args)[0], 0,
                   "c27:status")
        judge(ctx, jar, wanted(args, FILES, dirs), None, tools)
        ctx.state(args)
    return run


SHAPES = list(FILES) + [d + "/" for d in DIRS]


def shapes(ctx):
    """all subsets of the files and empty directories; everything is asked
    for by one or by all names at the top"""
    chosen = [s for s in SHAPES if ctx.flag(s)]
    files = {f: FILES[f] for f in chosen if not f.endswith("/")}
    dirs = tree(files, [d[:-1] for d in chosen if d.endswith("/")])
    work = workdir(ctx, files, dirs)
    jar = os.path.join(ctx.tmpdir, "out.jar")
    trees.clear(jar)
    how = ctx.choose("ask", [".", "all"])
    args = ["."] if how == "." else sorted(os.listdir(work))
    jarutil.create_jar(jar, args)
    judge(ctx, jar, wanted(args, files, dirs), None, False)
    ctx.state(tuple(chosen))


MAINS = ["a.B", "x" * 200, "\u00e9.\u20ac" * 20, "a b", "A$B", "M" * 60,
         "M" * 61, "-x", "a=b"]
PLACES = ["first", "after the jar", "between", "last"]
FORMS = ["-m X", "-mX", "--main-class X", "--main-class=X"]


def options(ctx):
    main = ctx.choose("main", MAINS)
    form = ctx.choose("form", FORMS)
    if main == "-x" and form in ("-m X", "--main-class X"):
        ctx.choose("n/a", [])
    args = ctx.choose("arguments", [[], ["a"], ["a", "d"], ["d", "a", "a"]])
    at = {"first": 0, "after the jar": 1, "between": 2,
          "last": 1 + len(args)}
    at = ctx.choose("at", sorted({min(i, 1 + len(args))
                                  for i in at.values()}))
    command = ctx.choose("command", ["c", "create", "cr"])
    opt = form.split(" ")
    opt = [o.replace("X", main) for o in opt]
    dirs = tree(FILES, DIRS)
    workdir(ctx, FILES, dirs)
    jar = os.path.join(ctx.tmpdir, "out.jar")
    old = ctx.flag("exists")
    trees.clear(jar)
    if old:
        with open(jar, "wb") as fd:
            fd.write(b"PK\3\4" * 50000)
    line = [jar] + args
    line[at:at] = opt
    ctx.eq(cli.run(jarutil.main, ["j", command] + line)[0], 0, "c27:status")
    judge(ctx, jar, wanted(args, FILES, dirs), main, False)
    # what has been made can be signed, and says the same then
    jarutil.sign(jar, cert("rsa1"), key("rsa1"), "X")
    jarutil.verify(cert("rsa1"), jar)
    mf = dict(jars.fields(jars.raw_sections(dict(trees.read_zip(jar))[MF])[0]))
    ctx.eq(mf.get("Main-Class"), main, "c27:signed-main-class")


def each(ctx):
    """files and empty directories of any name"""
    n = every.choose(ctx)
    empty = ctx.flag("directory")
    files = {"a0": b"1"}
    dirs = []
    if empty:
        dirs.append(n)
    else:
        files[n] = b"2"
    dirs = tree(files, dirs)
    jar = os.path.join(ctx.tmpdir, "out.jar")
    args = ctx.choose("ask", [["."], ["a0", n], [n, "a0"],
                              [n.split("/")[0]], None])
    work = workdir(ctx, files, dirs)
    if args is None:
        args = [work]
    trees.clear(jar)
    jarutil.create_jar(jar, args)
    judge(ctx, jar, wanted(args, files, dirs), None, False)


def among(ctx):
    files = {n: b"%d" % i for i, n in enumerate(every.TOGETHER)}
    dirs = tree(files, [])
    jar = os.path.join(ctx.tmpdir, "out.jar")
    args = ctx.choose("ask", [["."], None])
    work = workdir(ctx, files, dirs)
    if args is None:
        args = os.listdir(work)
    trees.clear(jar)
    jarutil.create_jar(jar, args)
    judge(ctx, jar, wanted(args, files, dirs), None, False)


LINKS = {"la": "a", "lla": "la", "d/lb": "../a", "ld": "d", "lld": "ld",
         "le": "d/e", "x/up": "../d"}
LARGS = ["la", "d", "ld", "ld/", "lld", "ld/b", "ld/e", "./ld", "ld/lb", "le",
         "le/f", "lla", "a", "x/up", "d/../ld", "x/up/e"]


def links(ctx):
    """what links lead to is what is asked for by their names"""
    args = [ctx.choose("argument %d" % i, LARGS + [None])
            for i in range(2)]
    if args[0] is None and args[1]:
        ctx.choose("n/a", [])
    args = [a for a in args if a]
    absolute = ctx.flag("absolute links", dev=True)
    work = workdir(ctx, {"a": b"1", "d/b": b"2", "d/e/f": b"3"}, ["x"])
    for n, to in LINKS.items():
        if absolute:
            to = os.path.normpath(os.path.join(work, os.path.dirname(n), to))
        os.symlink(to, os.path.join(work, n))
    files = {"a": b"1", "la": b"1", "lla": b"1", "le/f": b"3"}
    for d in ("d", "ld", "lld", "x/up"):
        files.update({d + "/b": b"2", d + "/e/f": b"3", d + "/lb": b"1"})
    jar = os.path.join(ctx.tmpdir, "out.jar")
    trees.clear(jar)
    jarutil.create_jar(jar, args)
    judge(ctx, jar, wanted(args, files, tree(files, [])), None, False)
    ctx.state(args)


def many(totals):
    return lambda ctx: big(ctx, ctx.choose("total", totals))


def big(ctx, total):
    """more entries than 16 bits can count"""
    files = {"d/%x" % i: b"" for i in range(total - 3)}
    work = workdir(ctx, files, [])
    jar = os.path.join(ctx.tmpdir, "out.jar")
    trees.clear(jar)
    jarutil.create_jar(jar, ["d"])
    judge(ctx, jar, wanted(["d"], files, ["d"]), None, False)
    trees.clear(work)
    ctx.step(total)
    ctx.state(total)


def refused(ctx):
    """what is not there is not left out silently"""
    args = ctx.choose("arguments", [["none"], ["a", "none"], ["none", "a"],
                                    ["d/none"], ["a/"]])
    workdir(ctx, {"a": b"1", "d/b": b"2"}, ())
    jar = os.path.join(ctx.tmpdir, "out.jar")
    how = ctx.choose("how", ["function", "command"])
    try:
        if how == "function":
            jarutil.create_jar(jar, args)
        elif cli.run(jarutil.main, ["j", "c", jar] + args)[0]:
            return
    except (OSError, IOError):
        return
    if args == ["a/"]:
        return                  # may well be taken as a
    ctx.fail("c27:missing", "created although %r are asked for" % args)


def harnesses(tier):
    deep = tier == "thorough"
    hs = [Harness("arguments", arguments((0, 1, 2, 3) if deep else
                                         (0, 1, 2))),
          Harness("trees", shapes), Harness("main-class", options),
          Harness("missing", refused), Harness("each", each, quota=20),
          Harness("among", among), Harness("links", links),
          Harness("many", many([65534, 65535, 65536, 65537] if deep else
                               [65536]), timeout=200,
                  describe="around 65536 entries")]
    if deep:
        hs.append(Harness("jar-tool", arguments((1,), True), quota=10))
    return hs
