"""C30: directory helpers"""

import itertools
import os

from vlib import trees
from vlib import names as every
from vlib.explore import Harness

from javatools import dirutils

ASSUMPTIONS = [
    "trees of regular files and directories",
    "name matching is shell globbing as of the POSIX fnmatch module",
]


# -- an independent matcher

def parse_glob(p):
    out = []
    i = 0
    while i < len(p):
        c = p[i]
        i += 1
        if c == "*":
            out.append(("star",))
        elif c == "?":
            out.append(("any",))
        elif c == "[":
            j = i
            if j < len(p) and p[j] == "!":
                j += 1
            if j < len(p) and p[j] == "]":
                j += 1
            while j < len(p) and p[j] != "]":
                j += 1
            if j >= len(p):
                out.append(("lit", "["))
                continue
            body = p[i:j]
            i = j + 1
            neg = body.startswith("!")
            if neg:
                body = body[1:]
            chars = set()
            k = 0
            while k < len(body):
                if k + 2 < len(body) and body[k + 1] == "-":
                    chars |= {chr(x) for x in range(ord(body[k]),
                                                    ord(body[k + 2]) + 1)}
                    k += 3
                else:
                    chars.add(body[k])
                    k += 1
            out.append(("set", neg, chars))
        else:
            out.append(("lit", c))
    return out


def match(name, toks):
    if not toks:
        return not name
    t = toks[0]
    if t[0] == "star":
        return any(match(name[i:], toks[1:]) for i in range(len(name) + 1))
    if not name:
        return False
    c = name[0]
    ok = t[0] == "any" or t[0] == "lit" and t[1] == c or \
        t[0] == "set" and (c in t[2]) != t[1]
    return ok and match(name[1:], toks[1:])


def words(alphabet, n):
    for k in range(n + 1):
        for w in itertools.product(alphabet, repeat=k):
            yield "".join(w)


def globs(plen, nlen):
    def run(ctx):
        first = ctx.choose("p0", ["", "a", "B", "*", "?", ".", "/", "[", "]",
                                  "!"])
        second = ctx.choose("p1", ["", "a", "*", "?", "[", "]", "!"]) \
            if first else ""
        names = list(words("aB./", nlen))
        for rest in (words("a*?[]!./", plen - 2) if second else [""]):
            p = first + second + rest
            toks = parse_glob(p)
            for n in names:
                want = bool(p) and match(n, toks)
                got = bool(dirutils.fnmatches(n, p))
                if got != want:
                    ctx.fail("c30:match", "fnmatches(%r, %r) is %r" %
                             (n, p, got))
            ctx.step(len(names))
        ctx.outcome(first)
    return run


PATTERNS = ["", "*.class", "a*", "*/b", "x", "*.SF", "META-INF/*", "?"]
NAMES = ["", "a.class", "a", "d/b", "x", "b", "META-INF/x.SF",
         "META-INF/d/x", "a/b.class", "y"]


def lists(ctx):
    """exactly if one of the patterns matches"""
    pats = []
    for i in range(3):
        p = ctx.choose("p%d" % i, [None] + PATTERNS)
        if p is None:
            break
        pats.append(p)
    for n in NAMES:
        want = any(p and match(n, parse_glob(p)) for p in pats)
        ctx.eq(bool(dirutils.fnmatches(n, *pats)), want, "c30:any",
               "%r in %r" % (n, pats))
    ctx.state(tuple(pats))


# -- copying

def V(*vs):
    return list(vs)


SLOTS = [
    ("a", V({}, {"a": b"1"}, {"a": b""})),
    ("d", V({}, {"d/": None}, {"d/a": b"2"}, {"d/a": b"2", "d/b": b"3"})),
    ("de", V({}, {"d/e/": None}, {"d/e/a": b"4"}, {"d/e/d/a": b"5",
                                                  "d/e/d/d/": None})),
    ("x", V({}, {"x/y/z": b"6"}, {"e/": None, "e/e/": None})),
]
DEST = [None, {}, {"a": b"old", "keep": b"k"},
        {"d/a": b"old", "d/keep": b"k", "d/e/keep": b"k"},
        {"e/f": b"k", "d/": None},
        # as long as what is to be copied there
        {"a": b"9", "d/a": b"9", "d/e/a": b"9", "x/y/z": b"9"}]


def copying(ctx):
    src = trees.choose(ctx, "src", SLOTS)
    dst = ctx.choose("dest", DEST)
    form = ctx.choose("form", ["plain", "slash", "relative", "deep"])
    s = trees.write(src, os.path.join(ctx.tmpdir, "src"))
    base = os.path.join(ctx.tmpdir, "out")
    trees.write({}, base)
    d = os.path.join(base, "p/q" if form == "deep" else "dst")
    if dst is not None:
        os.makedirs(os.path.dirname(d), exist_ok=True)
        # older, of the same time, or newer than the source
        trees.write(dst, d, trees.STAMP + ctx.choose("age", [0, -99, 99]))
    before = trees.read(s)
    os.chdir(ctx.tmpdir)
    if form == "slash":
        args = (s + "/", d + "/")
    elif form == "relative":
        args = (os.path.relpath(s), os.path.relpath(d))
    else:
        args = (s, d)
    copied = dirutils.copydir(*args)
    if ctx.flag("again"):
        # nothing of the first call is in the way of a second one
        changed = {p: c + b"+" for p, c in trees.files(src).items()}
        for p, c in changed.items():
            with open(os.path.join(s, p), "wb") as fd:
                fd.write(c)
            os.utime(os.path.join(s, p), (trees.STAMP, trees.STAMP))
        src = dict(src, **changed)
        before = trees.read(s)
        copied = dirutils.copydir(*args)
    want = {k: None for k in trees.dirs(dst or {})}
    want.update(dst or {})
    want.update({k: None for k in trees.dirs(src)})
    want.update(src)
    got = trees.read(d)
    if got != want:
        bad = sorted(p for p in set(got) | set(want)
                     if got.get(p, 0) != want.get(p, 0))
        ctx.fail("c30:copied", "after the copy %r, expected %r" % (
            {p: got.get(p, 0) for p in bad},
            {p: want.get(p, 0) for p in bad}))
    ctx.step(len(want) + 1)
    ctx.eq(trees.read(s), before, "c30:source")
    ctx.eq([n for n in os.listdir(base)], ["p" if form == "deep" else "dst"],
           "c30:elsewhere")
    rep = sorted((os.path.relpath(x, s), os.path.relpath(y, d))
                 for x, y in copied)
    ctx.eq(rep, sorted((p, p) for p in trees.files(src)), "c30:reported")
    ctx.state(sorted(want.items(), key=repr))
    ctx.outcome(len(rep))


def each(ctx):
    """whatever its name is, a file or directory is copied"""
    n = every.choose(ctx)
    tree = {"a0": b"1"}
    tree[n + "/" * ctx.flag("directory")] = b"2"
    if n not in tree:
        tree[n + "/"] = None
    s = trees.write(tree, os.path.join(ctx.tmpdir, "src"))
    d = os.path.join(ctx.tmpdir, "dst")
    trees.clear(d)
    dirutils.copydir(s, d)
    ctx.eq(trees.read(d), trees.read(s), "c30:each", repr(n))


def making(ctx):
    p = ctx.choose("path", ["", "a", "a/b", "a/b/c", "./a", "a/../b"])
    pre = ctx.choose("before", [{}, {"a/": None}, {"a/b/": None},
                                {"a/f": b"1"}])
    root = trees.write(pre, os.path.join(ctx.tmpdir, "t"))
    os.chdir(root)
    if p == "a/../b" and "a/" not in trees.dirs(pre) | set(pre):
        ctx.choose("n/a", [])
    for _ in range(2):
        dirutils.makedirsp(p)
        if p:
            ctx.check(os.path.isdir(p), "c30:made", "%r was not made" % p)
    want = {k: None for k in trees.dirs(pre)}
    want.update(pre)
    if p:
        want.update({k: None for k in trees.dirs(
            {os.path.normpath(p) + "/": None})})
    ctx.eq(trees.read(root), want, "c30:made")
    os.chdir(ctx.tmpdir)


# -- closing

class Plain(object):
    def __init__(self):
        self.n = 0

    def close(self):
        self.n += 1


class Managed(Plain):
    def __enter__(self):
        self.entered = True
        return self

    def __exit__(self, *a):
        self.n += 1
        return False


class NoClose(object):
    n = 0


class Boom(Exception):
    pass


def closing(ctx):
    cls = ctx.choose("class", [Plain, Managed, NoClose])
    o = cls()
    how = ctx.choose("block", ["ends", "raises", "returns", "exits"])
    body = ctx.choose("inside", ["nothing", "closes"])
    cm = dirutils.closing(o)

    def block():
        with cm as got:
            ctx.check(got is o, "c30:same", "not the managed object")
            ctx.eq(o.n, 0, "c30:early")
            if body == "closes" and cls is not NoClose:
                o.close()
            if how == "raises":
                raise Boom()
            if how == "exits":
                raise KeyboardInterrupt()
            if how == "returns":
                return 1
        return 2
    try:
        res = block()
    except Boom:
        res = "boom"
    except KeyboardInterrupt:
        res = "kbd"
    ctx.eq(res, {"ends": 2, "raises": "boom", "returns": 1,
                 "exits": "kbd"}[how], "c30:flow")
    want = 0 if cls is NoClose else 1 + (body == "closes")
    ctx.eq(o.n, want, "c30:closed")
    ctx.check(dirutils.closing(None) is None, "c30:none", "None is managed")


def harnesses(tier):
    t = tier == "thorough"
    return [
        Harness("globs", globs(4 if t else 3, 4 if t else 3), quota=5,
                describe="every pattern up to 3 (4) characters of a*?[]!./ "
                "x every name up to 3 (4) of aB./"),
        Harness("lists", lists, describe="lists of up to three patterns"),
        Harness("copying", copying, quota=200,
                describe="every source tree x destination before x way of "
                "naming the directories"),
        Harness("each", each, quota=20),
        Harness("making", making),
        Harness("closing", closing),
    ]
