"""C11: dependencies of jars and distributions"""

import itertools
import os
import shutil

from vlib import classfile as cf
from vlib import trees
from vlib import names as every
from vlib.explore import Harness
from checks import c01
from checks.c10 import glob, r_provides, r_requires

from javatools import distinfo
from javatools import jarinfo

ASSUMPTIONS = [
    "jars within jars are not looked into",
    "an entry name occurs once in an archive",
]

M = {
    "pub": (1, 1, "m", "()V"), "prot": (1, 4, "p", "(I)V"),
    "priv": (1, 2, "q", "(Lx/B;)I"), "pkg": (1, 0, "g", "()V"),
    "fld": (0, 1, "f", "I"), "pfld": (0, 2, "h", "J"),
}


def member(k, name="m"):
    return dict(access=M[k][1], name=M[k][2], desc=M[k][3])


def ref(cls, k):
    kind, _, n, d = M[k]
    return ("mr" if kind else "fr", cls, n, d)


def cls(name, members, refs, **kw):
    spec = c01.base(this=name,
                    fields=[member(m) for m in members if not M[m][0]],
                    methods=[member(m) for m in members if M[m][0]],
                    consts=list(refs), **kw)
    data, cp = cf.encode(spec)
    return dict(name=name, data=data, pub=r_provides(spec, False),
                priv=r_provides(spec, True),
                req=r_requires(spec, [s for _, s in cp.syms]))


ALL = list(M)
# variants of three classes that refer to each other
VARIANTS = {
    "x/A": [
        cls("x/A", ALL, []),
        cls("x/A", ["pub", "prot", "priv"],
            [ref("x/B", "pub"), ref("x/B", "priv"), ("c", "x/C")]),
        cls("x/A", [], [ref("x/B", k) for k in ALL] + [("c", "[Lx/C;")]),
        cls("x/A", ["pub", "fld"], [ref("y/Out", "pub"),
                                    ref("x/C", "prot")]),
    ],
    "x/B": [
        cls("x/B", ALL, [ref("x/A", k) for k in ALL], super="x/A"),
        cls("x/B", ["pub"], [ref("x/A", "prot"), ref("x/A", "fld"),
                             ref("x/C", "pkg"), ("c", "y/Out")]),
        cls("x/B", ["priv", "pfld"], []),
    ],
    "x/C": [
        cls("x/C", ["pkg", "prot"], [ref("x/A", "pub"), ref("x/B", "pfld"),
                                     ref("y/Out", "prot")]),
        cls("x/C", ALL, [], interfaces=["x/A", "y/I"]),
        cls("x/C", ["priv"], [ref("x/A", "priv"), ref("x/B", "pub")]),
    ],
}
PATTERNS = [(), ("x.*",), ("java.*", "y.Out"), ("*(*",), ("x.?",), ("*",)]


def keep(d, pats):
    return {k: v for k, v in d.items()
            if not any(glob(p, k) for p in pats)}


def union(classes, rkey="class.requires", pkey="class.provides"):
    """classes: (entry, variant) pairs -> provides, requires, private"""
    prov, req, priv = {}, {}, set()
    for e, v in classes:
        for s in v["pub"]:
            prov.setdefault(s, []).append((pkey, e))
        for s in v["req"]:
            req.setdefault(s, []).append((rkey, e))
        priv |= v["priv"]
    return prov, {s: l for s, l in req.items() if s not in priv}, priv


def norm(d):
    """mapping as it is, order of the providers aside"""
    def n(x):
        if isinstance(x, (list, set, frozenset)):
            return sorted((n(y) for y in x), key=repr)
        if isinstance(x, tuple):
            return tuple(n(y) for y in x)
        return x
    return {k: n(v) for k, v in d.items()}


def ask(ctx, info, prov, req, tag):
    """in several orders, more than once, with and without patterns"""
    for what in ctx.choose("calls", [("r", "p", "r"), ("p", "r", "p")]):
        fun, want = ((info.get_requires, req) if what == "r" else
                     (info.get_provides, prov))
        for p in PATTERNS:
            ctx.eq(norm(fun(p)), norm(keep(want, p)),
                   "c11:%s:%s" % (tag, what), "ignoring %r" % (p,))
    ctx.eq(norm(info.get_requires()), norm(req), "c11:%s:r" % tag)
    ctx.eq(norm(info.get_provides()), norm(prov), "c11:%s:p" % tag)


PLACES = ["x/%s.class", "%s.class", "WEB-INF/classes/x/%s.class"]


def jars(limit):
    def run(ctx):
        classes = []
        for name in sorted(VARIANTS)[:limit]:
            v = ctx.choose(name, [None] + VARIANTS[name],
                           label=lambda v: "-" if v is None else
                           str(VARIANTS[v["name"]].index(v)))
            if v is not None:
                place = PLACES[ctx.choose("place", [0, 2])] \
                    if name == "x/A" else PLACES[0]
                classes.append((place % name[2:], v))
        twice = ctx.flag("twice")
        if twice and classes:
            # another version of the first class elsewhere in the jar
            n = classes[0][1]["name"]
            classes.append(("old/" + n + ".class", VARIANTS[n][-1]))
        tree = {e: v["data"] for e, v in classes}
        tree["META-INF/MANIFEST.MF"] = b"Manifest-Version: 1.0\r\n\r\n"
        tree["d/x.class.txt"] = b"no class"
        tree["d/"] = None
        form = ctx.choose("form", ["zip", "dir"])
        p = os.path.join(ctx.tmpdir, "j")
        if form == "zip":
            trees.write_zip(tree, p)
        else:
            trees.write(tree, p)
        prov, req, _ = union(classes)
        with jarinfo.JarInfo(p) as ji:
            ctx.eq(sorted(ji.get_classes()), sorted(e for e, _ in classes),
                   "c11:classes")
            ask(ctx, ji, prov, req, "jar")
        ctx.state((sorted(prov), sorted(req), form))
        ctx.outcome((len(prov) > 0, len(req) > 0))
    return run


def each(ctx):
    """a class is one in any directory, under any name that ends so"""
    n = every.choose(ctx, False)
    v = VARIANTS["x/A"][1]
    tree = {"a0": b"1", n: v["data"]}
    form = ctx.choose("form", ["zip", "dir"] if n in every.PATHS else ["zip"])
    p = os.path.join(ctx.tmpdir, form)
    (trees.write_zip if form == "zip" else trees.write)(tree, p)
    classes = [(n, v)] if n.endswith(".class") else []
    prov, req, _ = union(classes)
    with jarinfo.JarInfo(p) as ji:
        ctx.eq(list(ji.get_classes()), [e for e, _ in classes], "c11:each")
        ctx.eq(norm(ji.get_provides()), norm(prov), "c11:each", repr(n))
        ctx.eq(norm(ji.get_requires()), norm(req), "c11:each", repr(n))
    if n.startswith("./"):
        return
    info = distinfo.DistInfo(p)
    try:
        if n.endswith((".jar", ".war", ".zip", ".ear")):
            ctx.eq(list(info.get_classes()), [], "c11:each", repr(n))
            return
        ctx.eq(sorted(info.get_contents()), sorted(tree), "c11:each")
        ctx.eq(list(info.get_classes()), [e for e, _ in classes],
               "c11:each", repr(n))
        ctx.eq(norm(info.get_provides()), norm(prov), "c11:each", repr(n))
        ctx.eq(norm(info.get_requires()), norm(req), "c11:each", repr(n))
    finally:
        info.close()


WHERE = [None, "lib/a.jar", "b.war", "loose"]


def dists(limit, forms):
    def run(ctx):
        loose, injar = [], {}
        for name in sorted(VARIANTS):
            w = ctx.choose("where " + name, WHERE)
            if w is None:
                continue
            v = ctx.choose(name, VARIANTS[name][:limit],
                           label=lambda v: str(
                               VARIANTS[v["name"]].index(v)))
            if w == "loose":
                loose.append(("c/" + name + ".class", v))
            else:
                injar.setdefault(w, []).append((name + ".class", v))
        both = ctx.flag("also")
        if both:
            # the first class is in a further jar, too
            injar["x.ear"] = [("x/A.class", VARIANTS["x/A"][0])]
        tree = {e: v["data"] for e, v in loose}
        tree["readme"] = b"1"
        for j, cs in injar.items():
            q = os.path.join(ctx.tmpdir, "tmp")
            trees.write_zip({e: v["data"] for e, v in cs}, q)
            with open(q, "rb") as fd:
                tree[j] = fd.read()
        prov, req, p = union(loose)
        req = union(loose)[1]
        allreq = {}
        priv = set()
        for e, v in loose:
            for s in v["req"]:
                allreq.setdefault(s, []).append(("class.requires", e))
            priv |= v["priv"]
        for j, cs in injar.items():
            jp, jr, jq = union(cs)
            for s, l in jp.items():
                prov.setdefault(s, []).append(("jar.provides", j, l))
            for s, l in jr.items():
                allreq.setdefault(s, []).append(("jar.requires", j, l))
            priv |= jq
        req = {s: l for s, l in allreq.items() if s not in priv}
        form = ctx.choose("form", forms)
        path = os.path.join(ctx.tmpdir, "dist")
        if form == "zip":
            trees.write_zip(tree, path)
        else:
            trees.write(tree, path)
        info = distinfo.DistInfo(path)
        ctx.eq(sorted(info.get_jars()), sorted(injar), "c11:jars")
        ctx.eq(sorted(info.get_classes()), sorted(e for e, _ in loose),
               "c11:classes")
        ctx.eq(sorted(info.get_contents()), sorted(tree), "c11:contents")
        ask(ctx, info, prov, req, "dist")
        work = info.tmpdir
        info.close()
        ctx.check(not work or not os.path.exists(work), "c11:left",
                  "temporary files left behind")
        if form == "dir":
            ctx.eq(sorted(trees.files(trees.read(path))), sorted(tree),
                   "c11:kept", "the distribution itself")
        ctx.state((sorted(prov), sorted(req), form, sorted(injar)))
        ctx.outcome((len(loose), len(injar)))
    return run


def harnesses(tier):
    t = tier == "thorough"
    return [
        Harness("jars", jars(3), quota=50,
                describe="all choices of variants of three classes in one "
                "jar, packed and exploded"),
        Harness("each", each, quota=20),
        Harness("dists", dists(4, ["dir", "zip"]), quota=50,
                describe="all distributions of the classes over two jars "
                "and a directory, packed and exploded"),
    ]
