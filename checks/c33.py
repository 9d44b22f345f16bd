"""C33: input that cannot be read is never taken for something else"""

import io
import itertools
import json
import os
import struct
import zipfile
import zlib

from vlib import cli, edits, faults, html, jars, trees
from vlib.explore import Harness
from vlib.jars import MF

from javatools import distdiff, jardiff, jarinfo, jarutil, manifest

ASSUMPTIONS = [
    "reading fails when a file or directory is opened, read or listed, "
    "once or from then on; what stat says about it does not fail",
    "exit status 1 of a comparison says that there is a difference, an "
    "exception that leaves the command that there is none",
]


def setup(tmproot):
    html.setup(tmproot)
    faults.setup(tmproot)


def cls(names=()):
    return edits.encode(edits.apply(edits.small(), list(names)))[0]


def jar(entries, packed=zipfile.ZIP_DEFLATED):
    out = io.BytesIO()
    with zipfile.ZipFile(out, "w", packed) as z:
        for n in sorted(entries):
            z.writestr(zipfile.ZipInfo(n, (2020, 1, 1, 0, 0, 0)),
                       entries[n], packed)
    return out.getvalue()


C = [cls(), cls(["flag-0x10"])]
M = b"Manifest-Version: 1.0\r\nA: %d\r\n\r\nName: p/C.class\r\nX: 1\r\n\r\n"
BIG = bytes(range(256)) * 200


def content(v, w=0):
    """of a jar; v changes the contents, w the rest"""
    return {MF: M % w, "p/C.class": C[v], "p/q/D.class": C[0],
            "r/x.txt": b"%d" % v, "r/s/big": BIG + b"%d" % w}


def dist(v):
    return {"C.class": C[v], "d/e/C.class": C[0],
            "lib/x.jar": jar(content(v)), "lib/y.jar": jar(content(0)),
            "t.txt": b"a%d\n" % v, "d/t.txt": b"a\n \n",
            MF: M % v, "big": BIG, "d/only%d" % v: b""}


def plant(root):
    """all that the commands are run on"""
    trees.clear(root)
    os.mkdir(root)

    def p(*x):
        return os.path.join(root, *x)
    for v in (0, 1):
        with open(p("c%d.class" % v), "wb") as fd:
            fd.write(C[v])
        trees.write(content(v), p("e%d" % v))
        trees.write(dist(v), p("d%d" % v))
        with open(p("j%d.jar" % v), "wb") as fd:
            fd.write(jar(content(v)))
    with open(p("d.zip"), "wb") as fd:
        fd.write(jar(dist(0)))
    # the same once more
    trees.write(content(0), p("e2"))
    trees.write(dist(0), p("d2"))
    for n in ("c0.class", "j0.jar"):
        with open(p(n), "rb") as src, open(p(n.replace("0", "2")),
                                           "wb") as fd:
            fd.write(src.read())
    trees.write({"a/b/c": b"1", "a/d": BIG, "e/": None, "f": b""}, p("tree"))
    trees.write({"content/C.class": C[0], "content/p/q": b"1",
                 "content/r": b"2"}, p("raw"))
    jarutil.create_jar(p("s.jar"), [])
    with zipfile.ZipFile(p("s.jar"), "a") as z:
        z.writestr("p/C.class", C[0])
        z.writestr("big", BIG)
    jarutil.sign(p("s.jar"), jars.cert("rsa1"), jars.key("rsa1"), "K", [],
                 "SHA-256")
    with open(jars.cert("rsa1"), "rb") as src, \
            open(p("cert.pem"), "wb") as fd:
        fd.write(src.read())
    # digests for manifest v
    with zipfile.ZipFile(p("m.jar"), "w") as z:
        from javatools.manifest import Manifest, b64_encoded_digest
        mf = Manifest()
        for n in ("a", "big"):
            c = BIG if n == "big" else b"1"
            mf.create_section(n)["SHA1-Digest"] = \
                b64_encoded_digest(c, _digest())
            z.writestr(n, c)
        z.writestr(MF, mf.get_data())


def _digest():
    import hashlib
    return hashlib.sha1


M_INFO = [["get_provides", []], ["get_requires", []]]
AGAIN = [
    ("distinfo:DistInfo", "@d0", M_INFO + [["get_contents", []]]),
    ("distinfo:DistInfo", "@d.zip", M_INFO + [["get_contents", []]]),
    ("jarinfo:JarInfo", "@j0.jar", M_INFO + [
        ["get_classes", []], ["get_manifest", []]]),
    ("jarinfo:JarInfo", "@e0", M_INFO + [
        ["get_classes", []], ["get_private_provides", []]]),
    ("ziputils:ExplodedZipFile", "@e0", [["refresh", []], ["namelist", []],
                                         ["read", ["r/x.txt"]]]),
]


def cmd(module, *args, **kw):
    """name, function, arguments, the ordinary end"""
    return dict(fn="javatools.%s:main" % module, args=[list(("x",) + args)],
                name=" ".join((module,) + args), want=kw.get("want", 0))


def call(fn, *args, **kw):
    return dict(fn="javatools" + fn, args=list(args), name=fn +
                " " + " ".join(map(str, args)), want=kw.get("want"))


def jobs(tier):
    out = []
    for l, r in (("0", "1"), ("0", "2")):
        want = int(r == "1")
        out += [
            cmd("classdiff", "@c%s.class" % l, "@c%s.class" % r, want=want),
            cmd("jardiff", "@j%s.jar" % l, "@j%s.jar" % r, want=want),
            cmd("jardiff", "@e%s" % l, "@e%s" % r, want=want),
            cmd("jardiff", "@e%s" % l, "@j%s.jar" % r, want=1),
            cmd("jardiff", "@j%s.jar" % l, "@e%s" % r, want=1),
            cmd("distdiff", "--processes=0", "@d%s" % l, "@d%s" % r,
                want=want),
            cmd("distdiff", "--processes=0", "--show-unchanged",
                "--ignore-trailing-whitespace", "--json", "@d%s" % l,
                "@d%s" % r, want=want),
            call(".dirutils:collect_compare", "@d" + l, "@d" + r),
            call(".ziputils:collect_compare", "@e" + l, "@e" + r),
            call(".ziputils:collect_compare", "@j%s.jar" % l, "@e" + r),
        ]
    out += [
        cmd("classdiff", "--report=json,text,html", "--report-dir=@@out",
            "--html-copy-data=@@media", "@c0.class", "@c1.class", want=1),
        cmd("jardiff", "--report=json,text,html", "--report-dir=@@out",
            "@j0.jar", "@e1", want=1),
        cmd("distdiff", "--processes=0", "--report=json,text,html",
            "--report-dir=@@out", "@d0", "@d1", want=1),
        cmd("classinfo", "@c0.class"),
        cmd("classinfo", "--verbose", "--private",
            "@c0.class", "@c1.class"),
        cmd("classinfo", "--json", "@c0.class"),
        cmd("jarinfo", "--zip", "--manifest", "--jar-classes",
            "--jar-provides", "--jar-requires", "@j0.jar"),
        cmd("jarinfo", "--zip", "--manifest", "--jar-classes",
            "--jar-provides", "--jar-requires", "@e0"),
        cmd("jarinfo", "--json", "--jar-provides", "@e0"),
        cmd("distinfo", "--dist-provides", "--dist-requires", "@d0"),
        cmd("distinfo", "--json", "--dist-provides", "--dist-requires",
            "@d.zip"),
        cmd("manifest", "v", "@m.jar"),
        cmd("manifest", "q", "@j0.jar", "A", "p/C.class:X", want=None),
        cmd("manifest", "c", "@raw", want=None),
        cmd("manifest", "c", "-r", "@raw", want=None),
        cmd("manifest", "c", "-m", "@@mf", "@j0.jar", want=None),
        cmd("jarutil", "c", "@@new.jar", "@raw", "@c0.class"),
        cmd("jarutil", "v", "@s.jar", "@cert.pem"),
        cmd("jarutil", "v", "@s.jar", "@cert.pem", "K.SF"),
        call(".dirutils:copydir", "@tree", "@@new"),
        call(":is_class_file", "@c0.class", want="True"),
        call(":is_class_file", "@t.txt", want="False"),
        call(".ziputils:file_crc32", "@tree/a/d"),
    ]
    for cls, path, methods in AGAIN:
        # one call again and again, and each pair of calls, twice
        n = len(methods)
        for i, k in itertools.product(range(n), repeat=2):
            if tier == "quick" and k > 1:
                continue
            a, b = methods[i], methods[(i + k) % n]
            out.append(dict(
                fn="faultjobs:again", want=None, name="%s %s %s %s" % (
                    cls, path, a[0], b[0]),
                args=["javatools." + cls, [path], [a, b, a, b]]))
    for j in out:
        j["name"] = j["name"].replace("@", "")
    return out


def fill(x, inside, outside):
    if isinstance(x, list):
        return [fill(y, inside, outside) for y in x]
    if not isinstance(x, str):
        return x
    return x.replace("@@", outside + "/").replace("@", inside + "/")


class Failing(object):
    def __init__(self, jobs, modes):
        self.jobs, self.modes, self.base = jobs, modes, {}

    def go(self, ctx, job, mode="none", at=-1):
        """-> what happened, standard output, what was written"""
        inside = os.path.join(ctx.tmpdir, "in")
        outside = os.path.join(ctx.tmpdir, "outside")
        if not os.path.isdir(inside):
            plant(inside)
            with open(os.path.join(inside, "t.txt"), "wb") as fd:
                fd.write(b"text")
            os.mkdir(os.path.join(inside, "tmp"))
        trees.clear(outside)
        os.mkdir(outside)
        so = os.path.join(ctx.tmpdir, "stdout")
        r = faults.run(job["fn"], fill(job["args"], inside, outside),
                       inside, mode, at, out=so)
        with open(so, "rb") as fd:
            text = fd.read()
        return r, text.replace(ctx.tmpdir.encode(), b"@"), {
            k: v and v.replace(ctx.tmpdir.encode(), b"@")
            for k, v in trees.read(outside).items()}

    def taken(self, ctx, job, base, now, kind):
        """it returned; that is for failures, too, a status of main"""
        v = now[0]["value"]
        ordinary = {base[0]["value"], 0, None}
        if "diff" in job["fn"]:
            ordinary |= {1}
        ctx.check(job["fn"].endswith(":main") and v not in ordinary,
                  "c33:taken:" + job["name"], "%s failed, returned %r; "
                  "output %s as without" % (
                      kind, v, "" if base[1:] == now[1:] else "not"))

    def again(self, ctx, base, now, kind, job):
        """each answer is an error or the right one, and there is one"""
        bad = [(i, b, n) for i, (b, n) in enumerate(zip(base, now))
               if n != b and not (isinstance(n, dict) and "raised" in n)]
        ctx.eq((len(now), bad), (len(base), []), "c33:again:" + job["name"],
               kind)
        ctx.check(now != base, "c33:again-silent:" +
                  job["name"], "no error for %s" % kind)

    def __call__(self, ctx):
        job = ctx.choose("job", self.jobs, label=lambda j: j["name"])
        key = ctx.tmpdir, job["name"]
        if key not in self.base:
            self.base[key] = self.go(ctx, job)
        base = self.base[key]
        r = base[0]
        ctx.eq(r["end"], "returned", "c33:base:" + job["name"],
               str(r["value"]))
        if job["want"] is not None:
            ctx.eq(str(r["value"]), str(job["want"]), "c33:base:" +
                   job["name"], "value")
        mode = ctx.choose("mode", self.modes)
        at = ctx.choose("at", [i for i in faults.points(r["ops"], mode)
                               if r["ops"][i] in "oRD"],
                        label=lambda i: "%d%s" % (i, r["ops"][i]))
        kind = r["ops"][at]
        r, text, files = self.go(ctx, job, mode, at)
        ctx.check(r["end"] in ("returned", "raised"), "c33:end",
                  "%s %s" % (r["end"], r["value"]))
        ctx.check(r.get("failed"), "c33:failed", "nothing failed")
        if job["fn"].startswith("faultjobs") and r["end"] == "returned":
            self.again(ctx, json.loads(base[0]["value"]),
                       json.loads(r["value"]), kind, job)
        elif r["end"] == "returned":
            self.taken(ctx, job, base, (r, text, files), kind)
        ctx.outcome((job["name"], r["end"], str(r["value"])[:20]))
        ctx.state((job["name"], mode, at))
        ctx.step(r["ops"].count("R") + 1)


# -- damaged archives

def regions(data):
    """name -> where the content of an entry lies in an archive"""
    out = {}
    with zipfile.ZipFile(io.BytesIO(data)) as z:
        for i in z.infolist():
            at = i.header_offset
            n, x = struct.unpack("<HH", data[at + 26:at + 30])
            at += 30 + n + x
            out[i.filename] = range(at, at + i.compress_size)
    return out


DAMAGE = [("xor 1", lambda b: b ^ 1), ("xor 128", lambda b: b ^ 128),
          ("xor 255", lambda b: b ^ 255)]
JINFO = ["--zip", "--manifest", "--jar-classes", "--verbose", "--private",
         "--jar-provides", "--jar-requires"]


def ends(fn, *args):
    """what a command says, None for an error"""
    try:
        rc, out, _err = cli.run(fn, ["x"] + list(args))
    except Exception:
        return None
    return None if rc not in (0, 1) else (rc, out)


def jar_content(name):
    return {MF: M % 1, "p/C.class": C[0]}.get(name, b"text" * 9)


def damaged(ctx):
    """one byte of an entry's content is damaged: commands that read it
    fail, comparisons may also say that there is a difference"""
    packed = ctx.choose("packed", [zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])
    names = [MF, "p/C.class", "t.txt"]
    data = jar({n: jar_content(n) for n in names}, packed)
    name = ctx.choose("entry", names)
    at = ctx.choose("at", list(regions(data)[name]))
    _n, how = ctx.choose("damage", DAMAGE, label=lambda d: d[0])
    bad = bytearray(data)
    bad[at] = how(bad[at])
    try:
        with zipfile.ZipFile(io.BytesIO(bad)) as z:
            ctx.check(z.read(name) == jar_content(name), "c33:damaged:crc",
                      "not detected")
        ctx.state(("harmless", packed, name, at, _n))
        return
    except (zipfile.BadZipFile, zlib.error):
        pass
    paths = {}
    for n, d in (("good", data), ("bad", bytes(bad))):
        for p in (n, n + "2"):
            os.makedirs(os.path.join(ctx.tmpdir, p), exist_ok=True)
            paths[p] = os.path.join(ctx.tmpdir, p, "x.jar")
            with open(paths[p], "wb") as fd:
                fd.write(d)
    g, b, b2 = paths["good"], paths["bad"], paths["bad2"]
    for l, r in ((g, b), (b, g), (b, b2)):
        got = ends(jardiff.main, "-q", l, r)
        # the same file twice is as good as the archives' own directory
        ctx.check(got is None or got[0] == 1, "c33:damaged:jardiff",
                  "no difference")
    for l, r in ((g, b), (b, g)):
        l, r = os.path.dirname(l), os.path.dirname(r)
        got = ends(distdiff.main, "-q", "--processes=0", l, r)
        ctx.check(got is None or got[0] == 1, "c33:damaged:distdiff",
                  "no difference")
    for module, args, reads in (
            (jarinfo, JINFO, "MC"), (jarinfo, ["--manifest"], "M"),
            (jarinfo, ["--jar-provides", "--json"], "C"),
            (manifest, ["c"], "Ct"), (manifest, ["v"], "M"),
            (manifest, ["q", "A"], "M")):
        args = list(args)
        args.insert(1 if module is manifest else 0, g)
        first = ends(module.main, *args)
        ctx.check(first is not None, "c33:damaged:base", repr(args))
        args[args.index(g)] = b
        got = ends(module.main, *args)
        key = {MF: "M", "p/C.class": "C", "t.txt": "t"}[name]
        ctx.check(got is None if key in reads else got == first,
                  "c33:damaged:info", "%r for damage in %s" % (args, name))
    ctx.state((packed, name, at, _n))


def harnesses(tier):
    js = jobs(tier)
    return [Harness("failing", Failing(js, ["error", "bad"]), quota=30,
                    timeout=60, describe="each of %d commands and calls, "
                    "each opening, reading and listing of its input failing "
                    "once or from then on" % len(js)),
            Harness("damaged", damaged, quota=100,
                    describe="each byte of the entries of an archive "
                    "damaged")]
