"""C32: output that could not be written is reported"""

import io
import os
import zipfile

from vlib import faults, trees
from vlib.explore import Harness
from checks import c33
from checks.c33 import call, cmd, setup  # noqa: setup is part of a check

ASSUMPTIONS = [
    "writing fails by an error, by the disk being full from some operation "
    "on, or by writing half and then finding the disk full; what is left "
    "behind after the report of a failure is not judged",
    "standard output that fails when the interpreter flushes it at the end "
    "is reported by the interpreter",
]

HTML = ["--report=html", "--report-dir=@@out"]


def jobs():
    out = []
    for module, l, r in (("classdiff", "@c0.class", "@c1.class"),
                         ("jardiff", "@j0.jar", "@e1"),
                         ("distdiff", "@d0", "@d1")):
        more = ["--processes=0"] if module == "distdiff" else []

        def add(*args):
            out.append(cmd(module, *(more + list(args) + [l, r]), want=1))
        add()
        add("--json")
        add("-q", "--report=text,json", "--report-dir=@@a/b/out")
        add("-q", "--html-copy-data=@@media", *HTML)
        add("--html-copy-data=@@out", *HTML)
        if module != "classdiff":
            add("-o", "@@o")
        if module == "distdiff":
            add("-o", "@@o", "--json")
    out += [
        cmd("classinfo", "--verbose", "--private", "@c0.class"),
        cmd("classinfo", "--json", "--class-provides", "@c0.class"),
        cmd("jarinfo", "--zip", "--manifest", "--jar-classes",
            "--jar-provides", "--jar-requires", "@j0.jar"),
        cmd("jarinfo", "--json", "--jar-provides", "@e0"),
        cmd("distinfo", "--dist-provides", "--dist-requires", "@d0"),
        cmd("distinfo", "--json", "--dist-provides", "@d.zip"),
        cmd("manifest", "q", "@j0.jar", "A", want=None),
        cmd("manifest", "c", "@raw", want=None),
        cmd("manifest", "c", "-m", "@@mf", "@j0.jar", want=None),
        cmd("manifest", "c", "-m", "@@a/b/mf", "-d", "SHA-512,MD5", "@tree",
            want=None),
        cmd("manifest", "c", "-m", "@@mf", "@many", want=None),
        cmd("jarutil", "c", "@@new.jar", "@raw", "@c0.class"),
        cmd("jarutil", "c", "-m", "M", "@@new.jar", "@tree"),
        call(".jarutil:create_jar", "@@new.jar", ["@many"], "x.Main"),
        cmd("jarutil", "v", "@s.jar", "@cert.pem"),
        call(".dirutils:copydir", "@tree", "@@new"),
        call(".dirutils:copydir", "@many", "@@a/b/new"),
        call(".dirutils:makedirsp", "@@a/b/c"),
    ]
    for j in out:
        j["name"] = j["name"].replace("@", "")
    return out


def stamp(root):
    out = []
    for r, ds, fs in os.walk(root):
        for n in ds + fs:
            s = os.lstat(os.path.join(r, n))
            if r != root or n != "tmp":
                out.append((os.path.join(r, n), s.st_mode, s.st_mtime_ns,
                            s.st_size if n in fs else 0))
    return sorted(out)


class Failing(c33.Failing):

    def prepare(self, ctx):
        inside = os.path.join(ctx.tmpdir, "in")
        if not os.path.isdir(inside):
            c33.plant(inside)
            trees.write({"d%d/f%d" % (i % 7, i): b"%d" % i
                         for i in range(60)}, os.path.join(inside, "many"))
            os.mkdir(os.path.join(inside, "tmp"))
        return inside

    def go(self, ctx, job, mode="none", at=-1):
        inside = self.prepare(ctx)
        outside = os.path.join(ctx.tmpdir, "outside")
        trees.clear(outside)
        os.mkdir(outside)
        before = stamp(inside)
        r = faults.run(job["fn"], c33.fill(job["args"], inside, outside),
                       outside, mode, at, out=os.path.join(outside, "stdout"),
                       tmp=os.path.join(inside, "tmp"))
        ctx.check(stamp(inside) == before, "c32:input:" + job["name"],
                  "the input was changed")
        files = {k: v and self.plain(ctx, k, v)
                 for k, v in trees.read(outside).items()}
        return r, files

    @staticmethod
    def plain(ctx, name, data):
        if name.endswith(".jar"):
            try:
                with zipfile.ZipFile(io.BytesIO(data)) as z:
                    return [(i.filename, z.read(i)) for i in z.infolist()]
            except zipfile.BadZipFile:
                return data
        return data.replace(ctx.tmpdir.encode(), b"@")

    def __call__(self, ctx):
        job = ctx.choose("job", self.jobs, label=lambda j: j["name"])
        key = ctx.tmpdir, job["name"]
        if key not in self.base:
            self.base[key] = self.go(ctx, job)
        base = self.base[key]
        r = base[0]
        ctx.eq(r["end"], "returned", "c32:base:" + job["name"],
               str(r["value"]))
        if job["want"] is not None:
            ctx.eq(str(r["value"]), str(job["want"]), "c32:base:" +
                   job["name"])
        mode = ctx.choose("mode", self.modes)
        at = ctx.choose("at", [i for i in faults.points(r["ops"], mode)
                               if r["ops"][i] in "wWtdlrmC"],
                        label=lambda i: "%d%s" % (i, r["ops"][i]))
        kind = r["ops"][at]
        r, files = self.go(ctx, job, mode, at)
        ctx.check(r["end"] in ("returned", "raised"), "c32:end",
                  "%s %s" % (r["end"], r["value"]))
        ctx.check(r.get("failed"), "c32:failed", "nothing failed")
        if r["end"] == "returned":
            v = r["value"]
            ordinary = {base[0]["value"], 0, None, 1}
            if not job["fn"].endswith(":main") or v in ordinary:
                diff = sorted(k for k in set(files) | set(base[1])
                              if files.get(k, 0) != base[1].get(k, 0))
                ctx.check(not diff, "c32:silent:" + job["name"],
                          "%s failed, returned %r, but %r are not as they "
                          "should be" % (kind, v, diff))
        ctx.outcome((job["name"], r["end"], str(r["value"])[:20]))
        ctx.state((job["name"], mode, at))
        ctx.step(len(base[1]))


def harnesses(tier):
    js = jobs()
    return [Harness("failing", Failing(js, ["error", "full", "short"]),
                    quota=30, timeout=60, describe="each of %d commands and "
                    "calls, each operation on its output failing" % len(js))]
