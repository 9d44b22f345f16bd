"""C19: parallel distribution comparison"""

import builtins
import io
import json
import multiprocessing
import os
import shutil
import sys
import zipfile

from vlib import edits
from vlib import html
from vlib import sched
from vlib import trees
from vlib.explore import Harness
from checks.c15 import M1, M2

from javatools import dirutils
from javatools import distdiff
from javatools import report

ASSUMPTIONS = [
    "queues and processes behave as modelled in vlib/sched.py (validated "
    "by runs with the real primitives)",
    "workers are not killed, pipes are not full",
    "of a comparison that fails only the failure is compared, not its text",
]

setup = html.setup


def cls(names=()):
    return edits.encode(edits.apply(edits.small(), list(names)))[0]


def jar(entries):
    out = io.BytesIO()
    with zipfile.ZipFile(out, "w") as z:
        for n, c in entries:
            z.writestr(zipfile.ZipInfo(n, (2020, 1, 1, 0, 0, 0)), c)
    return out.getvalue()


C, CF, CD = cls(), cls(["flag-0x10"]), cls(["class-deprecated"])
BAD = C[:len(C) // 2]
J = jar([("x/C.class", C), ("r", b"1")])
JC = jar([("x/C.class", CF), ("r", b"1")])
JD = jar([("x/C.class", CD), ("r", b"1")])
JR = jar([("x/C.class", C), ("r", b"2")])
JJ = jar([("r", b"1"), ("x/C.class", C)])
JBAD = jar([("x/C.class", BAD), ("r", b"1")])

# name -> (left, right)
DISTS = {
    "none": {"a.txt": (b"1", b"2"), "b.class": (C, C)},
    "one": {"a.class": (C, CF), "t.txt": (b"1", b"1 ")},
    "two": {"a.class": (C, CF), "d/b.jar": (J, JC)},
    "hidden": {"a.class": (C, CD), "d/b.jar": (J, JD), "e.jar": (J, JJ)},
    "three": {"a.class": (C, CF), "d/b.jar": (J, JR), "d/c.class": (C, CD),
              "same.class": (C, C), "t.txt": (b"1", b"2"),
              "gone.jar": (J, None)},
    "four": {"d/a.jar": (J, JC), "d/b.jar": (J, JJ), "d/c.class": (C, CD),
             "e.class": (C, CF), "new.class": (None, C)},
    "bad1": {"a.class": (C, BAD), "b.class": (C, CF)},
    "bad2": {"a.class": (C, CF), "d/b.jar": (J, JBAD), "e.class": (C, CD)},
    "allbad": {"a.class": (C, BAD), "d/b.jar": (J, JBAD)},
    "ownbad": {"a.class": (C, CF), "d/b.jar": (J, JC),
               "m/MANIFEST.MF": (M1, b"no manifest")},
}


def call(name, processes, fmts, extra, where):
    """exit status or failure, and everything that was written"""
    os.chdir("/")
    shutil.rmtree(where, ignore_errors=True)
    os.makedirs(where)
    os.chdir(where)
    l = {n: v[0] for n, v in DISTS[name].items() if v[0] is not None}
    r = {n: v[1] for n, v in DISTS[name].items() if v[1] is not None}
    trees.write(l, "l")
    trees.write(r, "r")
    args = ["distdiff", "l", "r", "--processes", str(processes),
            "-o", "stdout", "--report-dir", "out"] + list(extra)
    for f in fmts:
        args += ["--report", f]
    if "html" in fmts:
        args += ["--html-copy-data", "data"]
    try:
        code = distdiff.main(args)
    except sched.Deadlock:
        raise
    except Exception as e:
        if isinstance(e, (OSError, EOFError)) and \
                not isinstance(e, FileNotFoundError):
            raise
        return "failed", {}
    got = trees.files(trees.read("."))
    out = {}
    for n, c in got.items():
        if n.startswith(("l/", "r/")):
            continue
        if n.endswith(".json") or "--json" in extra and n == "stdout":
            d = json.loads(c)
            d["runtime_options"].pop("processes")
            c = d
        out[n] = c
    return code, out


SEQ = {}


def sequential(name, fmts, extra, tmp):
    key = (name, tuple(fmts), tuple(extra))
    if key not in SEQ:
        SEQ[key] = call(name, 0, fmts, extra, os.path.join(tmp, "seq"))
    return SEQ[key]


def verdict(ctx, name, got, want):
    ctx.eq(got[0], want[0], "c19:exit", "exit status of %s" % name)
    if want[0] == "failed":
        return
    ctx.eq(sorted(got[1]), sorted(want[1]), "c19:files",
           "files written for %s" % name)
    for n in sorted(want[1]):
        if got[1][n] != want[1][n]:
            ctx.fail("c19:report", "%s: %s differs: %r, sequentially %r" % (
                name, n, got[1][n], want[1][n]))
        ctx.step()


class Patched(object):
    """Process and Queue of the scheduler instead of the real ones, and
    scheduling points where files are made, if wanted"""

    def __init__(self, sch, files):
        self.sch = sch
        self.process, self.queue = sch.primitives()
        self.files = files

    def __enter__(self):
        self.saved = []
        for mod in (multiprocessing, distdiff):
            for n, v in (("Process", self.process), ("Queue", self.queue),
                         ("SimpleQueue", self.queue)):
                if hasattr(mod, n):
                    self.saved.append((mod, n, getattr(mod, n)))
                    setattr(mod, n, v)
        if self.files:
            sch = self.sch

            def wrap(fun):
                def wrapped(*a, **k):
                    sch.point()
                    return fun(*a, **k)
                return wrapped
            self.saved.append((os, "mkdir", os.mkdir))
            os.mkdir = wrap(os.mkdir)
            self.saved.append((dirutils, "exists", dirutils.exists))
            dirutils.exists = wrap(dirutils.exists)

    def __exit__(self, *exc):
        for mod, n, v in reversed(self.saved):
            setattr(mod, n, v)


def scheduled(names, procs, fmts=("text", "json"), extra=(), delays=True,
              files=False):
    def run(ctx):
        name = ctx.choose("dist", names)
        n = ctx.choose("processes", procs)
        want = sequential(name, fmts, extra, ctx.tmpdir)
        s = sched.Scheduler(ctx, delays)

        def par():
            return call(name, n, fmts, extra, os.path.join(ctx.tmpdir, "p"))
        with Patched(s, files):
            try:
                got = s.run(par)
            except sched.Deadlock as e:
                ctx.fail("c19:hang", str(e))
        verdict(ctx, name, got, want)
        ctx.state((name, n, s.trace))
        ctx.outcome((name, want[0], len(s.actors)))
    return run


def real(ctx):
    """the real primitives; also shows that the model fits them"""
    name = ctx.choose("dist", sorted(DISTS))
    n = ctx.choose("processes", [1, 2, 3, 8])
    fmts = ctx.choose("formats", [("text", "json"), ("html",)])
    extra = ctx.choose("options", [(), ("--ignore-deprecated",),
                                   ("--show-ignored", "--show-unchanged",
                                    "--ignore-deprecated", "--json")])
    want = sequential(name, fmts, extra, ctx.tmpdir)
    got = call(name, n, fmts, extra, os.path.join(ctx.tmpdir, "p"))
    for p in multiprocessing.active_children():
        p.join(20)
        ctx.check(not p.is_alive(), "c19:left", "a worker does not end")
    verdict(ctx, name, got, want)
    ctx.state((name, n, fmts, extra))
    ctx.outcome(want[0])


GOOD = ["none", "one", "two", "hidden", "three", "four"]
FAIL = ["bad1", "bad2", "allbad", "ownbad"]
HIDE = ("--ignore-deprecated", "--show-ignored")


def harnesses(tier):
    t = tier == "thorough"
    return [
        Harness("real", real, quota=4, timeout=60,
                describe="real processes, every distribution"),
        Harness("full", scheduled(["none", "one", "two", "bad1", "allbad"],
                                  [1, 2], delays=False), quota=50,
                bound=None if t else 3,
                describe="interleavings at queue and process operations"),
        Harness("delayed", scheduled(GOOD + FAIL, [1, 2, 3] if t else [1, 2]),
                quota=50, bound=2 if t else 1,
                describe="interleavings with late arrival of what was put"),
        Harness("three", scheduled(["hidden", "three", "four", "bad2"],
                                   [2, 3] if t else [3], extra=HIDE),
                quota=50, bound=1 if t else 0),
        Harness("html", scheduled(["two", "three", "bad1"],
                                  [1, 2, 3] if t else [1, 2],
                                  ("html", "text")), quota=20,
                bound=1 if t else 0),
        Harness("files", scheduled(["two", "four"] if t else ["two"],
                                   [2, 3] if t else [2], ("html",),
                                   files=True, delays=False), quota=20,
                bound=1,
                describe="interleavings at the making of directories, too"),
    ]
