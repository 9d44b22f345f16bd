"""C28: histories of signing and changing a jar"""

import os

from vlib import cli, jars, trees
from vlib.explore import Harness
from vlib.jars import MF, cert, key

from javatools import jarutil
from javatools.jarutil import JarChecksumError, ManifestChecksumError, \
    SignatureBlockFileVerificationError, VerificationError

ASSUMPTIONS = [
    "between signings the jar is changed by tools that keep the other "
    "entries as they are; aliases are the same ignoring case",
    "a signature covers the sections the manifest had when it was made; "
    "signing with another digest adds to those sections and so ends the "
    "validity of earlier signatures",
]

V = b"Manifest-Version: 1.0\r\nMain-Class: a.B\r\n\r\n"
SECTIONS = b"Name: d/\r\nSealed: true\r\n\r\nName: a\r\nK: v\r\nL: w\r\n\r\n"
BASE = [("a", b"1"), ("d/", b""), ("d/b", b"2"), ("META-INF/s", b"3")]

# alias, key, digest
SIGN = {
    "sign X": ("X", "rsa1", "SHA-256"),
    "sign Y": ("Y", "ec1", "SHA-256"),
    "sign X SHA1": ("X", "rsa1", "SHA1"),
    "sign X by ec2": ("X", "ec2", "SHA-256"),
    "sign x": ("x", "dsa1", "SHA-256"),
    "sign Y SHA-512": ("Y", "ec1", "SHA-512"),
    "sign LONGER-Z": ("LONGER-Z", "rsa2", "SHA-256"),
}


class Model(object):
    """what has to be in the jar, and which signatures hold"""

    def __init__(self, plain):
        self.entries = dict(BASE)
        self.main = {"Manifest-Version": "1.0", "Main-Class": "a.B"}
        self.secs = {}
        if not plain:
            self.secs = {"d/": {"Sealed": "true"},
                         "a": {"K": "v", "L": "w"}}
        self.sigs = {}
        self.unix = False

    def covered(self):
        return [n for n in self.entries if not jars.skips(n)]

    def sign(self, alias, k, alg):
        for n in self.covered():
            s = self.secs.setdefault(n, {})
            for a in list(s):
                d = a[:-7] if a.endswith("-Digest") else None
                if d in jars.HASH and s[a] != jars.digest(
                        d, self.entries[n]):
                    del s[a]
            s[alg + "-Digest"] = jars.digest(alg, self.entries[n])
        for old in list(self.sigs):
            if old.upper() == alias.upper():
                del self.sigs[old]
        self.sigs[alias] = (k, alg, dict(self.main), {
            n: dict(s) for n, s in self.secs.items()}, self.unix)

    def verdict(self, alias):
        _k, _alg, main, secs, _unix = self.sigs[alias]
        if main != self.main or any(secs.get(n) != s
                                    for n, s in self.secs.items()):
            return ManifestChecksumError
        for n in self.covered():
            ds = [(a[:-7], v) for a, v in self.secs.get(n, {}).items()
                  if a.endswith("-Digest")]
            if not any(d in jars.HASH and
                       v == jars.digest(d, self.entries[n])
                       for d, v in ds):
                return JarChecksumError
        return None


def edit(model, jar, op):
    """another tool changes the jar"""
    items = trees.read_zip(jar)
    e = model.entries
    what, _sp, name = op.partition(" ")
    if what == "add":
        if name not in e:
            items.append((name, b"new"))
        e[name] = b"new"
    elif what == "remove":
        e.pop(name, None)
        items = [x for x in items if x[0] != name]
    elif what in ("change", "restore"):
        c = b"changed" if what == "change" else dict(BASE)[name]
        if name in e:
            e[name] = c
            items = [(n, c if n == name else d) for n, d in items]
    elif op == "edit main":
        new = "a.C" if model.main["Main-Class"] == "a.B" else "a.B"
        old = model.main["Main-Class"]
        model.main["Main-Class"] = new
        items = [(n, d.replace(b"Main-Class: " + old.encode(),
                               b"Main-Class: " + new.encode())
                  if n == MF else d) for n, d in items]
    elif op == "edit section":
        s = model.secs["d/"]
        old, s["Sealed"] = s["Sealed"], \
            "false" if s["Sealed"] == "true" else "true"
        items = [(n, d.replace(b"Sealed: " + old.encode(),
                               b"Sealed: " + s["Sealed"].encode())
                  if n == MF else d) for n, d in items]
    elif op == "drop section":
        # of an entry: it is not covered any more
        s = model.secs.pop("a", None)
        items = [(n, b"".join(
            x for x in jars.raw_sections(d)
            if ("Name", "a") not in jars.fields(x))
            if n == MF else d) for n, d in items]
    elif op == "line ends":
        model.unix = not model.unix
        # the same manifest with other line ends
        items = [(n, d.replace(b"\r\n", b"\n") if n == MF and
                  b"\r\n" in d else d.replace(b"\n", b"\r\n")
                  if n == MF else d) for n, d in items]
    jars.write(jar, items)


def judge(ctx, model, jar):
    content = dict(trees.read_zip(jar))
    names = [n for n, _c in trees.read_zip(jar)]
    want = set(model.entries) | {MF}
    for alias, (k, _alg, _m, _s, _u) in model.sigs.items():
        want |= {"META-INF/%s.SF" % alias,
                 "META-INF/%s.%s" % (alias, jars.ext(k))}
    ctx.eq(sorted(names), sorted(want), "c28:names")
    for n, c in model.entries.items():
        ctx.eq(content[n], c, "c28:content", n)
    secs = [jars.fields(s) for s in jars.raw_sections(content[MF])]
    ctx.eq(dict(secs[0]), model.main, "c28:main")
    got = {}
    for s in secs[1:]:
        s = dict(s)
        ctx.check(s["Name"] not in got, "c28:twice", repr(s))
        got[s.pop("Name")] = s
    ctx.eq(got, model.secs, "c28:sections")
    verdicts = []
    for alias, (k, _alg, _m, _s, unix) in sorted(model.sigs.items()):
        want = model.verdict(alias)
        if unix != model.unix and want is not ManifestChecksumError:
            # the sections do not have the line ends they were signed with
            want = "any"
        try:
            jarutil.verify(cert(k), jar, alias + ".SF")
            got = None
        except VerificationError as e:
            got = type(e)
        if want != "any":
            ctx.eq(got, want, "c28:verdict", "signature %s" % alias)
            if len(model.sigs) == 1:
                ctx.eq(cli.run(jarutil.main, ["j", "v", jar, cert(k)])[0]
                       == 0, want is None, "c28:status")
        try:
            jarutil.verify(cert("rsa2" if k != "rsa2" else "rsa1"), jar,
                           alias + ".SF")
            ctx.fail("c28:other", "verifies with another certificate")
        except SignatureBlockFileVerificationError:
            pass
        verdicts.append((alias, got and got.__name__))
    if len(model.sigs) > 1:
        try:
            jarutil.verify(cert("rsa1"), jar)
            ctx.fail("c28:ambiguous", "verified without a name")
        except VerificationError:
            pass
    return tuple(verdicts)


def histories(ops, depth, plain=False):
    def run(ctx):
        model = Model(plain)
        jar = os.path.join(ctx.tmpdir, "h.jar")
        mf = V + (b"" if plain else SECTIONS)
        if ctx.flag("unix", dev=True):
            mf = mf.replace(b"\r\n", b"\n")
            model.unix = True
        jars.write(jar, BASE, mf)
        v = ()
        for i in range(depth):
            op = ctx.choose("op%d" % i, ops)
            if op in SIGN:
                alias, k, alg = SIGN[op]
                model.sign(alias, k, alg)
                jarutil.sign(jar, cert(k), key(k), alias, None, alg)
            else:
                if op == "edit section" and plain:
                    ctx.choose("n/a", [])
                edit(model, jar, op)
            v = judge(ctx, model, jar)
            ctx.state((plain, sorted(model.entries.items()), sorted(
                (n, sorted(s.items())) for n, s in model.secs.items()),
                sorted(model.main.items()), v))
            ctx.step(1)
        ctx.outcome(v)
    return run


ALIASES = ["K", "BK", "KB", "B", "K.SF", "SF", "K-K", "k_k"]
KEYS = ["rsa1", "ec1", "dsa1", "rsa2"]


def aliases(depth):
    """several signatures, by names which are parts of one another"""
    def run(ctx):
        model = Model(True)
        jar = os.path.join(ctx.tmpdir, "n.jar")
        jars.write(jar, BASE, V)
        for i in range(depth):
            alias = ctx.choose("alias%d" % i, ALIASES)
            k = KEYS[i]
            model.sign(alias, k, "SHA-256")
            jarutil.sign(jar, cert(k), key(k), alias, None, "SHA-256")
            v = judge(ctx, model, jar)
            for other in ALIASES + [""]:
                if other in model.sigs:
                    continue
                try:
                    jarutil.verify(cert(k), jar, other + ".SF")
                    ctx.fail("c28:unknown", "%r verifies" % other)
                except VerificationError:
                    pass
            rc, out, _e = cli.run(jarutil.main, [
                "j", "v", jar, cert(k), alias + ".SF"])
            ctx.eq(rc, 0, "c28:status", alias)
            ctx.state((sorted(model.sigs), v))
            ctx.step(1)
        ctx.outcome(v)
    return run


ALL = ["sign X", "sign Y", "sign X SHA1", "sign X by ec2", "sign x",
       "sign Y SHA-512", "sign LONGER-Z", "add new", "add META-INF/new",
       "change a", "restore a", "remove d/b", "remove new", "edit main",
       "edit section", "drop section", "line ends"]
FEW = ["sign X", "sign Y", "sign X SHA1", "add new", "change a",
       "restore a", "remove new", "edit main"]
TINY = ["sign X", "sign Y", "add new", "change a", "restore a",
        "remove new"]


def harnesses(tier):
    deep = tier == "thorough"
    return [Harness("all-operations", histories(ALL, 4 if deep else 3),
                    bound=0 if deep else 1),
            Harness("few-operations", histories(FEW, 5 if deep else 4),
                    bound=0),
            Harness("aliases", aliases(4 if deep else 3), bound=0),
            Harness("plain", histories(TINY, 5 if deep else 4, True),
                    bound=0)]
