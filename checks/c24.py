"""C24: a signed jar verifies"""

import os
import shutil
import subprocess

from vlib import certs, cli, jars, trees
from vlib.explore import Harness
from vlib.jars import FIX, KEYS, cert, key

from javatools import jarutil
from javatools.crypto import private_key_type, create_signature_block, \
    verify_signature_block, SignatureBlockVerificationError, \
    CannotFindKeyTypeError
from javatools.jarutil import SignatureBlockFileVerificationError, \
    VerificationError

ASSUMPTIONS = [
    "combinations of key type and digest that OpenSSL can sign with (not "
    "EC or DSA with MD5, not DSA with SHA-384 or SHA-512)",
    "for a certificate that another one issued, the trusted certificate is "
    "the root of its chain",
    "manifests as the parser accepts them (C22), each section with a name "
    "of its own",
]

V = b"Manifest-Version: 1.0"
LAYOUTS = {
    "empty": [],
    "minimal": [V, b""],
    "no end": [V],
    "attributes": [V, b"Created-By: 1.8 (x)", b"Main-Class: a.B", b""],
    "blank lines": [V, b"", b"", b"", b"Name: a", b"X: 1", b"", b"", b""],
    "long": [V, b"Class-Path: " + b"lib/x.jar " * 5, b" " + b"y" * 69,
             b" z", b"K: v ", b""],
    "odd breaks": [V, b"K: a", b" b", b" c", b"L: ", b" x", b"", b"Name: ",
                   b" a", b"M: \xc3", b" \xa9", b""],
    "unsorted": [V, b"", b"Name: z", b"K: 1", b"", b"Name: d/b", b"K: 2",
                 b"", b"Name: a", b"K: 3", b""],
    "stale": [V, b"", b"Name: a", b"MD5-Digest: AAAA",
              b"SHA-256-Digest: AAAA", b"SHA1-Digest: BBBB", b""],
    "own digest": [V, b"", b"Name: a", b"X: y",
                   b"SHA1-Digest: " + jars.digest("SHA1", b"1").encode(),
                   b"Y: z", b""],
    "nothing": [V, b"", b"Name: no such entry", b"K: v", b""],
    "wide": [V, b"K: " + "\u20ac".encode() * 22, b" " +
             "\u20ac".encode() * 23, b"", b"Name: " + b"\xc3\xa9" * 32,
             b" " + b"\xc3\xa9" * 18, b"K: v", b""],
    "sections of directories": [V, b"", b"Name: d/", b"Sealed: true", b""],
    "merged": [V, b"", b"Name: a", b"K: v", b"", b"Name: a", b"L: w", b""],
}
ENTRIES = {
    "none": {}, "one": {"a": b"1"},
    "directories": {"META-INF/": b"", "d/": b"", "d/b": b"2" * 40000,
                    "a": b""},
    "names": {"\u00e9" * 50: b"3", "x" * 100: b"4", "a b:c": b"5",
              "a": b"1"},
    "meta": {"META-INF/x.txt": b"6", "META-INF/d/Y.SF": b"7",
             "META-INF/SIG-Y": b"8", "X.RSA": b"9", "a": b"1"},
    "binary": {"a": bytes(range(256)) * 3, "b.class": b"\xca\xfe\xba\xbe"},
}
COMBOS = [(k, d) for k in ("rsa1", "ec1", "ec3", "dsa1") for d in KEYS[k]] \
    + [(k, "SHA-256") for k in ("rsa1t", "ec1t", "dsa1t")]
OTHERS = {"rsa": ["rsa2", "ec1"], "ec": ["ec2", "rsa1"],
          "dsa": ["dsa2", "rsa1"]}


def refused(ctx, trust, jar, sf, what):
    try:
        jarutil.verify(trust, jar, sf)
    except SignatureBlockFileVerificationError:
        return
    ctx.fail("c24:other", "verified with %s" % what)


def signing(wide):
    def run(ctx):
        k, alg = ctx.choose("key", COMBOS)
        layout = ctx.choose("manifest", sorted(LAYOUTS))
        sep = ctx.choose("linesep", [b"\n", b"\r\n", b"\r"])
        ents = ctx.choose("entries", sorted(ENTRIES))
        alias = ctx.choose("alias", ["X", "lower", "A-1_b"], dev=not wide)
        how = ctx.choose("how", ["sign", "cli", "sign-output",
                                 "cli-output"] +
                         ["default", "cli-default"] * (alg == "SHA-256"),
                         dev=not wide)
        chain = ctx.choose("chain", [[], ["root"], ["rsa2", "ec2"]],
                           dev=True)
        entries = ENTRIES[ents]
        lines = LAYOUTS[layout]
        data = sep.join(lines + [b""] if layout != "no end" else lines)
        src = os.path.join(ctx.tmpdir, "in.jar")
        jars.write(src, entries.items(), data,
                   ctx.choose("at", [0, len(entries)], dev=True))
        with open(src, "rb") as fd:
            before = fd.read()
        out = os.path.join(ctx.tmpdir, "out.jar") if "output" in how \
            else None
        if out:
            trees.clear(out)
        extra = [cert(c) for c in chain]
        if how.startswith("cli"):
            args = ["j", "s"]
            if how != "cli-default":
                args += ["-d", alg]
            for c in extra:
                args += ["-c", c]
            if out:
                args += ["-o", out]
            rc, _o, _e = cli.run(jarutil.main, args + [
                src, cert(k), key(k), alias])
            ctx.eq(rc, 0, "c24:sign-status")
        else:
            jarutil.sign(src, cert(k), key(k), alias, extra or None,
                         None if how == "default" else alg, out)
        jar = out or src
        if out:
            with open(src, "rb") as fd:
                ctx.check(fd.read() == before, "c24:input", "changed")
        jars.check_signed(ctx, jar, alias, alg, k, entries, "c24")
        with open(jar, "rb") as fd:
            signed = fd.read()
        jarutil.verify(cert(k), jar)
        jarutil.verify(cert(k), jar, alias + ".SF")
        rc, o, _e = cli.run(jarutil.main, ["j", "v", jar, cert(k)])
        ctx.eq(rc, 0, "c24:status")
        rc, o, _e = cli.run(jarutil.main, ["j", "v", jar, cert(k),
                                           alias + ".SF"])
        ctx.eq(rc, 0, "c24:status")
        for other in OTHERS[k.rstrip("t").rstrip("123")]:
            refused(ctx, cert(other), jar, None, other)
            rc, o, _e = cli.run(jarutil.main, ["j", "v", jar, cert(other)])
            ctx.check(rc not in (0, None) and o, "c24:other-status",
                      "%r %r" % (rc, o))
        for c in chain:
            refused(ctx, cert(c), jar, None, "a certificate sent along")
        try:
            jarutil.verify(cert(k), jar, "OTHER.SF")
            ctx.fail("c24:sf-name", "verified under another name")
        except VerificationError:
            pass
        with open(jar, "rb") as fd:
            ctx.check(fd.read() == signed, "c24:verify-changes",
                      "verifying changed the jar")
        ctx.step(8)
        ctx.state((k, alg, layout, sep, ents, alias, how, len(chain)))
    return run


# leaf, what is sent along, what is trusted, whether that is enough
CHAINS = [
    ("leaf", ["root", "inter"], "root", True),
    ("leaf", ["inter", "root"], "root", True),
    ("leaf", ["inter"], "root", True),
    ("leaf", [], "root", False),
    ("leaf", ["root"], "root", False),
    ("leaf", ["inter"], "rsa1", False),
    ("leaf", ["rsa1", "inter"], "rsa1", False),
    ("leaf", ["rsa1", "inter"], "root", True),
    ("ecleaf", [], "root", True), ("ecleaf", ["root"], "root", True),
    ("ecleaf", ["root"], "ec1", False),
    ("dsaleaf", [], "root", True), ("dsaleaf", [], "dsa1", False),
    ("eku", [], "root", True), ("eku", ["root"], "root", True),
    ("noku", [], "root", True), ("wrongku", [], "root", False),
    ("wrongku", ["root"], "root", False), ("eku", [], "rsa2", False),
    ("rsa1", ["root"], "root", False), ("rsa1", [], "root", False),
    ("rsa1", ["leaf", "inter"], "root", False),
    ("rsa1", ["leaf", "inter"], "rsa1", True),
]


def chains(ctx):
    leaf, extra, trust, ok = ctx.choose("chain", CHAINS)
    alg = ctx.choose("digest", ["SHA1", "SHA-256"])
    how = ctx.choose("how", ["sign", "cli"])
    entries = ENTRIES[ctx.choose("entries", ["one", "names"])]
    src = jars.write(os.path.join(ctx.tmpdir, "in.jar"), entries.items(),
                     V + b"\r\n\r\n")
    c, k = [os.path.join(FIX, leaf + x) for x in (".pem", ".key")]
    extra = [os.path.join(FIX, x + ".pem") for x in extra]
    trust = os.path.join(FIX, trust + ".pem")
    if how == "cli":
        args = ["j", "sign", src, c, k, "X", "--digest", alg]
        for x in extra:
            args += ["--chain", x]
        ctx.eq(cli.run(jarutil.main, args)[0], 0, "c24:sign-status")
    else:
        jarutil.sign(src, c, k, "X", extra, alg)
    rc, _o, _e = cli.run(jarutil.main, ["j", "v", src, trust])
    ctx.eq(rc == 0, ok, "c24:chain-status")
    try:
        jarutil.verify(trust, src)
        got = True
    except SignatureBlockFileVerificationError:
        got = False
    ctx.eq(got, ok, "c24:chain")
    ctx.outcome(ok)


def long_chains(ctx):
    """any number of certificates sent along, in any order"""
    n = ctx.choose("issuers", range(1, 7))
    names = ["L"] + ["I%d" % i for i in range(1, n)] + ["R"]
    ring = ["rsa1", "ec1", "dsa1", "ec3"]
    first = ctx.choose("first", range(4))
    keys = [ring[(i + first) % 4] for i in range(n + 1)]
    fns = []
    for i, name in enumerate(names):
        up = min(i + 1, n)
        fns.append(os.path.join(ctx.tmpdir, name + ".pem"))
        with open(fns[-1], "wb") as fd:
            fd.write(certs.make(name, names[up], keys[i], keys[up],
                                ca=None if i == 0 else True, serial=1 + i))
    extra = fns[1:] if ctx.flag("with the root") else fns[1:-1]
    order = ctx.choose("order", ["up", "down", "first last"])
    if order == "down":
        extra.reverse()
    elif order == "first last":
        extra = extra[1:] + extra[:1]
    kind = ctx.choose("sequence", [list, tuple])
    src = jars.write(os.path.join(ctx.tmpdir, "in.jar"), {"a": b"1"}.items(),
                     V + b"\r\n\r\n")
    if ctx.flag("cli"):
        args = ["j", "sign", src, fns[0], key(keys[0]), "X"]
        for x in extra:
            args += ["-c", x]
        ctx.eq(cli.run(jarutil.main, args)[0], 0, "c24:long-sign")
    else:
        jarutil.sign(src, fns[0], key(keys[0]), "X", kind(extra))
    ctx.eq(cli.run(jarutil.main, ["j", "v", src, fns[-1]])[0], 0,
           "c24:long-chain")
    ctx.state((n, tuple(keys), order, len(extra)))
    ctx.outcome(n)


# -- the signature block alone

def blocks(ctx):
    """data of every kind; other data, and other signers, do not verify"""
    k, alg = ctx.choose("key", COMBOS)
    data = ctx.choose("data", [b"", b"\n", b"a", b"a\n", b"a\r\n", b"\r",
                               b"a\nb\r\nc\rd", bytes(range(256)),
                               b"Content-Type: text/plain\r\n\r\nx",
                               b"x" * 70000])
    md = jars.HASH[alg]
    b = create_signature_block(md, cert(k), key(k), None, data)
    verify_signature_block(cert(k), data, b)
    for other in (data + b"\n", data[:-1] if data else b"x",
                  data.replace(b"\r\n", b"\n") + b" ",
                  data.replace(b"\n", b"\r\n") + b"\r\n"):
        try:
            verify_signature_block(cert(k), other, b)
            ctx.fail("c24:block", "verifies other data: %r" % other[:40])
        except SignatureBlockVerificationError:
            pass
        ctx.step(1)
    for lines in (data.replace(b"\r\n", b"\n"), data.replace(b"\n", b"\r\n")):
        if lines == data:
            continue
        try:
            verify_signature_block(cert(k), lines, b)
            ctx.fail("c24:block", "verifies other line ends")
        except SignatureBlockVerificationError:
            pass
    for c in sorted(set(os.path.join(FIX, f) for f in os.listdir(FIX)
                        if f.endswith(".pem")) - {cert(k)}):
        try:
            verify_signature_block(c, data, b)
            ctx.fail("c24:block", "verified with %s" % os.path.basename(c))
        except SignatureBlockVerificationError:
            pass
    ctx.state((k, alg, len(data)))


def types(ctx):
    f = ctx.choose("file", sorted(os.listdir(FIX)) + [
        "empty", "garbage", "half"])
    path = os.path.join(FIX, f)
    want = None
    if f.endswith(".key"):
        n = f[:-4].rstrip("t") if f[-5] == "t" and f[:-4] in KEYS else f[:-4]
        want = "EC" if n.startswith("ec") else \
            "DSA" if n.startswith("dsa") else "RSA"
    elif not f.endswith(".pem"):
        path = os.path.join(ctx.tmpdir, f)
        with open(os.path.join(FIX, "rsa1.key"), "rb") as fd:
            half = fd.read()[:300]
        with open(path, "wb") as fd:
            fd.write({"empty": b"", "garbage": b"x\n", "half": half}[f])
    try:
        got = private_key_type(path)
    except CannotFindKeyTypeError:
        got = None
    ctx.eq(got, want, "c24:key-type")
    ctx.outcome(got)


# -- other tools agree

def openssl(ctx):
    k, alg = ctx.choose("key", COMBOS)
    if not shutil.which("openssl") or alg == "MD5":
        ctx.choose("n/a", [])
    layout = ctx.choose("manifest", ["minimal", "wide"])
    src = jars.write(os.path.join(ctx.tmpdir, "in.jar"),
                     ENTRIES["names"].items(),
                     b"\r\n".join(LAYOUTS[layout] + [b""]))
    jarutil.sign(src, cert(k), key(k), "X", None, alg)
    got = dict(trees.read_zip(src))
    for n in ("META-INF/X.SF", "META-INF/X." + jars.ext(k)):
        with open(os.path.join(ctx.tmpdir, n[-3:].strip(".")), "wb") as fd:
            fd.write(got[n])
    p = subprocess.run(
        ["openssl", "smime", "-verify", "-binary", "-inform", "DER", "-in",
         os.path.join(ctx.tmpdir, jars.ext(k)[-3:]), "-content",
         os.path.join(ctx.tmpdir, "SF"), "-CAfile", cert(k), "-purpose",
         "any", "-out", os.devnull], stdin=subprocess.DEVNULL,
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    ctx.eq(p.returncode, 0, "c24:openssl", p.stdout.decode(
        errors="replace")[-200:])


def jarsigner(ctx):
    k, alg = ctx.choose("key", [("rsa1", "SHA-256"), ("ec1", "SHA-256"),
                                ("rsa1", "SHA-512"), ("dsa1", "SHA-256")])
    if not shutil.which("jarsigner"):
        ctx.choose("n/a", [])
    layout = ctx.choose("manifest", ["minimal", "wide", "unsorted", "long",
                                     "own digest", "stale", "attributes"])
    sep = ctx.choose("linesep", [b"\n", b"\r\n"])
    ents = ctx.choose("entries", ["names", "meta", "directories"])
    src = jars.write(os.path.join(ctx.tmpdir, "in.jar"),
                     ENTRIES[ents].items(), sep.join(LAYOUTS[layout] + [b""]))
    jarutil.sign(src, cert(k), key(k), "X", None, alg)
    p = subprocess.run(["jarsigner", "-J-XX:TieredStopAtLevel=1",
                        "-J-Xshare:auto", "-verify", src],
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    text = p.stdout.decode(errors="replace")
    ctx.check(p.returncode == 0 and "jar verified" in text,
              "c24:jarsigner", text[:300])


def harnesses(tier):
    deep = tier == "thorough"
    hs = [Harness("sign", signing(deep), bound=1, timeout=60),
          Harness("chains", chains),
          Harness("long-chains", long_chains), Harness("blocks", blocks),
          Harness("key-types", types), Harness("openssl", openssl)]
    if deep:
        hs.append(Harness("jarsigner", jarsigner, quota=10, timeout=60))
    return hs
