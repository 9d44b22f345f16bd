"""C25: tampering with a signed jar is detected"""

import base64
import os
import re

from vlib import cli, jars, trees
from vlib.explore import Harness
from vlib.jars import MF, cert, key
from vlib.names import DIRS, FILES
from checks import c22

from javatools import jarutil
from javatools.crypto import create_signature_block
from javatools.manifest import Manifest, SignatureManifest
from javatools.jarutil import JarChecksumError, JarSignatureMissingError, \
    ManifestChecksumError, SignatureBlockFileVerificationError, \
    VerificationError

ASSUMPTIONS = [
    "the tampered file is still a readable archive, its entries have valid "
    "checksums",
    "the manifest is compared by what it says: verification is free to "
    "accept another order of sections or other line ends and breaks, and "
    "bytes that are not UTF-8",
    "in the signature block, the certificate and the signature are "
    "protected; its envelope (algorithm identifiers and the like) is not "
    "part of what is signed",
    "removed entries are tolerated, as documented",
]

V = b"Manifest-Version: 1.0"
LAYOUTS = {
    "small": [V, b""],
    "full": [V, b"Main-Class: a.B", b"K: " + b"v" * 67, b" " + b"w" * 20,
             b"", b"Name: a", b"Sealed: true", b"", b"Name: gone", b"X: y",
             b""],
}
ENTRIES = {"a": b"content", "d/b": b"", "\u00e9" * 40: b"other",
           "META-INF/x.txt": b"1", "META-INF/SIG-Z": b"free", "d/": b""}
BASES = [("rsa1", "SHA-256", "full", b"\r\n"),
         ("ec1", "SHA-512", "small", b"\n"),
         ("dsa1", "SHA1", "full", b"\n")]
MORE = [(k, d, lay, sep) for k in ("rsa1", "ec1", "ec3", "dsa1")
        for d in jars.KEYS[k] for lay in sorted(LAYOUTS)
        for sep in (b"\n", b"\r\n")]


def base(ctx, bases):
    """(key, digest, jar content as a list of pairs)"""
    k, alg, lay, sep = ctx.choose("base", bases)
    src = jars.write(os.path.join(ctx.tmpdir, "in.jar"), ENTRIES.items(),
                     sep.join(LAYOUTS[lay] + [b""]))
    jarutil.sign(src, cert(k), key(k), "X", None, alg)
    jarutil.verify(cert(k), src)
    return k, alg, trees.read_zip(src)


def verdict(ctx, k, items, sf=None, status=True):
    """the class of the error of verifying the jar of the items, or None"""
    jar = os.path.join(ctx.tmpdir, "t.jar")
    jars.write(jar, items)
    ctx.step(1)
    try:
        jarutil.verify(cert(k), jar, sf)
        got = None
    except VerificationError as e:
        ctx.check(str(e).strip(), "c25:message", "an error without message")
        got = type(e)
    if status:
        rc, out, _e = cli.run(jarutil.main, ["j", "v", jar, cert(k)] +
                              ([sf] if sf else []))
        ctx.eq(rc == 0, got is None, "c25:status")
        ctx.check(out.strip(), "c25:message", "the command says nothing")
    return got


def must(ctx, got, want, what):
    if got is None:
        ctx.fail("c25:accepted", "verified although: " + what)
    elif want and not issubclass(got, want):
        ctx.fail("c25:step", "%s, expected %r: %s" % (
            got.__name__, want, what))


def put(items, name, data):
    return [(n, data if n == name else c) for n, c in items]


# -- entries

NEW = ["new", "META-INF/new", "META-INF/new.SFX", "META-INF/d/new.SF",
       "new.RSA", "META-INF/xSIG-x", "D/b", "A", "META-INF/X.TXT", "a/",
       "META-INF/SIG-x/y", "META-INF.SF", "META-INF/MANIFEST.MFX"]


def names(ctx):
    """whatever its name is, an entry is covered unless the JAR
    specification says that it is none of those which are"""
    name = ctx.choose("dir", DIRS) + ctx.choose("file", FILES)
    k = "rsa1"
    jar = os.path.join(ctx.tmpdir, "n.jar")

    def signed(entries):
        jars.write(jar, entries, V + b"\r\n\r\n")
        jarutil.sign(jar, cert(k), key(k), "Q", None, "SHA-256")
        return trees.read_zip(jar)

    if jars.skips(name):
        ctx.choose("n/a", [])
    sf = "Q.SF"
    items = signed([("a", b"1"), (name, b"2")])
    ctx.eq(verdict(ctx, k, items, sf), None, "c25:name")
    for data in (b"3", b"", b"22"):
        must(ctx, verdict(ctx, k, put(items, name, data), sf),
             JarChecksumError, "%r was changed" % name)
    items = signed([("a", b"1")])
    must(ctx, verdict(ctx, k, items + [(name, b"2")], sf),
         JarChecksumError, "%r was added" % name)
    ctx.state(name)
    ctx.outcome(name.count("/"))


def entries(bases):
    def run(ctx):
        k, alg, items = base(ctx, bases)
        now = dict(items)
        target = ctx.choose("entry", [n for n in ENTRIES
                                      if not jars.skips(n)])
        c = now[target]
        variants = [("a byte appended", c + b"\0"), ("text", b"x"),
                    ("doubled", c + c or b"y")]
        for i in range(len(c)):
            variants += [("byte %d" % i, c[:i] + bytes([c[i] ^ x]) +
                          c[i + 1:]) for x in (1, 32, 128)]
            variants += [("without byte %d" % i, c[:i] + c[i + 1:])]
        for other, o in ENTRIES.items():
            if o != c:
                variants.append(("the content of %r" % other, o))
        for what, data in variants:
            got = verdict(ctx, k, put(items, target, data))
            must(ctx, got, JarChecksumError, "%r is %s" % (target, what))
        for n in (target + "x", "META-INF/" + target, target.upper()):
            if n in now or jars.skips(n):
                continue
            got = verdict(ctx, k, [(n if m == target else m, d)
                                   for m, d in items])
            must(ctx, got, JarChecksumError, "%r renamed to %r" % (
                target, n))
        # a second entry of that name
        for at in (0, 3, len(items)):
            for data in (c, b"evil"):
                got = verdict(ctx, k, items[:at] + [(target, data)] +
                              items[at:])
                must(ctx, got, None, "%r added again at %d" % (target, at))
        ctx.state((k, target))
        ctx.outcome(len(variants))
    return run


def added(bases):
    def run(ctx):
        k, alg, items = base(ctx, bases)
        name = ctx.choose("name", [n for n in NEW if not n.endswith("/")])
        at = ctx.choose("at", [0, len(items)])
        for data in (b"", b"x", dict(items)["a"]):
            must(ctx, verdict(ctx, k, items[:at] + [(name, data)] +
                              items[at:]), JarChecksumError,
                 "%r added" % name)
        # or twice, or instead of another one
        must(ctx, verdict(ctx, k, items + [(name, b""), (name + "2", b"")]),
             JarChecksumError, "two entries added")
        must(ctx, verdict(ctx, k, [x for x in items if x[0] != "a"] +
                          [(name, b"")]), JarChecksumError,
             "%r instead of a" % name)
    return run


# -- the files of the signature

def removed(old, new):
    """does a manifest only lack sections of another one?"""
    try:
        old, new = says(old), says(new) if new.strip(b"\0\r\n") else None
    except c22.Outside:
        return False
    new = new or ([], [])
    if not new[0] and not new[1]:
        # an empty one is read as the default one
        new = [("Manifest-Version", "1.0")], []
    return new[0] == old[0] and all(s in old[1] for s in new[1])


def step(which, want, items, data):
    """with sections removed from the manifest, the others are still fine;
    it is the entries that are not covered any more"""
    if which == MF and removed(dict(items)[MF], data):
        return ManifestChecksumError, JarChecksumError
    return want


def files(bases):
    """missing, empty, renamed, doubled and foreign files"""
    def run(ctx):
        k, alg, items = base(ctx, bases)
        sf = "META-INF/X.SF"
        block = "META-INF/X." + jars.ext(k)
        which = ctx.choose("file", [MF, sf, block])
        want = {MF: ManifestChecksumError, sf:
                SignatureBlockFileVerificationError,
                block: SignatureBlockFileVerificationError}[which]
        missing = {MF: ManifestChecksumError, sf: JarSignatureMissingError,
                   block: JarSignatureMissingError}[which]
        rest = [x for x in items if x[0] != which]
        data = dict(items)[which]
        must(ctx, verdict(ctx, k, rest), missing, "without " + which)
        for n in (which + "X", which[9:], which.replace("META", "META2")):
            must(ctx, verdict(ctx, k, [(n, data)] + rest), missing,
                 "renamed to " + n)
        for junk in (b"", b"\n", b"\0", b"x", b"garbage\n", b"\x30\x80",
                     b"a: b\n", b" x\n", b":\n", b"k" * 100 + b": v\n",
                     V + b"\n\n", data[::-1], data * 2, b"\xff" * 50,
                     b"Name: a\n\n", b"\x30\x82\xff\xff" + data):
            if which == block and junk == data * 2:
                continue        # what follows the block is not looked at
            must(ctx, verdict(ctx, k, put(items, which, junk)),
                 step(which, want, items, junk),
                 "%s is %r" % (which, junk[:30]))
        for other in (MF, sf, block):
            if other != which:
                other = dict(items)[other]
                must(ctx, verdict(ctx, k, put(items, which, other)),
                     step(which, want, items, other),
                     "%s is %r" % (which, other[:30]))
        for at in (0, len(items)):
            for d in (data, b"x: y\n"):
                must(ctx, verdict(ctx, k, items[:at] + [(which, d)] +
                                  items[at:]), None,
                     "a second %s at %d" % (which, at))
        if which == sf:
            # other names are to be told
            must(ctx, verdict(ctx, k, items + [("META-INF/Y.SF", data)]),
                 None, "a second signature file")
            must(ctx, verdict(ctx, k, items + [("META-INF/Y.SF", data)],
                              "Y.SF"), JarSignatureMissingError,
                 "a second signature file without block")
            must(ctx, verdict(ctx, k, items, "Y.SF"), None,
                 "a signature file that is not there")
        # those of another jar by the same signer
        src = jars.write(os.path.join(ctx.tmpdir, "o.jar"),
                         [("a", b"elsewhere")], V + b"\n\n")
        jarutil.sign(src, cert(k), key(k), "X", None, alg)
        foreign = dict(trees.read_zip(src))
        must(ctx, verdict(ctx, k, put(items, which, foreign[which])),
             step(which, want, items, foreign[which]),
             "%s of another jar" % which)
        mixed = items
        for n in (MF, sf, block):
            if n != which:
                mixed = put(mixed, n, foreign[n])
        must(ctx, verdict(ctx, k, mixed), want,
             "all but %s of another jar" % which)
        must(ctx, verdict(ctx, k, put(mixed, which, foreign[which])),
             JarChecksumError, "the signature of another jar")
        ctx.state((k, which))
    return run


# -- bytes

CHUNKS = 8


def mutations(data, i):
    c = data[i:i + 1]
    for x in (1, 32, 128):
        yield "xor %d" % x, data[:i] + bytes([c[0] ^ x]) + data[i + 1:]
    yield "without", data[:i] + data[i + 1:]
    for ins in (b" ", b"x", b"\n", b":", c):
        yield "insert %r" % ins, data[:i] + ins + data[i:]
    yield "cut", data[:i]


def says(data):
    """what a manifest says, in order; None: malformed"""
    lines = data.replace(b"\r\n", b"\n").replace(b"\r", b"\n").split(b"\n")
    if b"\0" in data:
        raise c22.Outside()
    try:
        main, subs = c22.ref_parse(lines)
    except c22.Malformed:
        return None
    return list(main.items()), sorted((n, list(s.items()))
                                      for n, s in subs.items())


def sf_bytes(bases):
    def run(ctx):
        k, alg, items = base(ctx, bases)
        data = dict(items)["META-INF/X.SF"]
        chunk = ctx.choose("chunk", list(range(CHUNKS)))
        for i in range(chunk, len(data), CHUNKS):
            for what, new in mutations(data, i):
                if new == data:
                    continue
                must(ctx, verdict(ctx, k, put(items, "META-INF/X.SF", new),
                                  status=i % 16 == 0),
                     SignatureBlockFileVerificationError,
                     "signature file: %s at %d of %r" % (
                         what, i, data[max(0, i - 10):i + 10]))
        ctx.state((k, chunk))
    return run


def mf_bytes(bases):
    def run(ctx):
        k, alg, items = base(ctx, bases)
        data = dict(items)[MF]
        now = says(data)
        assert now
        chunk = ctx.choose("chunk", list(range(CHUNKS)))
        tolerated = 0
        for i in range(chunk, len(data), CHUNKS):
            for what, new in mutations(data, i):
                if new == data:
                    continue
                try:
                    then = says(new)
                    same = then == now
                except c22.Outside:
                    same = True     # not decided
                got = verdict(ctx, k, put(items, MF, new),
                              status=i % 16 == 0)
                if not same:
                    must(ctx, got, step(MF, ManifestChecksumError, items,
                                        new),
                         "manifest: %s at %d of %r" % (
                             what, i, data[max(0, i - 10):i + 10]))
                else:
                    tolerated += got is None
        ctx.state((k, chunk))
        ctx.outcome(tolerated > 0)
    return run


def tlv(data, at):
    """(tag, start of value, end) of the DER element at an offset"""
    n = data[at + 1]
    if n < 128:
        return data[at], at + 2, at + 2 + n
    k = n & 127
    size = int.from_bytes(data[at + 2:at + 2 + k], "big")
    return data[at], at + 2 + k, at + 2 + k + size


def parts(block):
    """the ranges of the signer's certificate and of the signature"""
    def children(at):
        _t, s, e = tlv(block, at)
        out = []
        while s < e:
            out.append(s)
            s = tlv(block, s)[2]
        return out
    signed = children(children(0)[1])[0]
    elems = children(signed)
    certs = [a for a in elems if block[a] == 0xa0][0]
    first = children(certs)[0]
    info = children(elems[-1])[0]
    sig = [a for a in children(info) if block[a] == 4][-1]
    return (first, tlv(block, first)[2]), (sig, tlv(block, sig)[2])


def block_bytes(bases):
    def run(ctx):
        k, alg, items = base(ctx, bases)
        name = "META-INF/X." + jars.ext(k)
        data = dict(items)[name]
        (c0, c1), (s0, s1) = parts(data)
        with open(cert(k), "rb") as fd:
            der = base64.b64decode(re.search(
                rb"-----BEGIN CERTIFICATE-----(.*)-----END", fd.read(),
                re.S).group(1))
        ctx.eq(data[c0:c1], der, "c25:oracle")
        chunk = ctx.choose("chunk", list(range(CHUNKS * 2)))
        passed = 0
        for i in range(chunk, len(data), CHUNKS * 2):
            for what, new in mutations(data, i):
                if new == data:
                    continue
                got = verdict(ctx, k, put(items, name, new), status=False)
                if got is None:
                    # only the envelope may have changed
                    if what.startswith("xor") and (
                            c0 <= i < c1 or s0 <= i < s1):
                        must(ctx, got, None, "signature block: %s at %d "
                             "(certificate at %d-%d, signature at %d-%d)" %
                             (what, i, c0, c1, s0, s1))
                    passed += 1
                elif got is not SignatureBlockFileVerificationError:
                    must(ctx, got, SignatureBlockFileVerificationError,
                         "signature block: %s at %d" % (what, i))
        ctx.state((k, chunk))
        ctx.outcome(passed > 0)
    return run


# -- an attacker who knows the format

def rebuild(items, alg, entry, data, steps, sep):
    """the jar with an entry replaced and some of the digests that follow
    from it brought up to date"""
    now = dict(items)
    now[entry] = data
    mf, sf = now[MF], now["META-INF/X.SF"]
    if "manifest" in steps:
        secs = jars.raw_sections(mf)
        new = []
        for s in secs:
            f = dict(jars.fields(s))
            if f.get("Name") == entry:
                old = f[alg + "-Digest"]
                flat = s.replace(sep + b" ", b"")
                assert old.encode() in flat
                flat = flat.replace(old.encode(),
                                    jars.digest(alg, data).encode())
                s = fold(flat, sep)
            new.append(s)
        mf = b"".join(new)
    secs = jars.raw_sections(mf)
    byname = {dict(jars.fields(s)).get("Name"): s for s in secs[1:]}
    out = []
    for i, s in enumerate(jars.raw_sections(sf)):
        f = jars.fields(s)
        lines = []
        for kk, v in f:
            if i == 0 and kk == alg + "-Digest-Manifest" and \
                    "whole" in steps:
                v = jars.digest(alg, mf)
            if i and kk == alg + "-Digest" and "sections" in steps:
                v = jars.digest(alg, byname[f[0][1]])
            lines.append(("%s: %s" % (kk, v)).encode("utf-8"))
        out.append(fold(sep.join(lines + [b"", b""]), sep))
    sf = b"".join(out)
    return mf, sf


def fold(text, sep):
    out = []
    for line in text.split(sep):
        rows = [line[:70]]
        line = line[70:]
        while line:
            rows.append(b" " + line[:69])
            line = line[69:]
        out.append(sep.join(rows))
    return sep.join(out)


def attacker(bases):
    def run(ctx):
        k, alg, items = base(ctx, bases)
        entry = ctx.choose("entry", [n for n in ENTRIES
                                     if not jars.skips(n)])
        steps = [s for s in ("manifest", "whole", "sections")
                 if ctx.flag(s)]
        other = "rsa2" if k != "rsa1" else "ec1"
        if jars.ext(k) == "EC":
            other = "ec2"
        resign = ctx.choose("block", ["kept", "own key", "own key, chain",
                                      "both"])
        sep = b"\r\n" if b"\r\n" in dict(items)[MF] else b"\n"
        mf, sf = rebuild(items, alg, entry, b"evil", steps, sep)
        new = put(put(put(items, entry, b"evil"), MF, mf),
                  "META-INF/X.SF", sf)
        block = "META-INF/X." + jars.ext(k)
        md = jars.HASH[alg if alg in jars.KEYS[other] else "SHA-256"]
        if resign != "kept":
            der = create_signature_block(
                md, cert(other), key(other),
                [cert(k)] if "chain" in resign else None, sf)
            if resign == "both":
                # the old block for those who look for that type first
                ext = [e for e in ("RSA", "DSA", "EC")
                       if e != jars.ext(k)][0]
                new = new + [("META-INF/X." + ext, der)]
            else:
                new = put(new, block, der)
        got = verdict(ctx, k, new)
        changed = sf != dict(items)["META-INF/X.SF"]
        if resign in ("own key", "own key, chain") or changed:
            want = SignatureBlockFileVerificationError
        elif "manifest" in steps:
            want = ManifestChecksumError
        else:
            want = JarChecksumError
        must(ctx, got, want if resign != "both" else None,
             "%r replaced, updated: %r, block: %s" % (entry, steps, resign))
        ctx.outcome(want.__name__)
        ctx.state((k, entry, tuple(steps), resign))
    return run


# -- the objects behind it

ORIGINS = ["created", "\n", "\r\n", "\r", "parsed \n", "parsed \r\n",
           "parsed \r"]
CONTENT = [("", [("Main-Class", "a.B"), ("K", "v" * 80)]),
           ("b", [("SHA-256-Digest", "x")]), ("a", [("X", "1"), ("Y", "2")]),
           ("c" * 90, [("Z", "\u00e9" * 40)])]


def objects(limit):
    """what a signature file says about a manifest that is not the one it
    was made of, or is"""
    changes = []
    for i, (n, kvs) in enumerate(CONTENT):
        for k, v in kvs:
            changes += [("set", i, k), ("del", i, k)]
        changes.append(("new", i, "New"))
        changes.append(("remove", i, None) if i else ("version", 0, None))
    changes += [("add", 9, "zz"), ("add", 9, "A"), ("same", 9, None)]

    def run(ctx):
        origin = ctx.choose("origin", ORIGINS)
        sep = origin[-2:].lstrip("d ") if origin != "created" else None
        m = Manifest(linesep=sep)
        for n, kvs in CONTENT:
            s = m.create_section(n) if n else m
            for k, v in kvs:
                s[k] = v
        if origin.startswith("parsed"):
            text = m.get_data()
            m = Manifest()
            m.parse(text)
            if sep != "\r":
                ctx.eq(m.get_data(), text, "c25:oracle")
        algs = ctx.choose("algorithms", [["SHA-256"], ["MD5"], ["SHA-512"],
                                         ["SHA1", "SHA-384"]])
        sf = SignatureManifest(linesep=sep)
        for a in algs:
            sf.digest_manifest(m, a)
        if ctx.flag("stored"):
            text = sf.get_data()
            sf = SignatureManifest()
            sf.parse(text)
        now = [[n, dict(kvs)] for n, kvs in CONTENT]
        main, bad, touched = False, set(), False
        often = origin in ("created", "parsed \r\n") and len(algs) < 2
        for j in range(limit if often else 2):
            c = ctx.choose("change", [None] + changes)
            if c is None:
                break
            op, i, k = c
            if op == "same":
                # nothing that is stored
                if "a" not in m.sub_sections:
                    ctx.choose("n/a", [])
                m.create_section("a", overwrite=False)
                continue
            if op == "version":
                m["Manifest-Version"] = "2.0"
                main = True
                continue
            if op == "add":
                m.create_section(k)
                bad.add(k)
                continue
            n = CONTENT[i][0]
            if n and n not in m.sub_sections:
                ctx.choose("n/a", [])
            s = m.sub_sections[n] if n else m
            if op == "remove":
                del m.sub_sections[n]
                bad.discard(n)
                touched = True
                continue
            if op == "del":
                if k not in s:
                    ctx.choose("n/a", [])
                del s[k]
            else:
                s[k] = "other"
            if n:
                bad.add(n)
            else:
                main = True
        want = ["META-INF/MANIFEST.MF"] if main else sorted(bad)
        before = m.get_data(), sf.get_data()
        for again in (0, 1):
            ctx.eq(sorted(sf.verify_manifest(m)), want, "c25:objects")
            ctx.eq(bool(sf.verify_manifest_main_attributes_checksum(m)),
                   not main, "c25:objects:main")
            ctx.eq(bool(sf.verify_manifest_main_checksum(m)),
                   not (main or bad or touched), "c25:objects:whole")
            ctx.eq(sorted(sf.verify_manifest_entry_checksums(m)),
                   sorted(bad), "c25:objects:sections")
            ctx.step(4)
        ctx.eq((m.get_data(), sf.get_data()), before, "c25:objects:changed")
        ctx.state((before, tuple(want)))
        ctx.outcome((main, len(bad), touched))
    return run


def harnesses(tier):
    deep = tier == "thorough"
    b = MORE if deep else BASES
    three = BASES + (MORE[5:20:7] if deep else [])
    return [Harness("objects", objects(3 if deep else 2), quota=300,
                    describe="signature file and manifest objects, created "
                    "and parsed, with up to 2 (3) changes in between"),
            Harness("entries", entries(b), timeout=120),
            Harness("names", names, bound=0),
            Harness("added", added(b)), Harness("files", files(b)),
            Harness("attacker", attacker(b)),
            Harness("signature-file", sf_bytes(b[::3] if deep else three),
                    quota=4, timeout=300),
            Harness("manifest", mf_bytes(b[::3] if deep else three),
                    quota=4, timeout=300),
            Harness("block", block_bytes(three), quota=4, timeout=300)]
