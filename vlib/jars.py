"""signed jars, read with nothing but zipfile and hashlib"""

import base64
import hashlib
import os
import zipfile

from vlib import trees

FIX = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "fixtures")
HASH = {"MD5": "md5", "SHA1": "sha1", "SHA-256": "sha256",
        "SHA-384": "sha384", "SHA-512": "sha512"}
# what OpenSSL can sign with
RSA = ["MD5", "SHA1", "SHA-256", "SHA-384", "SHA-512"]
EC = ["SHA1", "SHA-256", "SHA-384", "SHA-512"]
DSA = ["SHA1", "SHA-256"]
KEYS = {"rsa1": RSA, "rsa2": RSA, "ec1": EC, "ec2": EC, "ec3": EC,
        "dsa1": DSA, "dsa2": DSA, "rsa1t": RSA, "ec1t": EC, "dsa1t": DSA}
EXT = {"rsa": "RSA", "ec": "EC", "dsa": "DSA"}
MF = "META-INF/MANIFEST.MF"


def key(k):
    return os.path.join(FIX, k + ".key")


def cert(k):
    return os.path.join(FIX, k.rstrip("t") + ".pem") \
        if k in KEYS else os.path.join(FIX, k + ".pem")


def ext(k):
    return EXT[k.rstrip("t").rstrip("0123456789")]


def digest(alg, data):
    return base64.b64encode(hashlib.new(HASH[alg], data).digest()).decode()


def skips(name):
    """the entries that need no digest (JAR specification)"""
    up = name.upper()
    if up == MF or name.endswith("/"):
        return True
    parts = up.split("/")
    return len(parts) == 2 and parts[0] == "META-INF" and (
        parts[1].startswith("SIG-") or
        parts[1].rsplit(".", 1)[-1] in ("SF", "RSA", "DSA", "EC") and
        "." in parts[1])


def write(path, entries, manifest=None, at=0):
    """a jar of the (name, content) pairs, its manifest at a position"""
    items = list(entries)
    if manifest is not None:
        items.insert(at, (MF, manifest))
    trees.clear(path)
    with zipfile.ZipFile(path, "w") as zf:
        for n, c in items:
            i = zipfile.ZipInfo(n, (2020, 1, 1, 0, 0, 0))
            i.compress_type = zipfile.ZIP_DEFLATED
            zf.writestr(i, c)
    return path


def raw_sections(data):
    """the bytes of each section, with the blank line that ends it"""
    out, curr, has = [], b"", False
    for line in data.splitlines(True):
        curr += line
        if line.strip(b"\r\n"):
            has = True
        elif has:
            out.append(curr)
            curr, has = b"", False
    if has:
        out.append(curr)
    return out


def fields(section):
    """[(key, value)] of the bytes of a section"""
    out = []
    for line in section.splitlines():
        if line[:1] == b" ":
            out[-1][1] += line[1:]
        elif line:
            k, v = line.split(b": ", 1)
            out.append([k, v])
    return [(k.decode("utf-8"), v.decode("utf-8")) for k, v in out]


def check_signed(ctx, jar, alias, alg, k, entries, tag):
    """everything that signing has to have put in the jar; entries: the
    dict of what it had before. Returns (manifest, signature file)"""
    got = trees.read_zip(jar)
    names = [n for n, _c in got]
    sf = "META-INF/%s.SF" % alias
    block = "META-INF/%s.%s" % (alias, ext(k))
    ctx.eq(names[:3], [MF, sf, block], tag + ":front")
    ctx.eq(sorted(names), sorted(set(names)), tag + ":once")
    content = dict(got)
    mf = content[MF]
    secs = [(fields(s), s) for s in raw_sections(mf)]
    named = {}
    for f, s in secs[1:]:
        ctx.eq(f[0][0], "Name", tag + ":name")
        ctx.check(f[0][1] not in named, tag + ":twice", repr(f))
        named[f[0][1]] = (dict(f), s)
    for n, c in entries.items():
        if skips(n):
            continue
        f = named[n][0] if n in named else {}
        ctx.eq(f.get(alg + "-Digest"), digest(alg, c), tag + ":digest",
               repr(n))
        for a, v in f.items():
            a = a[:-len("-Digest")] if a.endswith("-Digest") else None
            if a in HASH:
                ctx.eq(v, digest(a, c), tag + ":stale", "%s of %r" % (a, n))
    sfs = [(fields(s), s) for s in raw_sections(content[sf])]
    main = dict(sfs[0][0])
    ctx.eq(main.get("Signature-Version"), "1.0", tag + ":version")
    ctx.eq(main.get(alg + "-Digest-Manifest"), digest(alg, mf),
           tag + ":whole")
    ctx.eq(main.get(alg + "-Digest-Manifest-Main-Attributes"),
           digest(alg, secs[0][1]), tag + ":main")
    signed = {}
    for f, _s in sfs[1:]:
        d = dict(f)
        ctx.check(d["Name"] not in signed, tag + ":sf-twice", repr(d))
        signed[d["Name"]] = d.get(alg + "-Digest")
    ctx.eq(signed, {n: digest(alg, s) for n, (_f, s) in named.items()},
           tag + ":sections")
    return content
