"""C34: whose signatures verification trusts"""

import os

from vlib import cli, jars
from vlib.certs import EKU, ISSUES, KEYS, KU, SIGNS, VALID, make
from vlib.explore import Harness

from javatools import jarutil
from javatools.crypto import SignatureBlockVerificationError, \
    create_signature_block, verify_signature_block

ASSUMPTIONS = [
    "a certificate is trusted if a chain of valid certificates leads from it "
    "to a self-signed one in the given file; the signer's own may be for any "
    "extended usage, which is what the library is to waive, but its key "
    "usage, if any is named, must allow signing",
    "issuing certificates that are limited to an extended usage are "
    "enumerated for those that have nothing to do with signing only: whether "
    "one limited to code signing may issue is left to OpenSSL",
    "path lengths, name constraints, revocation and the like are OpenSSL's",
]

def write(ctx, name, *pems):
    fn = os.path.join(ctx.tmpdir, name)
    with open(fn, "wb") as fd:
        fd.write(b"".join(pems))
    return fn


def verdict(ctx, trusted, leaf, k, extra, whole):
    """is what the leaf's key signed accepted?"""
    data = b"Signature-Version: 1.0\r\n\r\n"
    chain = [write(ctx, "extra%d.pem" % i, p) for i, p in enumerate(extra)]
    lf = write(ctx, "leaf.pem", leaf)
    tf = write(ctx, "trusted.pem", *trusted)
    block = create_signature_block("sha256", lf, jars.key(k), chain or None,
                                   data)
    try:
        verify_signature_block(tf, data, block)
        got = True
    except SignatureBlockVerificationError as e:
        ctx.check(str(e).strip(), "c34:message", "an error without message")
        got = False
    # never what it did not sign
    try:
        verify_signature_block(tf, data + b"x", block)
        ctx.fail("c34:forged", "other content accepted")
    except SignatureBlockVerificationError:
        pass
    ctx.step(2)
    if whole:
        jar = jars.write(os.path.join(ctx.tmpdir, "t.jar"),
                         [("a", b"content")], b"Manifest-Version: 1.0\n\n")
        args = ["j", "s", jar, lf, jars.key(k), "X"]
        for c in chain:
            args[2:2] = ["-c", c]
        rc, out, err = cli.run(jarutil.main, args)
        ctx.eq(rc, 0, "c34:sign", out + err)
        rc, out, err = cli.run(jarutil.main, ["j", "v", jar, tf])
        ctx.eq(rc == 0, got, "c34:command", out + err)
        ctx.step()
    return got


def must(ctx, got, want, what):
    if got != want:
        ctx.fail("c34:" + ("accepted" if got else "refused"), what)


def self_signed(keys):
    def run(ctx):
        k = ctx.choose("key", keys)
        ku = ctx.choose("usage", sorted(KU))
        eku = ctx.choose("extended", sorted(EKU))
        valid = ctx.choose("valid", VALID)
        ca = ctx.choose("ca", [None, True, False])
        leaf = make("L", "L", k, k, ku, eku, valid, ca)
        other = "rsa2" if k != "rsa2" else "ec3"
        trust = ctx.choose("trusted", ["itself", "namesake", "stranger",
                                       "both"])
        trusted = {"itself": [leaf],
                   "namesake": [make("L", "L", other, other, serial=2)],
                   "stranger": [make("S", "S", other, other)]}
        trusted["both"] = trusted["stranger"] + trusted["itself"]
        want = trust in ("itself", "both") and valid == "valid" and \
            ku in SIGNS


        got = verdict(ctx, trusted[trust], leaf, k, [],
                      ku == "-" and eku in "- code")
        must(ctx, got, want, "self-signed %s, usage %r, extended %r, %s, "
             "CA %r, trusted: %s" % (k, KU[ku], EKU[eku], valid, ca, trust))
        ctx.state((k, ku, eku, valid, ca, trust))
        ctx.outcome(want)
    return run


# what may deviate from a good chain: for each, the good value first and
# whether the others are bad
def chain_run(length):
    def run(ctx):
        bad = []

        def dev(name, good, others):
            """others: {value: is it bad?}"""
            v = ctx.choose(name, [good] + [o for o in others if o != good],
                           dev=True)
            if v != good and others[v]:
                bad.append("%s is %s" % (name, v))
            return v

        usage = {k: k not in SIGNS for k in KU}
        issue = {k: k not in ISSUES for k in ("-", "issue", "issue+", "all",
                                              "sign", "encipher")}
        purpose = {"-": False, "mail": False, "mail+server": False,
                   "server": True, "time": True}
        when = {"expired": True, "future": True}
        leaf = dict(ku=dev("leaf usage", "sign", usage),
                    eku=dev("leaf extended", "code",
                            {k: False for k in EKU}),
                    valid=dev("leaf", "valid", when))
        names = ["L", "I", "R"] if length == 3 else ["L", "R"]
        cas = {}
        for n in names[1:]:
            what = {"I": "intermediate", "R": "root"}[n]
            cas[n] = dict(ku=dev(what + " usage", "issue", issue),
                          eku=dev(what + " extended", "-", purpose),
                          valid=dev(what, "valid", when),
                          ca=dev(what + " CA", True, {False: True}))
        signed = {}
        for n, up in zip(names, names[1:]):
            signed[n] = dev(n + " signed by", "issuer",
                            {"other key": True})
        pems = {}
        for n, up in zip(names, names[1:] + ["R"]):
            by = KEYS[up] if signed.get(n, "issuer") == "issuer" else \
                KEYS["X"]
            kw = leaf if n == "L" else cas[n]
            pems[n] = make(n, up, KEYS[n], by,
                           serial=1 + names.index(n), **kw)
        carried = ctx.choose("chain", ["all", "intermediate", "none"]
                             if length == 3 else ["none", "all"], dev=True)
        given = ctx.choose("trusted", [
            "root", "root+intermediate", "stranger", "namesake"]
            if length == 3 else ["root", "stranger", "namesake"], dev=True)
        extra = {"all": [pems[n] for n in names[1:]],
                 "intermediate": [pems["I"]] if length == 3 else [],
                 "none": []}[carried]
        strange = make("S", "S", KEYS["X"], KEYS["X"], "issue", ca=True)
        mate = make("R", "R", "rsa1", "rsa1", "issue", ca=True,
                    serial=9)
        trusted = {"root": [pems["R"]], "stranger": [strange],
                   "namesake": [mate],
                   "root+intermediate": [pems["R"], pems.get("I", b"")]
                   }[given]
        if given in ("stranger", "namesake"):
            bad.append("trusted is " + given)
        if length == 3 and carried == "none" and \
                given != "root+intermediate":
            bad.append("the intermediate is nowhere")
        got = verdict(ctx, trusted, pems["L"], KEYS["L"], extra,
                      len(bad) < 2 and leaf["valid"] == "valid")
        must(ctx, got, not bad, "chain of %d: %s (leaf %r, issuers %r, "
             "carried %s, trusted %s)" % (
                 length, ", ".join(bad) or "nothing wrong", leaf, cas,
                 carried, given))
        ctx.state((length, tuple(ctx.choices)))
        ctx.outcome(tuple(bad[:1]))
    return run


RING = ["rsa1", "ec1", "ec2", "ec3", "rsa2", "dsa1"]
ORDERS = {"upwards": lambda x: x, "downwards": lambda x: x[::-1],
          "mixed": lambda x: x[1::2] + x[::2],
          "twice": lambda x: x + x}


def deep(longest):
    def run(ctx):
        """each certificate between the signer's and the trusted one is
        sent along, or in the trusted file, or nowhere"""
        n = ctx.choose("issuers", range(1, longest + 1))
        names = ["L"] + ["I%d" % i for i in range(1, n)] + ["R"]
        keys = [RING[i % len(RING)] for i in range(n + 1)]
        pems = {}
        for i, name in enumerate(names):
            up = min(i + 1, n)
            pems[name] = make(name, names[up], keys[i], keys[up],
                              "sign" if i == 0 else "issue",
                              ca=None if i == 0 else True, serial=1 + i)
        extra, trusted, missing = [], [pems["R"]], []
        for name in names[1:-1]:
            # OpenSSL looks for the issuer of a trusted one among the
            # trusted only
            where = ctx.choose(name, ["carried", "trusted", "nowhere"]
                               if len(trusted) == 1 else
                               ["trusted", "nowhere"], dev=True)
            if where == "carried":
                extra.append(pems[name])
            elif where == "trusted":
                trusted.append(pems[name])
            else:
                missing.append(name)
        if ctx.flag("root carried", dev=True):
            extra.append(pems["R"])
        order = ctx.choose("order", sorted(ORDERS)[::-1], dev=True)
        extra = ORDERS[order](extra)
        if ctx.flag("trusted reversed", dev=True):
            trusted.reverse()
        got = verdict(ctx, trusted, pems["L"], keys[0], extra,
                      True)
        must(ctx, got, not missing, "%d issuers, missing %r, sent along: %s"
             % (n, missing, order))
        ctx.state(tuple(ctx.choices))
        ctx.outcome(got)
    return run


def harnesses(tier):
    t = tier == "thorough"
    return [
        Harness("self-signed", self_signed(["ec1", "rsa1", "dsa1"] if t else
                                           ["ec1"]), quota=100,
                describe="every key usage x extended usage x validity x "
                "constraint x trusted certificate"),
        Harness("issued", chain_run(2), bound=4 if t else 2, quota=100,
                describe="chains root-leaf with up to %d deviations" %
                (4 if t else 2)),
        Harness("chain", chain_run(3), bound=3 if t else 2, quota=100,
                describe="chains root-intermediate-leaf with up to %d "
                "deviations" % (3 if t else 2)),
        Harness("deep", deep(8 if t else 5), bound=3 if t else 2, quota=60,
                describe="chains of up to %d issuers, each sent along, in "
                "the trusted file or nowhere, with up to %d not sent along "
                "or other deviations" % ((8, 3) if t else (5, 2))),
    ]
