"""X.509 certificates of any shape"""

import time

from M2Crypto import ASN1, EVP, X509

from . import jars

DAY = 86400
KU = {"-": None, "sign": "digitalSignature", "nonrep": "nonRepudiation",
      "encipher": "keyEncipherment",
      "sign+": "digitalSignature, keyEncipherment",
      "issue": "keyCertSign", "issue+": "keyCertSign, cRLSign",
      "all": "digitalSignature, nonRepudiation, keyCertSign",
      "nonrep+": "nonRepudiation, dataEncipherment",
      "agree": "keyAgreement"}
EKU = {"-": None, "code": "codeSigning", "mail": "emailProtection",
       "server": "serverAuth", "code+mail": "codeSigning, emailProtection",
       "time": "timeStamping", "mail+server": "emailProtection, serverAuth"}
SIGNS = ("-", "sign", "nonrep", "sign+", "all", "nonrep+")
ISSUES = ("-", "issue", "issue+", "all")
VALID = ["valid", "expired", "future"]
KEYS = {"L": "ec1", "I": "ec2", "R": "ec3", "X": "rsa2"}
CACHE = {}
PKEY = {}


def pkey(k):
    if k not in PKEY:
        PKEY[k] = EVP.load_key(jars.key(k))
    return PKEY[k]


def validity(x, how):
    now = int(time.time())
    span = {"valid": (-30, 3000), "expired": (-30, -2),
            "future": (2, 3000)}[how]
    for d, setter in zip(span, (x.set_not_before, x.set_not_after)):
        t = ASN1.ASN1_UTCTIME()
        t.set_time(now + d * DAY)
        setter(t)


def make(subject, issuer, k, signer, ku="-", eku="-", valid="valid",
         ca=None, serial=1):
    """a certificate for the key k, signed by the key signer"""
    args = (subject, issuer, k, signer, ku, eku, valid, ca, serial)
    if args in CACHE:
        return CACHE[args]
    x = X509.X509()
    x.set_version(2)
    x.set_serial_number(serial)
    for name, setter in ((subject, x.set_subject), (issuer, x.set_issuer)):
        n = X509.X509_Name()
        n.CN = name
        setter(n)
    validity(x, valid)
    x.set_pubkey(pkey(k))
    if ca is not None:
        x.add_ext(X509.new_extension(
            "basicConstraints", "CA:TRUE" if ca else "CA:FALSE", 1))
    if KU[ku]:
        x.add_ext(X509.new_extension("keyUsage", KU[ku], 1))
    if EKU[eku]:
        x.add_ext(X509.new_extension("extendedKeyUsage", EKU[eku]))
    x.sign(pkey(signer), "sha256")
    CACHE[args] = x.as_pem()
    return CACHE[args]
