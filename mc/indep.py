"""Independent checks of protections and certificates: only hashlib/hmac/cryptography and our own DER reader."""

import hashlib
import hmac

from mc import der

HASH = {
    "2.16.840.1.101.3.4.2.1": "sha256",
    "2.16.840.1.101.3.4.2.2": "sha384",
    "2.16.840.1.101.3.4.2.3": "sha512",
    "2.16.840.1.101.3.4.2.4": "sha224",
    "1.3.14.3.2.26": "sha1",
    "2.16.840.1.101.3.4.2.7": "sha3_224",
    "2.16.840.1.101.3.4.2.8": "sha3_256",
    "2.16.840.1.101.3.4.2.9": "sha3_384",
    "2.16.840.1.101.3.4.2.10": "sha3_512",
}
HMAC = {
    "1.2.840.113549.2.7": "sha1",
    "1.2.840.113549.2.8": "sha224",
    "1.2.840.113549.2.9": "sha256",
    "1.2.840.113549.2.10": "sha384",
    "1.2.840.113549.2.11": "sha512",
    "1.3.6.1.5.5.8.1.2": "sha1",
    "2.16.840.1.101.3.4.2.13": "sha3_224",
    "2.16.840.1.101.3.4.2.14": "sha3_256",
    "2.16.840.1.101.3.4.2.15": "sha3_384",
    "2.16.840.1.101.3.4.2.16": "sha3_512",
}
PBM = "1.2.840.113533.7.66.13"
PBMAC1 = "1.2.840.113549.1.5.14"
PBKDF2 = "1.2.840.113549.1.5.12"


def oid(node):
    data = node.data
    out, v = [], 0
    for b in data:
        v = (v << 7) | (b & 0x7F)
        if not b & 0x80:
            if not out:
                first = min(v // 40, 2)
                out += [first, v - 40 * first]
            else:
                out.append(v)
            v = 0
    return ".".join(map(str, out))


def to_int(node):
    return int.from_bytes(node.data, "big", signed=True)


def protected_part(msg_der):
    top = der.parse(msg_der)
    return der.seq(top[0], top[1]).encode()


def protection_of(msg_der):
    """(algorithm OID, parameters node or None, protection bytes) or None."""
    p = der.Pki(msg_der)
    alg = p.field("protectionAlg")
    value = None
    for k in p.top.kids[2:]:
        if k.tag == b"\xa0":
            value = k[0].data[1:]
    if alg is None or value is None:
        return None
    return oid(alg[0]), (alg[1] if len(alg.kids) > 1 else None), value


def mac_value(msg_der, secret):
    """Recompute the MAC of a PKIMessage from its own algorithm identifier (PBM, PBMAC1, HMAC)."""
    alg, params, _ = protection_of(msg_der)
    data = protected_part(msg_der)
    if isinstance(secret, str):
        secret = secret.encode()
    if alg == PBM:
        salt, owf, iters, mac = params[0].data, HASH[oid(params[1][0])], to_int(params[2]), HMAC[oid(params[3][0])]
        key = secret + salt
        for _ in range(iters):
            key = hashlib.new(owf, key).digest()
        return hmac.new(key, data, mac).digest()
    if alg == PBMAC1:
        kdf, mac = params[0], HMAC[oid(params[1][0])]
        assert oid(kdf[0]) == PBKDF2
        salt, iters = kdf[1][0].data, to_int(kdf[1][1])
        size, prf = None, "sha1"
        for extra in kdf[1].kids[2:]:
            if extra.tag == b"\x02":
                size = to_int(extra)
            else:
                prf = HMAC[oid(extra[0])]
        key = hashlib.pbkdf2_hmac(prf, secret, salt, iters, size or hashlib.new(mac).digest_size)
        return hmac.new(key, data, mac).digest()
    if alg in HMAC:
        return hmac.new(secret, data, HMAC[alg]).digest()
    raise KeyError(alg)


def mac_ok(msg_der, secret):
    return hmac.compare_digest(mac_value(msg_der, secret), protection_of(msg_der)[2])


def certs_of(msg_der):
    for k in der.parse(msg_der).kids[2:]:
        if k.tag == b"\xa1":
            return [c.encode() for c in k[0].kids]
    return []


RSA_SIG = {
    "1.2.840.113549.1.1.11": "SHA256",
    "1.2.840.113549.1.1.12": "SHA384",
    "1.2.840.113549.1.1.13": "SHA512",
}
EC_SIG = {"1.2.840.10045.4.3.2": "SHA256", "1.2.840.10045.4.3.3": "SHA384", "1.2.840.10045.4.3.4": "SHA512"}


def verify_raw(public_key, alg, signature, data):
    """True/False; KeyError if the algorithm is outside what this oracle knows."""
    from cryptography.exceptions import InvalidSignature
    from cryptography.hazmat.primitives import hashes
    from cryptography.hazmat.primitives.asymmetric import ec, padding

    try:
        if alg in ("1.3.101.112", "1.3.101.113"):
            public_key.verify(signature, data)
        elif alg in EC_SIG:
            public_key.verify(signature, data, ec.ECDSA(getattr(hashes, EC_SIG[alg])()))
        elif alg in RSA_SIG:
            public_key.verify(signature, data, padding.PKCS1v15(), getattr(hashes, RSA_SIG[alg])())
        else:
            raise KeyError(alg)
        return True
    except InvalidSignature:
        return False


def signature_ok(msg_der):
    from cryptography import x509

    alg, _, value = protection_of(msg_der)
    cert = x509.load_der_x509_certificate(certs_of(msg_der)[0])
    return verify_raw(cert.public_key(), alg, value, protected_part(msg_der))


def issued_by(cert_der, issuer_der):
    """Certificate signature and name chaining, checked on the raw structure."""
    from cryptography import x509

    issuer = x509.load_der_x509_certificate(issuer_der)
    top = der.parse(cert_der)
    alg = oid(top[1][0])
    tbs = top[0]
    i = 1 if tbs[0].tag == b"\xa0" else 0
    iss = der.parse(issuer_der)[0]
    j = 1 if iss[0].tag == b"\xa0" else 0
    if tbs[i + 2].encode() != iss[j + 4].encode():
        return False
    return verify_raw(issuer.public_key(), alg, top[2].data[1:], tbs.encode())


def header(msg_der):
    """The interesting header fields as plain values."""
    p = der.Pki(msg_der)
    h = p.header
    out = {
        "pvno": to_int(h[0]),
        "sender": h[1].encode(),
        "recipient": h[2].encode(),
        "body": p.body.tag[0] & 31,
    }
    for name in ("senderKID", "recipKID", "transactionID", "senderNonce", "recipNonce"):
        out[name] = p.octets(name)
    t = p.field("messageTime")
    out["messageTime"] = None if t is None else t.data.decode()
    return out
