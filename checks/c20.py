"""C20: message protection covers every octet of header and body, and is computed as the standards say."""

import hashlib
import hmac
import itertools

from mc import ca as C, der, indep
from mc.core import require
from mc.exchange import make_key

SHA = ["sha1", "sha224", "sha256", "sha384", "sha512"]
SHA3 = ["sha3_224", "sha3_256", "sha3_384", "sha3_512"]
SIGS = ["rsa", "ecc", "ed25519", "ed448", "ml-dsa-44", "composite"]
SECRETS = ["a", "SiemensIT", "0123456789abcdef", "x" * 32, "y" * 65, "z" * 200]
KEY = b"0123456789abcdef0123456789abcdef"
BODIES = ["ir", "p10cr", "certConf", "rr", "genm", "error", "pollReq"]
GMAC = {"2.16.840.1.101.3.4.1.9": 16, "2.16.840.1.101.3.4.1.29": 24, "2.16.840.1.101.3.4.1.49": 32}
KMAC = {"2.16.840.1.101.3.4.2.19": ("KMAC128", 32), "2.16.840.1.101.3.4.2.20": ("KMAC256", 64)}
DHBM, KEMBM = "1.2.840.113533.7.66.30", "1.2.840.113533.7.66.16"
L = None
keys = {}


# -- what the standards say -----------------------------------------------------------------------
def expected(msg_der, alg, secret, tx):
    """The protection value for the algorithm identifier (a DER node), from hashlib, hmac and block ciphers alone."""
    data = indep.protected_part(msg_der)
    return raw_mac(alg, secret, data, tx, msg_der)


def raw_mac(alg, secret, data, tx, msg_der=None):
    name = indep.oid(alg[0])
    if name in (indep.PBM, indep.PBMAC1) or name in indep.HMAC:
        return indep.mac_value(msg_der, secret) if msg_der else hmac.new(secret, data, indep.HMAC[name]).digest()
    if name in GMAC:
        from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

        enc = Cipher(algorithms.AES(secret), modes.GCM(alg[1][0].data)).encryptor()
        enc.authenticate_additional_data(data)
        enc.finalize()
        return enc.tag
    if name in KMAC:
        import importlib

        which, size = KMAC[name]
        return importlib.import_module("Crypto.Hash." + which).new(key=secret, data=data, mac_len=size).digest()
    if name == DHBM:
        owf, mac = indep.HASH[indep.oid(alg[1][0][0])], alg[1][1]
        base = hashlib.new(owf, secret).digest()
        inner = indep.oid(mac[0])
        if inner in indep.HMAC:
            return hmac.new(base, data, indep.HMAC[inner]).digest()
        size, i, key = GMAC.get(inner, 32), 1, base
        while len(key) < size:
            key += hashlib.new(owf, str(i).encode() + base).digest()
            i += 1
        return raw_mac(mac, key[:size], data, tx)
    if name == KEMBM:
        params = alg[1]
        kdf, mac = params[0], params.kids[-1]
        size = indep.to_int(params.kids[-2])
        ctx = params.find(0xA0) or params.find(0x80)
        info = [der.seq(der.Node(b"\x0c", None, b"CMP-KEM")), der.Node(b"\x04", None, tx)]
        require(ctx is None, "unexpected-context")
        return raw_mac(mac, kdf_out(kdf, secret, size, der.seq(*info).encode()), data, tx)
    raise KeyError(name)


def kdf_out(kdf, secret, size, info):
    name = indep.oid(kdf[0])
    hkdf = {"1.2.840.113549.1.9.16.3.28": "sha256", "1.2.840.113549.1.9.16.3.29": "sha384", "1.2.840.113549.1.9.16.3.30": "sha512"}
    if name in hkdf:
        h = hkdf[name]
        prk = hmac.new(bytes(hashlib.new(h).digest_size), secret, h).digest()
        out, t, i = b"", b"", 1
        while len(out) < size:
            t = hmac.new(prk, t + info + bytes([i]), h).digest()
            out, i = out + t, i + 1
        return out[:size]
    if name == indep.PBKDF2:
        p = kdf[1]
        prf = "sha1"
        for k in p.kids[2:]:
            if k.tag == b"\x30":
                prf = indep.HMAC[indep.oid(k[0])]
        return hashlib.pbkdf2_hmac(prf, secret, p[0].data, indep.to_int(p[1]), size)
    version = {"1.3.133.16.840.9.44.1.1": 2, "1.3.133.16.840.9.44.1.2": 3}[name]
    h = indep.HASH[indep.oid(kdf[1][0])]
    out, i = b"", 1
    while len(out) < size:
        d = i.to_bytes(4, "big")
        out += hashlib.new(h, (secret + d if version == 2 else d + secret) + info).digest()
        i += 1
    return out[:size]


# -- the ways of protecting ------------------------------------------------------------------------
def schemes(quick):
    out = []
    for p, h in itertools.product(["hmac", "pbmac1", "password_based_mac"], SHA + SHA3):
        out.append([p, h])
    out += [["kmac", h] for h in ("shake128", "shake256")]
    out += [["gmac", n] for n in ("aes128_gmac", "aes192_gmac", "aes256_gmac")]
    for k, h, m in itertools.product(
        ["x25519", "x448", "ecc"], SHA,
        ["hmac", "hmac-sha256", "hmac-sha3_256", "kmac-shake128", "kmac-shake256", "aes128_gmac", "aes192_gmac", "aes256_gmac"],
    ):
        if quick and k == "x448" and h != "sha256":
            continue
        out.append(["dh", k, h, m])
    for how, kdf, h in itertools.product(["secret", "cert"], ["kdf2", "kdf3", "hkdf", "pbkdf2"], SHA):
        if (kdf, h) in (("hkdf", "sha1"), ("hkdf", "sha224")) or (quick and kdf == "pbkdf2" and h != "sha256"):
            continue
        if how == "cert" and h not in ("sha256", "sha512"):
            continue
        out.append(["kem", how, kdf, h])
    for k in SIGS:
        hs = {"rsa": SHA[1:] + SHA3, "ecc": SHA[1:] + SHA3}.get(k, [None])
        out += [["signature", k, h] for h in hs]
    out += [["rsassa_pss", "rsa", h] for h in ("sha256", "sha384", "sha512", "shake128", "shake256")]
    return out


def key(name, n=0):
    if (name, n) not in keys:
        if name == "kem":
            keys[name, n] = L.ku.generate_key("ml-kem-512")
        else:
            keys[name, n] = make_key(name)
    return keys[name, n]


def cert_of(name):
    if ("cert", name) not in keys:
        from resources.certbuildutils import build_certificate

        if name == "kem":
            issuer = key("ecc")
            ca = cert_of("ecc")
            keys["cert", name] = build_certificate(private_key=key(name), common_name="CN=kem", ca_cert=ca, ca_key=issuer)[0]
        else:
            k = key(name)
            keys["cert", name] = build_certificate(private_key=k, common_name="CN=" + name, hash_alg="sha256")[0]
    return keys["cert", name]


def message(kind):
    """An unprotected message with every optional header field present."""
    cm = L.cm
    args = dict(sender=C.SENDER, for_mac=True)
    k = key("ecc")
    if kind == "ir":
        m = cm.build_ir_from_key(k, common_name=C.EE, implicit_confirm=True, **args)
    elif kind == "p10cr":
        m = cm.build_p10cr_from_key(k, common_name=C.EE, implicit_confirm=True, **args)
    elif kind == "certConf":
        m = cm.build_cert_conf(cert_of("ed25519"), cert_req_id=0, hash_alg="sha512", **args)
    elif kind == "rr":
        m = cm.build_cmp_revoke_request(cert=cert_of("ecc"), reason="keyCompromise", sender=C.SENDER, exclude_fields="senderKID")
    elif kind == "genm":
        m = L.gm.build_cmp_general_message(add_messages="get_ca_certs", **args)
    elif kind == "error":
        m = cm.build_cmp_error_message(failinfo="badRequest", texts="no", **args)
    else:
        m = cm.build_polling_request(cert_req_id=0, recipient="CN=CA", **args)
    p = der.Pki(C.encode(m))
    for name, value in (("recipKID", b"recipient"), ("recipNonce", b"r" * 16), ("transactionID", b"t" * 16), ("senderNonce", b"s" * 16), ("senderKID", b"CN=kid")):
        p.set_octets(name, value)
    h = p.header
    h.kids = [k for k in h.kids if k.tag not in (b"\xa7", b"\xa8")]
    h.kids.append(der.parse(b"\xa7\x07\x30\x05\x0c\x03hey"))
    infos = der.seq(
        der.seq(der.parse(bytes.fromhex("06082b0601050507040d")), der.parse(b"\x05\x00")),
        der.seq(der.parse(bytes.fromhex("06082b06010505070407")), der.parse(b"\x0c\x03abc")),
    )
    h.kids.append(der.Node(b"\xa8", [infos]))
    return cm.parse_pkimessage(p.encode())


def protect(s, msg, secret):
    P = L.pu
    if s[0] in ("hmac", "pbmac1", "password_based_mac"):
        return P.protect_pkimessage(msg, s[0], password=secret, hash_alg=s[1], iterations=3)
    if s[0] == "kmac":
        return P.protect_pkimessage(msg, "kmac", password=secret, hash_alg=s[1])
    if s[0] == "gmac":
        return P.protect_pkimessage(msg, s[1], password=secret)
    if s[0] == "dh":
        return P.protect_pkimessage(msg, "dh", private_key=key(s[1]), peer=key(s[1], 1).public_key(), hash_alg=s[2], mac_alg=s[3], exclude_certs=True, do_patch=False)
    if s[0] == "kem":
        who = dict(shared_secret=secret) if s[1] == "secret" else dict(peer_cert=cert_of("kem"))
        return P.protect_pkimessage_kem_based_mac(msg, kdf=s[2], hash_alg=s[3], **who)
    return P.protect_pkimessage(msg, s[0], private_key=key(s[1]), cert=cert_of(s[1]), hash_alg=s[2], certs_dir=None, do_patch=False)


def verify(s, msg, secret, other=False):
    """Raises when refused. With `other`, somebody else's secret or key is used."""
    P = L.pu
    if s[0] in ("hmac", "pbmac1", "password_based_mac", "kmac", "gmac"):
        return P.verify_pkimessage_protection(msg, password=secret)
    if s[0] == "dh":
        return P.verify_pkimessage_protection(msg, private_key=key(s[1], 2 if other else 1), public_key=key(s[1]).public_key())
    if s[0] == "kem":
        if s[1] == "secret":
            return P.verify_pkimessage_protection(msg, shared_secret=secret)
        return P.verify_pkimessage_protection(msg, private_key=key("kem", 2 if other else 0))
    if s[1] == "composite":
        import pq_logic.pq_verify_logic as V

        return V.verify_hybrid_pkimessage_protection(msg, public_key=key(s[1], 2).public_key() if other else None)
    if other:
        return P.verify_pkimessage_protection(msg, public_key=key(s[1], 2).public_key())
    return P.verify_pkimessage_protection(msg)


def accepts(s, data, secret, other=False):
    try:
        msg = L.cm.parse_pkimessage(data)
    except Exception:  # pylint: disable=broad-except
        return None, "not parsed"
    try:
        verify(s, msg, secret, other)
    except Exception as exc:  # pylint: disable=broad-except
        return None, type(exc).__name__
    return msg, "accepted"


def make(s, kind, secret):
    data = C.encode(protect(s, message(kind), secret))
    return data, name(s, kind)


def name(s, kind):
    return "/".join(str(x) for x in s) + ":" + kind


def secret_of(s, n=1):
    if s[0] in ("gmac",):
        return KEY[: {"1": 16, "2": 32}.get(s[1][3], 24) if s[1] != "aes192_gmac" else 24]
    if s[0] in ("kmac", "kem"):
        return KEY
    return SECRETS[n].encode()


def agreed(s, data):
    """The secret both sides share, computed without the code under test where it is not simply given."""
    if s[0] == "dh":
        if s[1] == "ecc":
            from cryptography.hazmat.primitives.asymmetric import ec

            return key("ecc").exchange(ec.ECDH(), key("ecc", 1).public_key())
        return key(s[1]).exchange(key(s[1], 1).public_key())
    return None


# -- one scheme, one body: accepted, of the right value, and every change refused --------------------
def run(case):
    if case["what"] == "value":
        return run_value(case)
    if case["what"] == "bytes":
        return run_bytes(case)
    if case["what"] == "foreign":
        return run_foreign(case)
    return run_swap(case)


def run_value(case):
    s, kind = case["scheme"], case["body"]
    secret = secret_of(s, case.get("secret", 1))
    data, label = make(s, kind, secret)
    msg, how = accepts(s, data, secret)
    require(msg is not None, "own-protection-refused:" + label, how)
    alg, _, value = indep.protection_of(data)
    node = der.Pki(data).field("protectionAlg")
    if s[0] in ("signature", "rsassa_pss"):
        try:
            good = indep.verify_raw(key(s[1]).public_key(), alg, value, indep.protected_part(data))
        except KeyError:
            good = pss_ok(key(s[1]).public_key(), node, value, indep.protected_part(data)) if s[0] == "rsassa_pss" and s[2].startswith("sha") and not s[2].startswith("shake") else None
        require(good is not False, "signature-over-something-else:" + label)
        third = "independently verified" if good else ""
    elif s[0] == "kem" and s[1] == "cert":
        third = ""
    else:
        want = expected(data, node, agreed(s, data) or secret, b"t" * 16)
        require(want == value, "protection-value:" + label, "%s instead of %s" % (value.hex(), want.hex()))
        third = "recomputed"
    # nobody else's secret or key
    other = secret[:-1] + bytes([secret[-1] ^ 1]) if secret else b"x"
    if s[0] in ("dh", "signature", "rsassa_pss") or (s[0] == "kem" and s[1] == "cert"):
        require(accepts(s, data, secret, other=True)[0] is None, "other-key-accepted:" + label)
    else:
        for bad in (other, secret + b"x", secret[:-1], b"", secret.upper() if secret.upper() != secret else secret.lower()):
            if bad == secret:
                continue
            require(accepts(s, data, bad)[0] is None, "other-secret-accepted:" + label, repr(bad))
    # and not without a protection
    top = der.parse(data)
    for value in (b"", b"\x00" * 16, top_protection(top)[:-1], top_protection(top) + b"\x00", top_protection(top)[:1]):
        t = der.parse(data)
        for k in t.kids[2:]:
            if k.tag == b"\xa0":
                k[0].data = b"\x00" + value
        require(accepts(s, t.encode(), secret)[0] is None, "protection-length:" + label, "%d octets" % len(value))
    t = der.parse(data)
    t.kids = [k for k in t.kids if k.tag != b"\xa0"]
    require(accepts(s, t.encode(), secret)[0] is None, "no-protection:" + label)
    return "%s/%s %s" % (s[0], s[1], third)


def top_protection(top):
    for k in top.kids[2:]:
        if k.tag == b"\xa0":
            return k[0].data[1:]
    return None


def pss_ok(pub, alg, value, data):
    from cryptography.exceptions import InvalidSignature
    from cryptography.hazmat.primitives import hashes
    from cryptography.hazmat.primitives.asymmetric import padding

    p = alg[1]
    h = getattr(hashes, indep.HASH[indep.oid(p.find(0xA0)[0][0])].upper())() if p.find(0xA0) else hashes.SHA1()
    salt = indep.to_int(p.find(0xA2)[0]) if p.find(0xA2) else 20
    try:
        pub.verify(value, data, padding.PSS(padding.MGF1(h), salt), h)
        return True
    except InvalidSignature:
        return False


def span(data):
    """Offsets of header and body, and of the octets of the protection value."""
    top = der.parse(data)
    head = len(data) - len(b"".join(k.encode() for k in top.kids))
    a = len(top[0].encode()) + len(top[1].encode())
    prot = [k for k in top.kids[2:] if k.tag == b"\xa0"][0]
    n = len(prot.encode())
    v = len(prot[0].data) - 1
    return head, head + a, head + a + n - v, head + a + n


def canonical(msg):
    return indep.protected_part(C.encode(msg))


def run_bytes(case):
    s, kind = case["scheme"], case["body"]
    secret = secret_of(s)
    data, label = make(s, kind, secret)
    require(accepts(s, data, secret)[0] is not None, "own-protection-refused:" + label)
    lo, mid, vlo, vhi = span(data)
    want = indep.protected_part(data)
    tried = refused = alias = 0
    places = range(lo, mid) if case["part"] == "content" else range(vlo, vhi)
    step, first = case.get("step", 1), case.get("first", 0)
    for i in list(places)[first::step]:
        for bit in case["bits"]:
            bad = bytearray(data)
            bad[i] ^= bit
            tried += 1
            msg, how = accepts(s, bytes(bad), secret)
            if msg is None:
                refused += 1
                continue
            same = False
            if case["part"] == "content":
                try:
                    same = canonical(msg) == want
                except Exception:  # pylint: disable=broad-except
                    same = False
            require(same, "changed-%s-accepted:%s" % (case["part"], label), "octet %d bit %d of %d (%d..%d)" % (i, bit, len(data), lo, mid))
            alias += 1
    return "%s/%s %s %s: %d changes refused%s" % (s[0], s[1], kind, case["part"], refused, ", %d aliases" % alias if alias else "")


def oid_node(dotted):
    parts = [int(x) for x in dotted.split(".")]
    out = b""
    for v in [parts[0] * 40 + parts[1]] + parts[2:]:
        chunk = bytes([v & 127])
        while v > 127:
            v >>= 7
            chunk = bytes([128 | (v & 127)]) + chunk
        out += chunk
    return der.Node(b"\x06", None, out)


def alg(dotted, *params):
    return der.seq(oid_node(dotted), *params)


def run_foreign(case):
    """Protected by the oracle alone, with every pair of hash algorithms the two parameters can name."""
    s = case["scheme"]
    how, one, two = s
    by_name = {v: k for k, v in indep.HASH.items()}
    mac_name = {v: k for k, v in indep.HMAC.items()}  # the last name of SHA-1's is the one of RFC 3370, which the suite knows
    null = der.parse(b"\x05\x00")
    salt = b"0123456789abcdef"
    if how == "password_based_mac":
        params = der.seq(der.octets(salt), alg(by_name[one]), der.integer(7), alg(mac_name[two]))
        node = alg(indep.PBM, params)
    elif how == "pbmac1":
        kids = [der.octets(salt), der.integer(7)]
        kids.append(der.integer(case.get("size", hashlib.new(two).digest_size)))
        kids.append(alg(mac_name[one], null))
        node = alg(indep.PBMAC1, der.seq(alg(indep.PBKDF2, der.seq(*kids)), alg(mac_name[two], null)))
    elif how == "dh":
        node = alg(DHBM, der.seq(alg(by_name[one]), alg(mac_name[two])))
    else:
        node = alg(mac_name[one])
    p = der.Pki(C.encode(message(case["body"])))
    h = p.header
    h.kids = [k for k in h.kids if k.tag != b"\xa1"]
    at = 3 + (len(h.kids) > 3 and h.kids[3].tag == b"\xa0")
    h.kids.insert(at, der.Node(b"\xa1", [node]))
    secret = key("x25519").exchange(key("x25519", 1).public_key()) if how == "dh" else SECRETS[1].encode()
    data = p.encode()
    scheme = ["dh", "x25519"] if how == "dh" else s

    def wire(value):
        t = der.parse(data)
        t.kids.append(der.Node(b"\xa0", [der.Node(b"\x03", None, b"\x00" + value)]))
        return t.encode()

    value = expected(wire(b"?"), node, secret, b"t" * 16)
    label = name(s, case["body"])
    msg, why = accepts(scheme, wire(value), secret)
    require(msg is not None, "correct-protection-refused:" + label, why)
    for bad in (bytes([value[0] ^ 1]) + value[1:], value[:-1] + bytes([value[-1] ^ 1]), value[:-1], value + value[-1:]):
        require(accepts(scheme, wire(bad), secret)[0] is None, "wrong-protection-accepted:" + label)
    return "%s protected by the oracle" % how


def run_swap(case):
    """Whole parts taken from another message protected with the same secret or key."""
    s, kind = case["scheme"], case["body"]
    secret = secret_of(s)
    data, label = make(s, kind, secret)
    other, _ = make(s, case["other"], secret)
    a, b = der.parse(data), der.parse(other)
    n = 0
    if kind != case["other"]:
        t = der.parse(data)
        t.kids[1] = b[1]
        require(accepts(s, t.encode(), secret)[0] is None, "body-of-another-accepted:" + label, case["other"])
        n += 1
    for tag in (0xA0, 0xA2, 0xA3, 0xA4, 0xA5, 0xA6, 0xA7, 0xA8):
        t = der.parse(data)
        before = len(t[0].kids)
        t[0].kids = [k for k in t[0].kids if k.tag != bytes([tag])]
        if len(t[0].kids) == before:
            continue
        require(accepts(s, t.encode(), secret)[0] is None, "header-field-removed:" + label, "%02x" % tag)
        n += 1
        t = der.parse(data)
        for k in t[0].kids:
            if k.tag == bytes([tag]):
                change_last(k)
        require(accepts(s, t.encode(), secret)[0] is None, "header-field-changed:" + label, "%02x" % tag)
        n += 1
    infos = [k for k in der.parse(data)[0].kids if k.tag == b"\xa8"]
    for i in range(len(infos[0][0].kids)):
        t = der.parse(data)
        box = [k for k in t[0].kids if k.tag == b"\xa8"][0][0]
        del box.kids[i]
        require(accepts(s, t.encode(), secret)[0] is None, "general-info-removed:" + label, "entry %d" % i)
        n += 1
    for i in (1, 2):
        t = der.parse(data)
        t[0].kids[i] = der.parse(b"\xa4\x02\x30\x00")
        require(accepts(s, t.encode(), secret)[0] is None, "name-removed:" + label, "entry %d" % i)
        n += 1
    if s[0] in ("signature", "rsassa_pss"):
        # another certificate in front
        for k in a.kids[2:]:
            if k.tag == b"\xa1":
                for wrong in ("ecc", "ed25519", "rsa"):
                    if wrong == s[1]:
                        continue
                    t = der.parse(data)
                    box = [k for k in t.kids[2:] if k.tag == b"\xa1"][0][0]
                    box.kids.insert(0, der.parse(C.encode(cert_of(wrong))))
                    require(accepts(s, t.encode(), secret)[0] is None, "certificate-of-another:" + label, wrong)
                    n += 1
    return "%s/%s parts: %d changes refused" % (s[0], s[1], n)


def change_last(node):
    while node.kids:
        node = node.kids[-1]
    if node.data:
        node.data = node.data[:-1] + bytes([node.data[-1] ^ 1])
    else:
        node.data = b"\x01"


def cases(quick):
    out = []
    every = schemes(quick)
    for s in every:
        pq = s[1] in ("ml-dsa-44", "composite") or (s[0] == "kem" and s[1] == "cert")
        slow = s[0] == "kem" and "pbkdf2" in s  # 100000 iterations each time
        few = quick and (s[0] == "dh" or pq or slow)
        for kind in ["ir", "rr"] if few else BODIES:
            out.append(dict(what="value", scheme=s, body=kind))
            if slow and quick:
                continue
            out.append(dict(what="swap", scheme=s, body=kind, other="genm" if kind != "genm" else "ir"))
        if slow and (quick or s[3] != "sha256"):
            continue
        if s[0] in ("hmac", "pbmac1", "password_based_mac"):
            for n in range(len(SECRETS)):
                out.append(dict(what="value", scheme=s, body="genm", secret=n))
        parts = 4 if s[0] == "signature" else 1
        bits = [1, 128] if quick else [1 << i for i in range(8)]
        if pq:
            wide = 1 if not quick else 8 if s[2] in ("kdf2", None) and s[1] != "composite" else 24
            if quick and s[0] == "kem" and s[3] != "sha256":
                continue
            for j in range(24):
                out.append(dict(what="bytes", scheme=s, body="genm", part="protection", bits=[1] if quick else bits, step=24 * wide * (4 if quick else 1), first=j))
                out.append(dict(what="bytes", scheme=s, body="genm", part="content", bits=[1], step=24 * wide, first=j))
        else:
            for j in range(parts):
                out.append(dict(what="bytes", scheme=s, body="genm", part="protection", bits=bits, step=parts, first=j))
                if quick and s[0] == "dh" and (s[2] != "sha256" or s[3] not in ("hmac-sha256", "aes128_gmac")):
                    continue
                if quick and s[0] in ("signature", "rsassa_pss") and s[2] not in ("sha256", "sha3_256", "shake128", None):
                    continue
                for kind in ["genm"] if quick else BODIES:
                    out.append(dict(what="bytes", scheme=s, body=kind, part="content", bits=[1] if quick else bits, step=parts, first=j))
    for s in [["hmac", "sha256"], ["password_based_mac", "sha256"], ["signature", "ed25519", None]]:
        for kind in BODIES:
            out.append(dict(what="bytes", scheme=s, body=kind, part="content", bits=[4] if quick else [2, 4, 8, 16, 32, 64, 128], step=1, first=0))
    for how, a, b in itertools.product(["password_based_mac", "pbmac1", "dh"], SHA + SHA3, SHA + SHA3):
        if how == "dh" and a.startswith("sha3"):
            continue  # the suite does not know SHA-3 there, and refuses it
        for kind in ["genm"] if quick else BODIES:
            out.append(dict(what="foreign", scheme=[how, a, b], body=kind))
            if how == "pbmac1" and a == b:
                for size in (1, 16, 33, 64, 100):
                    out.append(dict(what="foreign", scheme=[how, a, b], body=kind, size=size))
    for a in SHA + SHA3:
        for kind in BODIES:
            out.append(dict(what="foreign", scheme=["hmac", a, None], body=kind))
    return out


def setup():
    global L
    L = C.tools()
    for n in SIGS + ["x25519", "x448"]:
        for i in (0, 2) if n in SIGS else (0, 1, 2):
            key(n, i)
    key("ecc", 1)
    key("kem"), key("kem", 2)
    for n in SIGS + ["kem"]:
        cert_of(n)


def explore(ctx):
    setup()
    cs = cases(ctx.quick)
    ctx.rule = "%d protection schemes x bodies; every octet of header, body and protection value changed" % len(schemes(ctx.quick))
    ctx.each(cs, run)


def replay(ctx, case):
    setup()
    ctx.one(case, run)
