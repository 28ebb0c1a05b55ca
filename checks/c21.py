"""C21: composite signatures need both components, over the message bound to algorithm and context."""

import hashlib

from mc import ca as C, der, ref
from mc.core import require

# draft-ietf-lamps-pq-composite-sigs: arc, ML-DSA, classical algorithm, hash of the message, hash of the classical part
ARC = "1.3.6.1.5.5.7.6.%d"
TABLE = {
    37: (44, "rsa2048", "pss", "sha256", "sha256", "MLDSA44-RSA2048-PSS-SHA256"),
    38: (44, "rsa2048", "pkcs15", "sha256", "sha256", "MLDSA44-RSA2048-PKCS15-SHA256"),
    39: (44, "ed25519", None, "sha512", None, "MLDSA44-Ed25519-SHA512"),
    40: (44, "secp256r1", None, "sha256", "sha256", "MLDSA44-ECDSA-P256-SHA256"),
    41: (65, "rsa3072", "pss", "sha512", "sha256", "MLDSA65-RSA3072-PSS-SHA512"),
    42: (65, "rsa3072", "pkcs15", "sha512", "sha256", "MLDSA65-RSA3072-PKCS15-SHA512"),
    43: (65, "rsa4096", "pss", "sha512", "sha384", "MLDSA65-RSA4096-PSS-SHA512"),
    44: (65, "rsa4096", "pkcs15", "sha512", "sha384", "MLDSA65-RSA4096-PKCS15-SHA512"),
    45: (65, "secp256r1", None, "sha512", "sha256", "MLDSA65-ECDSA-P256-SHA512"),
    46: (65, "secp384r1", None, "sha512", "sha384", "MLDSA65-ECDSA-P384-SHA512"),
    47: (65, "brainpoolP256r1", None, "sha512", "sha256", "MLDSA65-ECDSA-BP256-SHA512"),
    48: (65, "ed25519", None, "sha512", None, "MLDSA65-Ed25519-SHA512"),
    49: (87, "secp384r1", None, "sha512", "sha384", "MLDSA87-ECDSA-P384-SHA512"),
    50: (87, "brainpoolP384r1", None, "sha512", "sha384", "MLDSA87-ECDSA-BP384-SHA512"),
    51: (87, "ed448", None, "shake256", None, "MLDSA87-Ed448-SHAKE256"),
    52: (87, "rsa3072", "pss", "sha512", "sha256", "MLDSA87-RSA3072-PSS-SHA512"),
    53: (87, "rsa4096", "pss", "sha512", "sha384", "MLDSA87-RSA4096-PSS-SHA512"),
    54: (87, "secp521r1", None, "sha512", "sha512", "MLDSA87-ECDSA-P521-SHA512"),
}
MESSAGES = [b"", b"a", b"composite", bytes(300)]
CONTEXTS = [b"", b"c", bytes(255)]
L = None
trad = {}
pq = {}
made = {}


def setup():
    global L
    if L:
        return
    L = C.tools()
    from cryptography.hazmat.primitives.asymmetric import ec, ed448, ed25519, rsa
    from pq_logic.keys.composite_sig import CompositeSigPrivateKey, CompositeSigPublicKey
    from pq_logic.keys.sig_keys import MLDSAPrivateKey
    from resources import prepare_alg_ids, prepareutils

    C.memo_expand_a()
    L.Private, L.Public, L.MLDSA, L.ids = CompositeSigPrivateKey, CompositeSigPublicKey, MLDSAPrivateKey, prepare_alg_ids
    curves = {"secp256r1": ec.SECP256R1, "secp384r1": ec.SECP384R1, "secp521r1": ec.SECP521R1,
              "brainpoolP256r1": ec.BrainpoolP256R1, "brainpoolP384r1": ec.BrainpoolP384R1}
    for copy in (0, 1):
        for name in sorted({row[1] for row in TABLE.values()}):
            if name.startswith("rsa"):
                key = rsa.generate_private_key(65537, int(name[3:]))
            elif name == "ed25519":
                key = ed25519.Ed25519PrivateKey.generate()
            elif name == "ed448":
                key = ed448.Ed448PrivateKey.generate()
            else:
                key = ec.generate_private_key(curves[name]())
            trad[name, copy] = key
        for level in (44, 65, 87):
            seed = hashlib.sha256(b"pq%d%d" % (level, copy)).digest()
            pq[level, copy] = (seed, *ref.MLDSA("ml-dsa-%d" % level).keygen(seed))


def prepare():
    for arc in TABLE:
        made[arc, b"composite", b"", 0, 0] = sign_parts(arc, b"composite")


def make(arc, a=0, b=0):
    level, name = TABLE[arc][:2]
    return L.Private(L.MLDSA.from_seed("ml-dsa-%d" % level, pq[level, a][0]), trad[name, b])


def m_prime(arc, message, ctx=b"", prefix=b"CompositeAlgorithmSignatures2025"):
    kind, label = TABLE[arc][3], b"COMPSIG-" + TABLE[arc][5].encode()
    digest = hashlib.shake_256(message).digest(64) if kind == "shake256" else hashlib.new(kind, message).digest()
    return prefix + label + bytes([len(ctx)]) + ctx + digest, label


def pads(arc):
    from cryptography.hazmat.primitives import hashes
    from cryptography.hazmat.primitives.asymmetric import ec, padding

    _, name, mode, _, inner, _ = TABLE[arc]
    h = getattr(hashes, inner.upper())() if inner else None
    if name.startswith("rsa"):
        if mode == "pss":
            return (padding.PSS(padding.MGF1(h), h.digest_size), h)
        return (padding.PKCS1v15(), h)
    return (ec.ECDSA(h),) if inner else ()


def sign_parts(arc, message, ctx=b"", a=0, b=0):
    """(ML-DSA signature, classical signature), made here."""
    if (arc, message, ctx, a, b) in made:
        return made[arc, message, ctx, a, b]
    level, name = TABLE[arc][:2]
    mp, label = m_prime(arc, message, ctx)
    first = ref.MLDSA("ml-dsa-%d" % level).sign(pq[level, a][2], ref.wrap(mp, label))
    return first, trad[name, b].sign(mp, *pads(arc))


def judge(arc, signature, message, ctx=b""):
    """Both components of `signature` hold for the first keys."""
    level, name = TABLE[arc][:2]
    mine = ref.MLDSA("ml-dsa-%d" % level)
    mp, label = m_prime(arc, message, ctx)
    require(mine.verify(pq[level, 0][1], ref.wrap(mp, label), signature[: mine.sig]), "ml-dsa-part:%d" % arc, "ctx %d" % len(ctx))
    try:
        trad[name, 0].public_key().verify(signature[mine.sig :], mp, *pads(arc))
    except Exception as exc:  # noqa: BLE001
        require(False, "classical-part:%d" % arc, repr(exc))


def alg_id(arc, params=None):
    from pyasn1.type import univ
    from pyasn1_alt_modules import rfc9480

    out = rfc9480.AlgorithmIdentifier()
    out["algorithm"] = univ.ObjectIdentifier(ARC % arc)
    if params is not None:
        out["parameters"] = univ.Any(params)
    return out


def pss(arc):
    return TABLE[arc][2] == "pss"


def accepts(arc, message, signature, ctx=b"", key=None, oid=None):
    """The verdicts of the ways in which a composite signature is verified: direct, by flag, by algorithm identifier."""
    key = key or make(arc).public_key()
    ways = [("direct", lambda: key.verify(data=message, signature=signature, ctx=ctx, use_pss=pss(arc)))]
    if not ctx:
        from resources import cryptoutils

        ways += [
            ("flag", lambda: cryptoutils.verify_signature(key, signature, message, use_rsa_pss=pss(arc))),
            ("alg-id", lambda: L.pu.verify_signature_with_alg_id(key, alg_id(oid or arc), message, signature)),
        ]
    out = {}
    for name, fn in ways:
        try:
            fn()
            out[name] = True
        except Exception:  # noqa: BLE001
            out[name] = False
    return out


def all_accept(out, sig, detail=""):
    require(all(out.values()), sig, "%s %s" % (detail, out))


def none_accept(out, sig, detail=""):
    require(not any(out.values()), sig, "%s %s" % (detail, out))


# -- cases -------------------------------------------------------------------------------------------
def sign_case(arc, m, c):
    message, ctx = MESSAGES[m], CONTEXTS[c]
    key = make(arc)
    sig = bytes(key.sign(data=message, ctx=ctx, use_pss=pss(arc)))
    judge(arc, sig, message, ctx)
    theirs = b"".join(sign_parts(arc, message, ctx))
    all_accept(accepts(arc, message, theirs, ctx), "refused:%d" % arc)
    none_accept(accepts(arc, message + b"x", theirs, ctx), "accepted:message:%d" % arc)
    other = ctx + b"\x00" if len(ctx) < 255 else ctx[:-1]
    none_accept(accepts(arc, message, theirs, other), "accepted:context:%d" % arc)
    if not ctx:
        signed = L.pu.sign_data_with_alg_id(key, alg_id(arc), message)
        judge(arc, bytes(signed), message)
        made = L.ids.prepare_sig_alg_id(key, use_rsa_pss=pss(arc))
        require(str(made["algorithm"]) == ARC % arc, "algorithm-identifier:%d" % arc, str(made["algorithm"]))
        require(not made["parameters"].isValue, "algorithm-parameters:%d" % arc, "")
        none = accepts(arc, message, theirs)
        all_accept(none, "refused:%d" % arc)
        for params in (bytes.fromhex("0500"), bytes.fromhex("3000")):
            try:
                L.pu.verify_signature_with_alg_id(key.public_key(), alg_id(arc, params), message, theirs)
            except Exception:  # noqa: BLE001
                continue
            require(False, "accepted:parameters:%d" % arc, params.hex())
    try:
        key.sign(data=message, ctx=bytes(256), use_pss=pss(arc))
    except Exception:  # noqa: BLE001
        return "signed"
    require(False, "signed-long-context:%d" % arc, "")


def bad_case(arc):
    """Everything which leaves one component out, or makes it for something else."""
    message = b"composite"
    one, two = sign_parts(arc, message)
    other_one, other_two = sign_parts(arc, message, a=1, b=1)
    wrong_one, wrong_two = sign_parts(arc, b"another message")
    level = TABLE[arc][0]
    mine = ref.MLDSA("ml-dsa-%d" % level)
    mp, label = m_prime(arc, message)
    sk = pq[level, 0][2]
    key2 = trad[TABLE[arc][1], 0]
    plain = lambda data, lab: mine.sign(sk, ref.wrap(data, lab))  # noqa: E731
    no_prefix = m_prime(arc, message, prefix=b"")[0]
    forged = {
        "pq-of-other-key": other_one + two, "classical-of-other-key": one + other_two, "both-of-other-keys": other_one + other_two,
        "pq-of-other-message": wrong_one + two, "classical-of-other-message": one + wrong_two,
        "no-pq": two, "no-classical": one, "empty": b"", "swapped": two + one, "zero-pq": bytes(len(one)) + two,
        "zero-classical": one + bytes(len(two)), "short": (one + two)[:-1], "long": one + two + b"\x00",
        "pq-twice": one + one, "gap": one + b"\x00" + two, "short-pq": one[:-1] + two,
        "pq-without-label": plain(mp, b"") + two, "pq-over-message": plain(message, b"") + two,
        "pq-over-message-with-label": plain(message, label) + two, "pq-without-prefix": plain(no_prefix, label) + two,
        "classical-over-message": one + key2.sign(message, *pads(arc)),
        "classical-without-prefix": one + key2.sign(no_prefix, *pads(arc)),
    }
    all_accept(accepts(arc, message, one + two), "refused:%d" % arc)
    for name, sig in forged.items():
        none_accept(accepts(arc, message, sig), "accepted:%s:%d" % (name, arc))
    keys = {"pq": make(arc, 1, 0), "classical": make(arc, 0, 1)}
    for name, key in keys.items():
        none_accept(accepts(arc, message, one + two, key=key.public_key()), "accepted:other-%s-key:%d" % (name, arc))
    return "forged"


def label_case(arc, other):
    """A signature made for one algorithm is refused as one of any other, with the same keys."""
    message = b"composite"
    out = []
    one, two = sign_parts(arc, message)
    # under the algorithm identifier of the other algorithm
    key = make(arc).public_key()
    try:
        L.pu.verify_signature_with_alg_id(key, alg_id(other), message, one + two)
        out.append("alg-id")
    except Exception:  # noqa: BLE001
        pass
    require(not out, "accepted:algorithm-identifier:%d" % arc, "as %d" % other)
    # components over the message as the other algorithm prepares it
    data, label = m_prime(other, message)
    level = TABLE[arc][0]
    mixed = ref.MLDSA("ml-dsa-%d" % level).sign(pq[level, 0][2], ref.wrap(data, label))
    none_accept(accepts(arc, message, mixed + two), "accepted:label-pq:%d" % arc, "of %d" % other)
    both = mixed + trad[TABLE[arc][1], 0].sign(data, *pads(arc))
    none_accept(accepts(arc, message, both), "accepted:label:%d" % arc, "of %d" % other)
    if TABLE[other][1].startswith("rsa") and TABLE[arc][1] == TABLE[other][1]:
        none_accept(accepts(arc, message, one + trad[TABLE[arc][1], 0].sign(m_prime(arc, message)[0], *pads(other))),
                    "accepted:padding:%d" % arc, "of %d" % other) if pads(other)[0].name != pads(arc)[0].name else None
    return "label"


def octet_case(arc, lo, hi):
    """Every octet of the classical part and of the ends of the ML-DSA part."""
    message = b"composite"
    one, two = sign_parts(arc, message)
    sig, n = one + two, len(one)
    key = make(arc).public_key()
    spots = list(range(0, 8)) + list(range(n - 8, n)) + list(range(n, len(sig)))
    for i in spots[lo:hi]:
        y = bytearray(sig)
        y[i] ^= 1 << (i % 8)
        try:
            key.verify(data=message, signature=bytes(y), use_pss=pss(arc))
        except Exception:  # noqa: BLE001
            continue
        require(False, "accepted:octet:%d" % arc, "octet %d of %d" % (i, len(sig)))
    return "octets"


def spki_case(arc):
    """The public key names its algorithm and is both public keys, one after the other; damaged ones are refused."""
    from pyasn1.codec.der import decoder, encoder
    from pyasn1_alt_modules import rfc5280

    key = make(arc)
    pub = key.public_key()
    spki = pub.to_spki(use_pss=pss(arc))
    data = encoder.encode(spki)
    node = der.parse(data)
    from mc import indep

    require(indep.oid(node[0][0]) == ARC % arc and len(node[0].kids) == 1, "spki-algorithm:%d" % arc, indep.oid(node[0][0]))
    level, name = TABLE[arc][:2]
    raw = node[1].data[1:]
    size = ref.DSA["ml-dsa-%d" % level]["pk"]
    require(raw[:size] == pq[level, 0][1], "spki-pq:%d" % arc, "")
    from cryptography.hazmat.primitives import serialization as s

    k = trad[name, 0].public_key()
    if name.startswith("rsa"):
        exp = k.public_bytes(s.Encoding.DER, s.PublicFormat.PKCS1)
    elif name.startswith("ed"):
        exp = k.public_bytes_raw()
    else:
        exp = k.public_bytes(s.Encoding.X962, s.PublicFormat.UncompressedPoint)
    require(raw[size:] == exp, "spki-classical:%d" % arc, "")
    loaded = L.ku.load_public_key_from_spki(decoder.decode(data, rfc5280.SubjectPublicKeyInfo())[0])
    message = b"composite"
    sig = b"".join(sign_parts(arc, message))
    all_accept(accepts(arc, message, sig, key=loaded), "refused-by-loaded:%d" % arc)
    from pyasn1.type import univ

    for what, bad in [("short", raw[:-1]), ("long", raw + b"\x00"), ("pq-only", raw[:size]), ("classical-only", raw[size:]),
                      ("swapped", raw[size:] + raw[:size]), ("empty", b"")]:
        broken = rfc5280.SubjectPublicKeyInfo()
        broken["algorithm"]["algorithm"] = univ.ObjectIdentifier(ARC % arc)
        broken["subjectPublicKey"] = univ.BitString.fromOctetString(bad)
        if what == "swapped" and name.startswith("ed"):
            continue  # any octets of that number are such a key
        try:
            L.ku.load_public_key_from_spki(broken)
        except Exception:  # noqa: BLE001
            continue
        require(False, "loaded-%s-key:%d" % (what, arc), "")
    for other in TABLE:
        if other == arc:
            continue
        wrong = rfc5280.SubjectPublicKeyInfo()
        wrong["algorithm"]["algorithm"] = univ.ObjectIdentifier(ARC % other)
        wrong["subjectPublicKey"] = univ.BitString.fromOctetString(raw)
        try:
            got = L.ku.load_public_key_from_spki(wrong)
        except Exception:  # noqa: BLE001
            continue
        require(TABLE[other][:2] == TABLE[arc][:2], "loaded-as-other:%d" % arc, "as %d: %s" % (other, got.name))
    return "spki"


def use_case(arc):
    """In a CSR, a certificate and a message, through the library's own builders and verifiers."""
    from resources import certbuildutils, certutils

    key = make(arc)
    flag = pss(arc)
    csr = certbuildutils.build_csr(key, common_name="CN=c", hash_alg=None, use_rsa_pss=flag, use_pre_hash=False)
    data = C.encode(csr)
    node = der.parse(data)
    from mc import indep

    require(indep.oid(node[1][0]) == ARC % arc, "csr-algorithm:%d" % arc, indep.oid(node[1][0]))
    judge(arc, node[2].data[1:], node[0].encode())
    certutils.verify_csr_signature(csr)
    cert, _ = certbuildutils.build_certificate(private_key=key, common_name="CN=c", use_rsa_pss=flag, spki=key.public_key().to_spki(use_pss=flag))
    node = der.parse(C.encode(cert))
    require(indep.oid(node[1][0]) == ARC % arc and node[1].encode() == node[0][2].encode(), "certificate-algorithm:%d" % arc, indep.oid(node[1][0]))
    judge(arc, node[2].data[1:], node[0].encode())
    certutils.verify_cert_signature(cert)
    data = C.encode(cert)
    bad = L.cu.parse_certificate(data[:-1] + bytes([data[-1] ^ 1]))
    try:
        certutils.verify_cert_signature(bad)
    except Exception:  # noqa: BLE001
        return "used"
    require(False, "accepted:certificate:%d" % arc, "")


def combination_case(level, name):
    """Combinations which the table does not define are refused; the others have their algorithm."""
    key = L.Private(L.MLDSA.from_seed("ml-dsa-%d" % level, pq[level, 0][0]), trad[name, 0])
    for flag in (False, True):
        if flag and not name.startswith("rsa"):
            continue
        row = [a for a, t in TABLE.items() if t[:2] == (level, name) and (t[2] == "pss") == flag]
        for what, fn in [
            ("oid", lambda: str(key.get_oid(use_pss=flag))),
            ("public-oid", lambda: str(key.public_key().get_oid(use_pss=flag))),
            ("sign", lambda: key.sign(b"m", use_pss=flag)),
            ("spki", lambda: key.public_key().to_spki(use_pss=flag)),
        ]:
            try:
                got = fn()
            except Exception as exc:  # noqa: BLE001
                require(not row, "unknown-combination:%s" % what, "%s %s %r" % (level, name, exc))
                continue
            require(bool(row), "undefined-combination:%s" % what, "%s %s pss=%s" % (level, name, flag))
            if "oid" in what:
                require(got == ARC % row[0], "wrong-algorithm:%s" % what, "%s, expected %d" % (got, row[0]))
    return "combination"


RUN = {"sign": sign_case, "bad": bad_case, "label": label_case, "octets": octet_case, "spki": spki_case, "use": use_case,
       "combination": combination_case}


def cases(quick):
    out = [["bad", a] for a in TABLE]
    for a in TABLE:
        combos = [(m, c) for m in range(len(MESSAGES)) for c in range(len(CONTEXTS))]
        out += [["sign", a, m, c] for m, c in (combos if not quick else [(2, 0), (0, 1), (3, 2)])]
        for b in TABLE:
            near = TABLE[a][:2] == TABLE[b][:2] or (TABLE[a][0] == 44 and TABLE[b][0] == 44) or b == (a - 36) % 18 + 37
            if a != b and (near or not quick):
                out.append(["label", a, b])
        if not quick or a in (38, 39, 40, 51):
            out += [["octets", a, lo, lo + 60] for lo in range(0, 600, 60)]
        out += [["spki", a], ["use", a]]
    out += [["combination", lv, n] for lv in (44, 65, 87) for n in sorted({t[1] for t in TABLE.values()})]
    return out


def run(case):
    return RUN[case[0]](*case[1:])


def explore(ctx):
    setup()
    ctx.rule = "18 algorithms; components present, absent, swapped, of other keys, messages, labels, contexts; M' recomputed"
    prepare()
    ctx.each(cases(ctx.quick), run)


def replay(ctx, case):
    setup()
    ctx.one(case, run)
