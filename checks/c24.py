"""C24: ML-DSA, ML-KEM and SLH-DSA compute what FIPS 204, 203 and 205 define."""

import hashlib

from mc import ref
from mc.core import require

CHUNK = 1 << 19
CTX = [b"", b"c", bytes(range(255))]
MSG = [b"", b"abc", b"\x00" * 33, bytes(range(256)) * 5]
SLH = ["slh-dsa-%s-%s" % (h, s) for h in ("sha2", "shake") for s in ("128f", "128s", "192f", "192s", "256f", "256s")]
PRE = {"ml-dsa-44": ["sha512"], "ml-dsa-65": ["sha512"], "ml-dsa-87": ["sha512"]}
L = None


class Libs:
    pass


def setup():
    global L
    if L:
        return
    L = Libs()
    from pq_logic.fips.fips203 import ML_KEM
    from pq_logic.fips.fips204 import ML_DSA
    from pq_logic.fips.fips205 import SLH_DSA_PARAMS
    from pq_logic.keys.kem_keys import MLKEMPrivateKey, MLKEMPublicKey
    from pq_logic.keys.sig_keys import MLDSAPrivateKey, MLDSAPublicKey, SLHDSAPrivateKey, SLHDSAPublicKey

    L.__dict__.update({k: v for k, v in locals().items() if k != "L"})
    for name in SLH:
        kind = name.rsplit("-", 2)[1]
        size = name.rsplit("-", 1)[1]
        if kind == "sha2":
            PRE[name] = ["sha256"] if size.startswith("128") else ["sha512"]
        else:
            PRE[name] = ["shake128"] if size.startswith("128") else ["shake256"]


def seed(*parts, n=32):
    return hashlib.shake_256(repr(parts).encode()).digest(n)


def probe(obj, name, *args):
    """A helper of the implementation, or None where it is not (any more) offered in this form."""
    fn = getattr(obj, name, None)
    if fn is None:
        return None
    try:
        fn(*args)
    except (TypeError, AttributeError):
        return None
    return fn


# -- arithmetic: the whole domain -------------------------------------------------------------------
def decompose_case(name, lo):
    impl = L.ML_DSA(name)
    g2 = ref.DSA[name]["g2"]
    fn = probe(impl, "decompose", 5)
    if fn is None:
        return "absent"
    hi = min(ref.Q, lo + CHUNK)
    exp = ref.decompose
    for r in range(lo, hi):
        if fn(r) != exp(r, g2):
            require(False, "decompose:" + name, "r=%d: %s, expected %s" % (r, fn(r), exp(r, g2)))
    return "decompose"


def power2round_case(lo):
    impl = L.ML_DSA("ml-dsa-44")
    fn = probe(impl, "power2round", [[5]])
    if fn is None:
        return "absent"
    hi = min(ref.Q, lo + CHUNK)
    r1, r0 = fn([list(range(lo, hi))])
    r1, r0 = r1[0], r0[0]
    for i, r in enumerate(range(lo, hi)):
        if (r1[i], r0[i]) != ref.power2round(r):
            require(False, "power2round", "r=%d: %s" % (r, (r1[i], r0[i])))
    return "power2round"


def hint_case(name, lo):
    """UseHint for every value and hint, and MakeHint at every boundary."""
    impl = L.ML_DSA(name)
    g2 = ref.DSA[name]["g2"]
    fn = probe(impl, "use_hint", [0] * 256, [5] * 256)
    if fn is None:
        return "absent"
    hi = min(ref.Q, lo + CHUNK)
    for h in (0, 1):
        for at in range(lo, hi, 256):
            vals = [min(at + i, ref.Q - 1) for i in range(256)]
            got = fn([h] * 256, vals)
            for r, g in zip(vals, got):
                if g != ref.use_hint(h, r, g2):
                    require(False, "use_hint:" + name, "h=%d r=%d: %s" % (h, r, g))
    return "use_hint"


def make_hint_case(name):
    impl = L.ML_DSA(name)
    g2 = ref.DSA[name]["g2"]
    fn = probe(impl, "make_hint", [[0]], [[5]])
    if fn is None:
        return "absent"
    edges = sorted({(m * g2 + d) % ref.Q for m in range(0, (ref.Q - 1) // g2 + 1) for d in (-1, 0, 1)})
    steps = [0, 1, ref.Q - 1, 2, g2, ref.Q - g2, g2 - 1, 2 * g2 - 1]
    for z in steps:
        got = fn([[z] * len(edges)], [edges])[0]
        for r, g in zip(edges, got):
            exp = int(ref.decompose(r, g2)[0] != ref.decompose(r + z, g2)[0])
            require(g == exp, "make_hint:" + name, "z=%d r=%d" % (z, r))
    return "make_hint"


def coeff_case(lo):
    """Rejection sampling of coefficients: every three bytes, every half byte."""
    for name in ("ml-dsa-44", "ml-dsa-65"):
        impl = L.ML_DSA(name)
        half = probe(impl, "coeff_from_half_byte", 3)
        if half and lo == 0:
            for b in range(16):
                if name == "ml-dsa-44":
                    exp = 2 - b % 5 if b < 15 else None
                else:
                    exp = 4 - b if b < 9 else None
                require(half(b) == exp, "half-byte:" + name, "b=%d: %s" % (b, half(b)))
    fn = probe(L.ML_DSA("ml-dsa-44"), "coeff_from_three_bytes", 1, 2, 3)
    if fn is None:
        return "absent"
    for v in range(lo, lo + CHUNK):
        w = v & 0x7FFFFF
        if fn(v & 255, v >> 8 & 255, v >> 16) != (w if w < ref.Q else None):
            require(False, "three-bytes", "v=%d" % v)
    return "coefficients"


def transform_case(which):
    """The transforms are linear: every basis vector, with coefficients 1 and q-1, and dense vectors."""
    if which == "ml-dsa":
        impl, q, f, g = L.ML_DSA("ml-dsa-44"), ref.Q, ref.dsa_ntt, ref.dsa_intt
    else:
        impl, q, f, g = L.ML_KEM("ml-kem-768"), ref.P, ref.kem_ntt, ref.kem_intt
    ntt, intt = probe(impl, "ntt", [0] * 256), probe(impl, "ntt_inverse", [0] * 256)
    if ntt is None or intt is None:
        return "absent"
    vectors = [[c if i == j else 0 for j in range(256)] for i in range(256) for c in (1, q - 1)]
    vectors += [[q - 1] * 256, [1] * 256, list(range(256)), [(i * 7919 * 7919) % q for i in range(256)]]
    for v in vectors:
        require([x % q for x in ntt(list(v))] == f(v), "ntt:" + which, str(v)[:80])
        require([x % q for x in intt(list(v))] == g(v), "ntt-inverse:" + which, str(v)[:80])
        require([x % q for x in intt(ntt(list(v)))] == [x % q for x in v], "ntt-roundtrip:" + which, "")
    if which == "ml-kem":
        mul = probe(impl, "multiply_ntts", [0] * 256, [0] * 256)
        if mul:
            for i in range(256):
                for j in (i, i ^ 1):
                    for c in (1, q - 1):
                        a, b = [0] * 256, [0] * 256
                        a[i], b[j] = c, q - 1
                        require([x % q for x in mul(a, b)] == ref.kem_mul(a, b), "multiply", "%d %d" % (i, j))
    return "transform"


def compress_case():
    impl = L.ML_KEM("ml-kem-768")
    com, dec = probe(impl, "compress", 4, [1]), probe(impl, "decompress", 4, [1])
    if com is None or dec is None:
        return "absent"
    for d in range(1, 12):
        got = com(d, list(range(ref.P)))
        for x, g in enumerate(got):
            require(g == ref.compress(d, x), "compress", "d=%d x=%d: %d" % (d, x, g))
        for y, g in enumerate(dec(d, list(range(1 << d)))):
            require(g == ref.decompress(d, y), "decompress", "d=%d y=%d: %d" % (d, y, g))
    return "compress"


def codec_case():
    """Packing: every position with the lowest, highest and a middle value, for every width in use."""
    kem = L.ML_KEM("ml-kem-768")
    enc, dec = probe(kem, "byte_encode", 1, [0] * 256), probe(kem, "byte_decode", 1, bytes(32))
    if enc and dec:
        for d in (1, 4, 5, 10, 11, 12):
            top = ref.P - 1 if d == 12 else (1 << d) - 1
            for i in range(256):
                for v in (1, top, top // 2 + 1):
                    f = [0] * 256
                    f[i] = v
                    require(bytes(enc(d, f)) == ref.pack(f, d), "byte-encode", "d=%d i=%d v=%d" % (d, i, v))
                    require(list(dec(d, ref.pack(f, d))) == f, "byte-decode", "d=%d i=%d v=%d" % (d, i, v))
        for v in range(4096):
            require(dec(12, ref.pack([v] * 256, 12))[255] == v % ref.P, "byte-decode-12", str(v))
    cbd = probe(kem, "sample_poly_cbd", 2, bytes(128))
    if cbd:
        for eta in (2, 3):
            for v in range(1 << (2 * eta)):
                bits = ref.pack([v] * 256, 2 * eta)
                exp = ((v & ((1 << eta) - 1)).bit_count() - (v >> eta).bit_count()) % ref.P
                require(set(cbd(eta, bits)) == {exp}, "cbd", "eta=%d v=%d" % (eta, v))
    dsa = L.ML_DSA("ml-dsa-44")
    fns = [probe(dsa, n, *a) for n, a in (("bit_pack", ([0] * 256, 2, 2)), ("bit_unpack", (bytes(96), 2, 2)))]
    if all(fns):
        for a, b in ((2, 2), (4, 4), (4095, 4096), ((1 << 17) - 1, 1 << 17), ((1 << 19) - 1, 1 << 19)):
            width = (a + b).bit_length()
            for i in range(256):
                for v in (-a, b, 1):
                    w = [0] * 256
                    w[i] = v
                    packed = ref.pack([b - x for x in w], width)
                    require(bytes(fns[0](w, a, b)) == packed, "bit-pack", "%d %d %d" % (b, i, v))
                    require(list(fns[1](packed, a, b)) == w, "bit-unpack", "%d %d %d" % (b, i, v))
    return "codec"


def hint_codec_case(name):
    """Every single octet of the hint encoding of a signature, with every value: the same verdict and value."""
    impl, mine = L.ML_DSA(name), ref.MLDSA(name)
    pk, sk = mine.keygen(seed(name))
    sig = mine.sign(sk, ref.wrap(b"hint"))
    hint = sig[-(mine.omega + mine.k) :]
    fn = probe(impl, "hint_bit_unpack", hint)
    if fn is None:
        return "absent"
    for i in range(len(hint)):
        for v in range(256):
            y = bytearray(hint)
            y[i] = v
            try:
                got = fn(bytes(y))
            except IndexError:
                got = "IndexError"
            require(got == mine.unpack_hint(bytes(y)), "hint-unpack:" + name, "octet %d value %d" % (i, v))
    pack = probe(impl, "hint_bit_pack", mine.unpack_hint(hint))
    require(pack is None or bytes(pack(mine.unpack_hint(hint))) == hint, "hint-pack:" + name, "")
    return "hint"


def wots_case(name):
    """The digits which WOTS signs: base 2^w with checksum, for every octet value at both ends and in the middle."""
    impl, mine = L.SLH_DSA_PARAMS[name], ref.SLHDSA(name)
    fn = probe(impl, "base_2b", bytes(32), 4, 8)
    if fn is None:
        return "absent"
    for b in range(1, 15):
        for v in range(256):
            data = bytes([v, 255 - v, v ^ 0x5A]) + seed(b, v, n=61)
            total, count = int.from_bytes(data, "big"), 512 // b
            exp = [total >> (512 - b * (i + 1)) & ((1 << b) - 1) for i in range(count)]
            require(list(fn(data, b, count)) == exp, "base_2b", "b=%d v=%d" % (b, v))
    split = probe(impl, "split_digest", bytes(mine.m))
    if split:
        for i in range(mine.m):
            for v in (0, 1, 2, 4, 8, 16, 32, 64, 128, 255):
                d = bytearray(mine.m)
                d[i] = v
                md, tree, leaf = split(bytes(d))
                picks, t, l = mine.split(bytes(d))
                require((list(fn(md, mine.a, mine.k)), tree, leaf) == (picks, t, l), "split-digest:" + name, "%d %d" % (i, v))
    return "digits"


# -- whole operations -------------------------------------------------------------------------------
def refused(fn, sig, detail):
    """`fn` must refuse by raising; anything returned is an acceptance."""
    try:
        fn()
    except Exception:  # noqa: BLE001
        return
    require(False, sig, detail)


def dsa_case(name, n):
    mine = ref.MLDSA(name)
    xi = seed(name, n)
    pk, sk = mine.keygen(xi)
    key = L.MLDSAPrivateKey.from_seed(name, xi)
    require(key.public_key().public_bytes_raw() == pk, "keygen-public:" + name, "seed %s" % xi.hex())
    require(key.private_bytes_raw() == sk, "keygen-private:" + name, "seed %s" % xi.hex())
    again = L.MLDSAPrivateKey.from_private_bytes(sk, name)
    require(again.public_key().public_bytes_raw() == pk, "derived-public:" + name, "")
    pub = L.MLDSAPublicKey.from_public_bytes(pk, name)
    m, ctx = MSG[n % len(MSG)], CTX[n % len(CTX)]
    for pre in [None] + PRE[name]:
        tag = name + (":" + pre if pre else "")
        mp = ref.wrap(m, ctx, pre)
        sig = bytes(key.sign(m, hash_alg=pre, ctx=ctx))
        require(mine.verify(pk, mp, sig), "signature-wrong:" + tag, "ctx %d" % len(ctx))
        theirs = mine.sign(sk, mp, seed("rnd", n))
        pub.verify(theirs, m, hash_alg=pre, ctx=ctx)
        if pre:
            pub.verify(theirs, ref.DIGEST[pre][1](m), hash_alg=pre, ctx=ctx, is_prehashed=True)
        others = [
            ("message", lambda: pub.verify(theirs, m + b"x", hash_alg=pre, ctx=ctx)),
            ("context", lambda: pub.verify(theirs, m, hash_alg=pre, ctx=ctx[:-1] if ctx else b"\x00")),
            ("moved", lambda: pub.verify(theirs, ctx[-1:] + m, hash_alg=pre, ctx=ctx[:-1]) if ctx else 1 / 0),
            ("mode", lambda: pub.verify(theirs, m, hash_alg=None if pre else PRE[name][0], ctx=ctx)),
            ("long-context", lambda: pub.verify(theirs, m, hash_alg=pre, ctx=bytes(256))),
            ("short", lambda: pub.verify(theirs[:-1], m, hash_alg=pre, ctx=ctx)),
            ("long", lambda: pub.verify(theirs + b"\x00", m, hash_alg=pre, ctx=ctx)),
            ("empty", lambda: pub.verify(b"", m, hash_alg=pre, ctx=ctx)),
        ]
        for what, fn in others:
            refused(fn, "accepted:%s:%s" % (tag, what), "")
    refused(lambda: key.sign(m, ctx=bytes(256)), "signed-long-context:" + name, "")
    return "ml-dsa"


class Loose(ref.MLDSA):
    """A signer which keeps only what the standard rejects: z with a coefficient just too large to be accepted."""

    def short(self, z):
        return max(abs(c) for p in z for c in p) >= self.g1 - self.beta


def norm_case(name, n):
    """Signatures which fulfil the equation but whose z is too large are refused."""
    mine = ref.MLDSA(name)
    pk, sk = mine.keygen(seed(name, "norm"))
    mp = ref.wrap(b"norm %d" % n)
    bad = Loose(name).sign(sk, mp)
    size = 32 * mine.zbits
    z = [abs(mine.g1 - c) for i in range(mine.l) for c in ref.unpack(bad[mine.cbytes + i * size :][:size], mine.zbits)]
    require(max(z) >= mine.g1 - mine.beta, "harness-norm", "not too large")
    pub = L.MLDSAPublicKey.from_public_bytes(pk, name)
    refused(lambda: pub.verify(bad, b"norm %d" % n), "accepted:%s:norm" % name, "largest coefficient %d" % max(z))
    return "norm"


def recodings(mine, hint, every):
    """Other octets for the same hint: a position twice, positions out of order, something behind the last one."""
    om = mine.omega
    ends = [0] + list(hint[om:])
    total = ends[-1]
    for row in range(mine.k):
        lo, hi = ends[row], ends[row + 1]
        for at in range(lo, hi) if every else {lo, hi - 1} & set(range(lo, hi)):
            if total < om:
                y = bytearray(hint[: at + 1] + hint[at:total] + bytes(om - total - 1) + hint[om:])
                for r in range(row, mine.k):
                    y[om + r] += 1
                yield "twice", bytes(y)
            if at + 1 < hi:
                y = bytearray(hint)
                y[at], y[at + 1] = y[at + 1], y[at]
                yield "order", bytes(y)
    for at in range(total, om) if every else {total, om - 1} & set(range(total, om)):
        y = bytearray(hint)
        y[at] = 1
        yield "behind", bytes(y)
    if total < om:
        y = bytearray(hint)
        y[om + mine.k - 1] = om + 1
        yield "count", bytes(y)


def recode_case(name, every):
    mine = ref.MLDSA(name)
    pk, sk = mine.keygen(seed(name, "recode"))
    pub = L.MLDSAPublicKey.from_public_bytes(pk, name)
    for n in range(8):
        m = b"recode %d" % n
        sig = mine.sign(sk, ref.wrap(m))
        size = mine.omega + mine.k
        if sig[-1] < mine.omega:
            break
    done = 0
    for what, hint in recodings(mine, sig[-size:], every):
        done += 1
        refused(lambda: pub.verify(sig[:-size] + hint, m), "accepted:%s:hint-%s" % (name, what), hint.hex())
    require(done > 8, "harness-recode", str(done))
    return "recoded"


def dsa_octets(name, lo, hi, step):
    """Every octet of the signature, changed: refused."""
    mine = ref.MLDSA(name)
    pk, sk = mine.keygen(seed(name, "octets"))
    m = b"octets"
    sig = mine.sign(sk, ref.wrap(m))
    pub = L.MLDSAPublicKey.from_public_bytes(pk, name)
    pub.verify(sig, m)
    for i in range(lo, min(hi, len(sig)), step):
        y = bytearray(sig)
        y[i] ^= 1 << (i % 8)
        refused(lambda: pub.verify(bytes(y), m), "accepted:%s:octet" % name, "octet %d" % i)
    return "octets"


def kem_case(name, n):
    mine = ref.MLKEM(name)
    d, z = seed(name, n, "d"), seed(name, n, "z")
    ek, dk = mine.keygen(d, z)
    key = L.MLKEMPrivateKey.from_seed(name, d + z)
    require(key.public_key().public_bytes_raw() == ek, "keygen-public:" + name, "")
    require(key.private_bytes_raw() == dk, "keygen-private:" + name, "")
    key2 = L.MLKEMPrivateKey.from_private_bytes(dk, name)
    require(key2.public_key().public_bytes_raw() == ek, "derived-public:" + name, "")
    pub = L.MLKEMPublicKey.from_public_bytes(ek, name)
    ss, ct = pub.encaps()
    require(len(ct) == mine.ct, "ciphertext-length:" + name, str(len(ct)))
    require(mine.decaps(dk, bytes(ct)) == bytes(ss), "encaps:" + name, "")
    fn = probe(L.ML_KEM(name), "encaps_internal", ek, d)
    if fn:
        got = fn(ek, z)
        require((bytes(got[0]), bytes(got[1])) == mine.encaps(ek, z), "encaps-internal:" + name, "")
    ss, ct = mine.encaps(ek, seed("m", n))
    for k in (key, key2):
        require(bytes(k.decaps(ct)) == ss, "decaps:" + name, "")
    for what, bad in (("short", ct[:-1]), ("long", ct + b"\x00"), ("empty", b"")):
        try:
            got = bytes(key.decaps(bad))
        except Exception:  # noqa: BLE001
            continue
        require(got != ss, "decaps-%s:%s" % (what, name), "")
    return "ml-kem"


def kem_octets(name, lo, hi, step):
    """Every octet of the ciphertext, changed: the implicit rejection secret, exactly."""
    mine = ref.MLKEM(name)
    ek, dk = mine.keygen(seed(name, "a"), seed(name, "b"))
    ss, ct = mine.encaps(ek, seed(name, "c"))
    key = L.MLKEMPrivateKey.from_private_bytes(dk, name)
    for i in range(lo, min(hi, len(ct)), step):
        y = bytearray(ct)
        y[i] ^= 1 << (i % 8)
        got = bytes(key.decaps(bytes(y)))
        require(got != ss, "accepted:%s:octet" % name, "octet %d" % i)
        require(got == ref.H(dk[-32:] + bytes(y), 32), "implicit-rejection:" + name, "octet %d" % i)
    return "octets"


def slh_case(name, sign):
    mine = ref.SLHDSA(name)
    n = mine.n
    s = seed(name, n=3 * n)
    pk, sk = mine.keygen(s[:n], s[n : 2 * n], s[2 * n :])
    key = L.SLHDSAPrivateKey.from_seed(name, s)
    require(key.public_key().public_bytes_raw() == pk, "keygen-public:" + name, "")
    require(key.private_bytes_raw() == sk, "keygen-private:" + name, "")
    pub = L.SLHDSAPublicKey.from_public_bytes(pk, name)
    if sign == "keygen":
        return "slh-dsa"
    pre = None if sign == "pure" else PRE[name][0]
    tag = name + (":" + pre if pre else "")
    for i, ctx in enumerate(CTX if not name.endswith("s") else CTX[1:2]):
        m = MSG[i]
        mp = ref.wrap(m, ctx, pre)
        sig = bytes(key.sign(m, hash_alg=pre, ctx=ctx))
        require(mine.verify(pk, mp, sig), "signature-wrong:" + tag, "ctx %d" % len(ctx))
        require(bytes(sig) == mine.sign(sk, mp), "signature-differs:" + tag, "ctx %d" % len(ctx))
        theirs = mine.sign(sk, mp, seed("rnd", n=n))
        pub.verify(theirs, m, hash_alg=pre, ctx=ctx)
        if pre:
            pub.verify(theirs, ref.DIGEST[pre][1](m), hash_alg=pre, ctx=ctx, is_prehashed=True)
        for what, fn in [
            ("message", lambda: pub.verify(theirs, m + b"x", hash_alg=pre, ctx=ctx)),
            ("context", lambda: pub.verify(theirs, m, hash_alg=pre, ctx=ctx[:-1] if ctx else b"\x00")),
            ("moved", lambda: pub.verify(theirs, ctx[-1:] + m, hash_alg=pre, ctx=ctx[:-1]) if ctx else 1 / 0),
            ("mode", lambda: pub.verify(theirs, m, hash_alg=None if pre else PRE[name][0], ctx=ctx)),
            ("long-context", lambda: pub.verify(theirs, m, hash_alg=pre, ctx=bytes(256))),
            ("short", lambda: pub.verify(theirs[:-1], m, hash_alg=pre, ctx=ctx)),
            ("long", lambda: pub.verify(theirs + b"\x00", m, hash_alg=pre, ctx=ctx)),
            ("empty", lambda: pub.verify(b"", m, hash_alg=pre, ctx=ctx)),
        ]:
            refused(fn, "accepted:%s:%s" % (tag, what), "")
    return "slh-dsa"


def slh_octets(name, part, parts, step):
    """One octet of every n-octet value of the signature, changed: refused."""
    mine = ref.SLHDSA(name)
    n = mine.n
    s = seed(name, "octets", n=3 * n)
    pk, sk = mine.keygen(s[:n], s[n : 2 * n], s[2 * n :])
    m = b"octets"
    sig = mine.sign(sk, ref.wrap(m))
    pub = L.SLHDSAPublicKey.from_public_bytes(pk, name)
    pub.verify(sig, m)
    for i in range(part * n * step, len(sig), n * parts * step):
        y = bytearray(sig)
        at = i + (i // n) % n
        y[at] ^= 1 << (i // n % 8)
        refused(lambda: pub.verify(bytes(y), m), "accepted:%s:octet" % name, "octet %d" % at)
    return "octets"


RUN = {
    "decompose": decompose_case, "power2round": power2round_case, "use_hint": hint_case, "make_hint": make_hint_case,
    "coeff": coeff_case, "transform": transform_case, "compress": compress_case, "codec": codec_case,
    "hint-codec": hint_codec_case, "wots": wots_case, "dsa": dsa_case, "norm": norm_case, "recode": recode_case, "dsa-octets": dsa_octets,
    "kem": kem_case, "kem-octets": kem_octets, "slh": slh_case, "slh-octets": slh_octets,
}


def cases(quick):
    out = []
    seeds = {"ml-dsa-44": 12, "ml-dsa-65": 6, "ml-dsa-87": 4} if quick else {}
    for name in SLH:
        if name.endswith("s"):
            out.append(["slh", name, "pure" if name.endswith("128s") or not quick else "keygen"])
            if not quick:
                out.append(["slh", name, "hashed"])
        else:
            out += [["slh", name, "pure"]]
            if not quick or "128" in name or name.endswith("sha2-192f"):
                out += [["slh", name, "hashed"]]
    for lo in range(0, ref.Q, CHUNK):
        out.append(["power2round", lo])
        for name in ("ml-dsa-44", "ml-dsa-87"):
            out.append(["decompose", name, lo])
            if not quick or name == "ml-dsa-44" and lo % (4 * CHUNK) == 0:
                out.append(["use_hint", name, lo])
    for lo in range(0, 1 << 24, CHUNK):
        if not quick or lo == 0 or lo in (ref.Q // CHUNK * CHUNK, (ref.Q + (1 << 23)) // CHUNK * CHUNK, (1 << 24) - CHUNK):
            out.append(["coeff", lo])
    for name in SLH:
        if name.endswith("f") or not quick:
            for part in range(4):
                out.append(["slh-octets", name, part, 4, 32 if quick else 1])
    for name in ref.DSA:
        step = {"ml-dsa-44": 6, "ml-dsa-65": 23, "ml-dsa-87": 53}[name] if quick else 1
        for lo in range(0, ref.DSA[name]["sig"], 400):
            out.append(["dsa-octets", name, lo, lo + 400, step])
        out += [["make_hint", name], ["hint-codec", name], ["norm", name, 0], ["norm", name, 1], ["recode", name, True]]
        out += [["dsa", name, n] for n in range(seeds.get(name, 200))]
    for name in ref.KEM:
        step = {"ml-kem-512": 3, "ml-kem-768": 7, "ml-kem-1024": 11}[name] if quick else 1
        for lo in range(0, ref.KEM[name]["ct"], 200):
            out.append(["kem-octets", name, lo, lo + 200, step])
        out += [["kem", name, n] for n in range(16 if quick else 400)]
    out += [["transform", "ml-dsa"], ["transform", "ml-kem"], ["compress"], ["codec"]]
    out += [["wots", name] for name in SLH]
    return out


def run(case):
    return RUN[case[0]](*case[1:])


def explore(ctx):
    setup()
    cs = cases(ctx.quick)
    ctx.rule = "rounding, packing and sampling helpers over their whole domains; keys, signatures and ciphertexts against mc/ref.py"
    ctx.coverage["domain"] = {"Z_q of ML-DSA": ref.Q, "Z_q of ML-KEM": ref.P}
    ctx.each(cs, run)


def replay(ctx, case):
    setup()
    ctx.one(case, run)
