"""FIPS 203, 204 and 205 written down again from the standards: the oracle for the repository's own implementations.

Nothing here is shared with /repo: transforms are defined by their roots of unity, hashing is hashlib's.
"""

import hashlib
import hmac

# ------------------------------------------------------------------------------------------- common


def brv(x, bits):
    return int(format(x, "0%db" % bits)[::-1], 2)


def pack(values, width):
    """256 (or any number of) unsigned integers of `width` bits, least significant bit first."""
    acc = 0
    for i, v in enumerate(values):
        assert 0 <= v < 1 << width
        acc |= v << (i * width)
    return acc.to_bytes((len(values) * width + 7) // 8, "little")


def unpack(data, width, count=256):
    acc = int.from_bytes(data, "little")
    mask = (1 << width) - 1
    return [acc >> (i * width) & mask for i in range(count)]


class Stream:
    def __init__(self, xof, seed):
        self.xof, self.seed, self.pos, self.buf = xof, seed, 0, b""

    def take(self, n):
        while self.pos + n > len(self.buf):
            self.buf = self.xof(self.seed).digest(max(1024, 2 * len(self.buf)))
        self.pos += n
        return self.buf[self.pos - n : self.pos]


def H(data, n):
    return hashlib.shake_256(data).digest(n)


# ------------------------------------------------------------------------------------------ FIPS 204

Q = 8380417
ZETA = [pow(1753, brv(i, 8), Q) for i in range(256)]
DSA = {
    "ml-dsa-44": dict(tau=39, lam=128, g1=1 << 17, g2=(Q - 1) // 88, k=4, l=4, eta=2, omega=80, pk=1312, sk=2560, sig=2420),
    "ml-dsa-65": dict(tau=49, lam=192, g1=1 << 19, g2=(Q - 1) // 32, k=6, l=5, eta=4, omega=55, pk=1952, sk=4032, sig=3309),
    "ml-dsa-87": dict(tau=60, lam=256, g1=1 << 19, g2=(Q - 1) // 32, k=8, l=7, eta=2, omega=75, pk=2592, sk=4896, sig=4627),
}
DIGEST = {
    "sha256": ("608648016503040201", lambda m: hashlib.sha256(m).digest()),
    "sha512": ("608648016503040203", lambda m: hashlib.sha512(m).digest()),
    "shake128": ("60864801650304020b", lambda m: hashlib.shake_128(m).digest(32)),
    "shake256": ("60864801650304020c", lambda m: hashlib.shake_256(m).digest(64)),
}


def wrap(message, ctx=b"", pre=None):
    """M' of FIPS 204 and 205: pure, or with the message hashed by the algorithm named `pre`."""
    head = bytes([1 if pre else 0, len(ctx)]) + ctx
    if not pre:
        return head + message
    oid, digest = DIGEST[pre]
    oid = bytes.fromhex(oid)
    return head + bytes([6, len(oid)]) + oid + digest(message)


def centred(x, m):
    r = x % m
    return r - m if r > m // 2 else r


def power2round(r):
    r %= Q
    r0 = centred(r, 1 << 13)
    return (r - r0) >> 13, r0


def decompose(r, g2):
    r %= Q
    r0 = centred(r, 2 * g2)
    if r - r0 == Q - 1:
        return 0, r0 - 1
    return (r - r0) // (2 * g2), r0


def use_hint(h, r, g2):
    m = (Q - 1) // (2 * g2)
    r1, r0 = decompose(r, g2)
    if not h:
        return r1
    return (r1 + 1) % m if r0 > 0 else (r1 - 1) % m


def dsa_ntt(f):
    f = list(f)
    k, size = 0, 128
    while size:
        for start in range(0, 256, 2 * size):
            k += 1
            z = ZETA[k]
            for j in range(start, start + size):
                t = z * f[j + size] % Q
                f[j + size] = (f[j] - t) % Q
                f[j] = (f[j] + t) % Q
        size //= 2
    return f


def dsa_intt(f):
    f = list(f)
    k, size = 256, 1
    while size < 256:
        for start in range(0, 256, 2 * size):
            k -= 1
            z = Q - ZETA[k]
            for j in range(start, start + size):
                a, b = f[j], f[j + size]
                f[j] = (a + b) % Q
                f[j + size] = z * (a - b) % Q
        size *= 2
    inv = pow(256, -1, Q)
    return [x * inv % Q for x in f]


class MLDSA:
    def __init__(self, name):
        self.name = name
        for key, value in DSA[name].items():
            setattr(self, key, value)
        self.beta = self.tau * self.eta
        self.zbits = self.g1.bit_length()
        self.cbytes = self.lam // 4

    def matrix(self, rho):
        out = []
        for r in range(self.k):
            row = []
            for s in range(self.l):
                src, poly = Stream(hashlib.shake_128, rho + bytes([s, r])), []
                while len(poly) < 256:
                    v = int.from_bytes(src.take(3), "little") & 0x7FFFFF
                    if v < Q:
                        poly.append(v)
                row.append(poly)
            out.append(row)
        return out

    def bounded(self, seed):
        src, poly = Stream(hashlib.shake_256, seed), []
        while len(poly) < 256:
            b = src.take(1)[0]
            for n in (b & 15, b >> 4):
                if self.eta == 2 and n < 15:
                    poly.append(2 - n % 5)
                elif self.eta == 4 and n < 9:
                    poly.append(4 - n)
        return poly[:256]

    def times(self, a, v):
        """Rows of the matrix times a vector, both transformed; returns transformed polynomials."""
        out = []
        for row in a:
            acc = [0] * 256
            for p, w in zip(row, v):
                for i in range(256):
                    acc[i] += p[i] * w[i]
            out.append([x % Q for x in acc])
        return out

    def keygen(self, xi):
        h = H(xi + bytes([self.k, self.l]), 128)
        rho, rho2, kk = h[:32], h[32:96], h[96:]
        s1 = [self.bounded(rho2 + i.to_bytes(2, "little")) for i in range(self.l)]
        s2 = [self.bounded(rho2 + i.to_bytes(2, "little")) for i in range(self.l, self.l + self.k)]
        pk, t0 = self.public(rho, s1, s2)
        sk = rho + kk + H(pk, 64)
        bits = 3 if self.eta == 2 else 4
        for p in s1 + s2:
            sk += pack([self.eta - c for c in p], bits)
        for p in t0:
            sk += pack([4096 - c for c in p], 13)
        return pk, sk

    def public(self, rho, s1, s2):
        t = self.times(self.matrix(rho), [dsa_ntt(p) for p in s1])
        t = [[(a + b) % Q for a, b in zip(dsa_intt(p), e)] for p, e in zip(t, s2)]
        t = [[power2round(c) for c in p] for p in t]
        return rho + b"".join(pack([c[0] for c in p], 10) for p in t), [[c[1] for c in p] for p in t]

    def ball(self, seed):
        src = Stream(hashlib.shake_256, seed)
        signs = int.from_bytes(src.take(8), "little")
        c = [0] * 256
        for n, i in enumerate(range(256 - self.tau, 256)):
            j = src.take(1)[0]
            while j > i:
                j = src.take(1)[0]
            c[i] = c[j]
            c[j] = -1 if signs >> n & 1 else 1
        return c

    def short(self, z):
        return max(abs(c) for p in z for c in p) < self.g1 - self.beta

    def w1(self, w):
        width = 6 if self.g2 == (Q - 1) // 88 else 4
        return b"".join(pack(p, width) for p in w)

    def sign(self, sk, mp, rnd=bytes(32)):
        rho, kk, tr = sk[:32], sk[32:64], sk[64:128]
        bits = 3 if self.eta == 2 else 4
        pos, polys = 128, []
        for _ in range(self.l + self.k):
            polys.append([self.eta - c for c in unpack(sk[pos : pos + 32 * bits], bits)])
            pos += 32 * bits
        t0 = []
        for _ in range(self.k):
            t0.append([4096 - c for c in unpack(sk[pos : pos + 416], 13)])
            pos += 416
        s1, s2 = [dsa_ntt(p) for p in polys[: self.l]], [dsa_ntt(p) for p in polys[self.l :]]
        t0 = [dsa_ntt(p) for p in t0]
        a = self.matrix(rho)
        mu = H(tr + mp, 64)
        rho3 = H(kk + rnd + mu, 64)
        kappa = 0
        while True:
            y = []
            for i in range(self.l):
                v = H(rho3 + (kappa + i).to_bytes(2, "little"), 32 * self.zbits)
                y.append([self.g1 - c for c in unpack(v, self.zbits)])
            kappa += self.l
            w = [dsa_intt(p) for p in self.times(a, [dsa_ntt(p) for p in y])]
            ct = H(mu + self.w1([[decompose(c, self.g2)[0] for c in p] for p in w]), self.cbytes)
            ch = dsa_ntt(self.ball(ct))
            by = lambda p: dsa_intt([x * z % Q for x, z in zip(ch, p)])  # noqa: E731
            z = [[centred(b + c, Q) for b, c in zip(q, by(p))] for q, p in zip(y, s1)]
            if not self.short(z):
                continue
            rest = [[(b - c) % Q for b, c in zip(q, by(p))] for q, p in zip(w, s2)]
            if max(abs(decompose(c, self.g2)[1]) for p in rest for c in p) >= self.g2 - self.beta:
                continue
            ct0 = [[centred(c, Q) for c in by(p)] for p in t0]
            if max(abs(c) for p in ct0 for c in p) >= self.g2:
                continue
            hint = []
            for q, p in zip(rest, ct0):
                hint.append([int(decompose(r + c, self.g2)[0] != decompose(r, self.g2)[0]) for r, c in zip(q, p)])
            if sum(map(sum, hint)) > self.omega:
                continue
            return ct + b"".join(pack([self.g1 - c for c in p], self.zbits) for p in z) + self.pack_hint(hint)

    def pack_hint(self, hint):
        where, ends = [], []
        for p in hint:
            where += [i for i, b in enumerate(p) if b]
            ends.append(len(where))
        return bytes(where + [0] * (self.omega - len(where)) + ends)

    def unpack_hint(self, data):
        hint, at = [[0] * 256 for _ in range(self.k)], 0
        for i in range(self.k):
            end = data[self.omega + i]
            if end < at or end > self.omega:
                return None
            part = data[at:end]
            if any(a >= b for a, b in zip(part, part[1:])):
                return None
            for j in part:
                hint[i][j] = 1
            at = end
        return None if any(data[at : self.omega]) else hint

    def verify(self, pk, mp, sig):
        if len(pk) != self.pk or len(sig) != self.sig:
            return False
        ct, size = sig[: self.cbytes], 32 * self.zbits
        body = sig[self.cbytes :]
        z = [[self.g1 - c for c in unpack(body[i * size : (i + 1) * size], self.zbits)] for i in range(self.l)]
        hint = self.unpack_hint(body[self.l * size :])
        if hint is None or max(abs(c) for p in z for c in p) >= self.g1 - self.beta:
            return False
        t1 = [unpack(pk[32 + 320 * i : 352 + 320 * i], 10) for i in range(self.k)]
        mu = H(H(pk, 64) + mp, 64)
        ch = dsa_ntt(self.ball(ct))
        w = self.times(self.matrix(pk[:32]), [dsa_ntt(p) for p in z])
        out = []
        for p, t, h in zip(w, t1, hint):
            t = dsa_ntt([c << 13 for c in t])
            r = dsa_intt([(a - x * b) % Q for a, x, b in zip(p, ch, t)])
            out.append([use_hint(b, c, self.g2) for b, c in zip(h, r)])
        return ct == H(mu + self.w1(out), self.cbytes)


# ------------------------------------------------------------------------------------------ FIPS 203

P = 3329
ROOT = [pow(17, brv(i, 7), P) for i in range(128)]
PAIR = [pow(17, 2 * brv(i, 7) + 1, P) for i in range(128)]
KEM = {
    "ml-kem-512": dict(k=2, eta1=3, du=10, dv=4, ek=800, dk=1632, ct=768),
    "ml-kem-768": dict(k=3, eta1=2, du=10, dv=4, ek=1184, dk=2400, ct=1088),
    "ml-kem-1024": dict(k=4, eta1=2, du=11, dv=5, ek=1568, dk=3168, ct=1568),
}


def compress(d, x):
    """round(2^d/q * x) mod 2^d, halves up: from the definition, with exact fractions."""
    return ((2 * (x << d) + P) // (2 * P)) % (1 << d)


def decompress(d, y):
    return (2 * P * y + (1 << d)) // (2 << d)


def kem_ntt(f):
    f = list(f)
    i, size = 1, 128
    while size >= 2:
        for start in range(0, 256, 2 * size):
            z = ROOT[i]
            i += 1
            for j in range(start, start + size):
                t = z * f[j + size] % P
                f[j + size] = (f[j] - t) % P
                f[j] = (f[j] + t) % P
        size //= 2
    return f


def kem_intt(f):
    f = list(f)
    i, size = 127, 2
    while size <= 128:
        for start in range(0, 256, 2 * size):
            z = ROOT[i]
            i -= 1
            for j in range(start, start + size):
                t = f[j]
                f[j] = (t + f[j + size]) % P
                f[j + size] = z * (f[j + size] - t) % P
        size *= 2
    inv = pow(128, -1, P)
    return [x * inv % P for x in f]


def kem_mul(f, g):
    out = []
    for i in range(128):
        a0, a1, b0, b1 = f[2 * i], f[2 * i + 1], g[2 * i], g[2 * i + 1]
        out += [(a0 * b0 + a1 * b1 % P * PAIR[i]) % P, (a0 * b1 + a1 * b0) % P]
    return out


class MLKEM:
    def __init__(self, name):
        self.name = name
        for key, value in KEM[name].items():
            setattr(self, key, value)

    def poly(self, rho, j, i):
        src, out = Stream(hashlib.shake_128, rho + bytes([j, i])), []
        while len(out) < 256:
            v = int.from_bytes(src.take(3), "little")
            out += [d for d in (v & 0xFFF, v >> 12) if d < P]
        return out[:256]

    def noise(self, seed, n, eta):
        v = int.from_bytes(H(seed + bytes([n]), 64 * eta), "little")
        out = []
        for _ in range(256):
            out.append(((v & ((1 << eta) - 1)).bit_count() - (v >> eta & ((1 << eta) - 1)).bit_count()) % P)
            v >>= 2 * eta
        return out

    def keygen(self, d, z):
        h = hashlib.sha3_512(d + bytes([self.k])).digest()
        rho, sigma = h[:32], h[32:]
        s = [kem_ntt(self.noise(sigma, i, self.eta1)) for i in range(self.k)]
        t = [kem_ntt(self.noise(sigma, self.k + i, self.eta1)) for i in range(self.k)]
        for i in range(self.k):
            for j in range(self.k):
                t[i] = [(a + b) % P for a, b in zip(t[i], kem_mul(self.poly(rho, j, i), s[j]))]
        ek = b"".join(pack(p, 12) for p in t) + rho
        return ek, b"".join(pack(p, 12) for p in s) + ek + hashlib.sha3_256(ek).digest() + z

    def encrypt(self, ek, m, r):
        t = [[c % P for c in unpack(ek[384 * i : 384 * i + 384], 12)] for i in range(self.k)]
        rho = ek[384 * self.k :]
        y = [kem_ntt(self.noise(r, i, self.eta1)) for i in range(self.k)]
        out = b""
        for i in range(self.k):
            acc = [0] * 256
            for j in range(self.k):
                acc = [(a + b) % P for a, b in zip(acc, kem_mul(self.poly(rho, i, j), y[j]))]
            u = [(a + b) % P for a, b in zip(kem_intt(acc), self.noise(r, self.k + i, 2))]
            out += pack([compress(self.du, c) for c in u], self.du)
        acc = [0] * 256
        for i in range(self.k):
            acc = [(a + b) % P for a, b in zip(acc, kem_mul(t[i], y[i]))]
        mu = [decompress(1, b) for b in unpack(m, 1)]
        v = [(a + b + c) % P for a, b, c in zip(kem_intt(acc), self.noise(r, 2 * self.k, 2), mu)]
        return out + pack([compress(self.dv, c) for c in v], self.dv)

    def encaps(self, ek, m):
        h = hashlib.sha3_512(m + hashlib.sha3_256(ek).digest()).digest()
        return h[:32], self.encrypt(ek, m, h[32:])

    def decaps(self, dk, ct):
        k = self.k
        ek, h, z = dk[384 * k : 768 * k + 32], dk[768 * k + 32 : 768 * k + 64], dk[768 * k + 64 :]
        size = 32 * self.du
        acc = [0] * 256
        for i in range(k):
            u = kem_ntt([decompress(self.du, c) for c in unpack(ct[i * size : (i + 1) * size], self.du)])
            s = [c % P for c in unpack(dk[384 * i : 384 * i + 384], 12)]
            acc = [(a + b) % P for a, b in zip(acc, kem_mul(s, u))]
        v = [decompress(self.dv, c) for c in unpack(ct[k * size :], self.dv)]
        m = pack([compress(1, (a - b) % P) for a, b in zip(v, kem_intt(acc))], 1)
        g = hashlib.sha3_512(m + h).digest()
        return g[:32] if self.encrypt(ek, m, g[32:]) == ct else H(z + ct, 32)


# ------------------------------------------------------------------------------------------ FIPS 205

SETS = {
    "128s": (16, 63, 7, 12, 14, 30), "128f": (16, 66, 22, 6, 33, 34), "192s": (24, 63, 7, 14, 17, 39),
    "192f": (24, 66, 22, 8, 33, 42), "256s": (32, 64, 8, 14, 22, 47), "256f": (32, 68, 17, 9, 35, 49),
}


class SLHDSA:
    """Addresses are immutable tuples here: (layer, tree, type, word1, word2, word3)."""

    def __init__(self, name):
        kind, size = name.rsplit("-", 2)[1:]
        self.sha = kind == "sha2"
        self.n, self.h, self.d, self.a, self.k, self.m = SETS[size]
        self.hp = self.h // self.d
        self.len1, self.len2 = 2 * self.n, 3
        self.length = self.len1 + self.len2
        self.sig = (1 + self.k * (1 + self.a) + self.h + self.d * self.length) * self.n

    def f(self, seed, adrs, data, wide=False):
        layer, tree, kind, a, b, c = adrs
        words = b"".join(x.to_bytes(4, "big") for x in (a, b, c))
        if not self.sha:
            full = layer.to_bytes(4, "big") + tree.to_bytes(12, "big") + kind.to_bytes(4, "big") + words
            return H(seed + full + data, self.n)
        short = bytes([layer]) + tree.to_bytes(8, "big") + bytes([kind]) + words
        if wide and self.n > 16:
            return hashlib.sha512(seed + bytes(128 - self.n) + short + data).digest()[: self.n]
        return hashlib.sha256(seed + bytes(64 - self.n) + short + data).digest()[: self.n]

    def prf_msg(self, key, rand, m):
        if not self.sha:
            return H(key + rand + m, self.n)
        return hmac.new(key, rand + m, "sha256" if self.n == 16 else "sha512").digest()[: self.n]

    def h_msg(self, r, seed, root, m):
        if not self.sha:
            return H(r + seed + root + m, self.m)
        name = "sha256" if self.n == 16 else "sha512"
        base = r + seed + hashlib.new(name, r + seed + root + m).digest()
        out, i = b"", 0
        while len(out) < self.m:
            out += hashlib.new(name, base + i.to_bytes(4, "big")).digest()
            i += 1
        return out[: self.m]

    def digits(self, m):
        out = [d for b in m for d in (b >> 4, b & 15)]
        check = sum(15 - d for d in out)
        return out + [check >> 8 & 15, check >> 4 & 15, check & 15]

    def run(self, x, start, steps, seed, where, i):
        layer, tree, pair = where
        for j in range(start, start + steps):
            x = self.f(seed, (layer, tree, 0, pair, i, j), x)
        return x

    def secret(self, sk, seed, where, i):
        layer, tree, pair = where
        return self.f(seed, (layer, tree, 5, pair, i, 0), sk)

    def wots_pk(self, ends, seed, where):
        layer, tree, pair = where
        return self.f(seed, (layer, tree, 1, pair, 0, 0), b"".join(ends), True)

    def leaf(self, sk, seed, layer, tree, pair):
        where = (layer, tree, pair)
        return self.wots_pk([self.run(self.secret(sk, seed, where, i), 0, 15, seed, where, i) for i in range(self.length)], seed, where)

    def levels(self, sk, seed, layer, tree):
        rows = [[self.leaf(sk, seed, layer, tree, i) for i in range(1 << self.hp)]]
        for z in range(1, self.hp + 1):
            low = rows[-1]
            rows.append([self.f(seed, (layer, tree, 2, 0, z, i), low[2 * i] + low[2 * i + 1], True) for i in range(len(low) // 2)])
        return rows

    def keygen(self, sk, prf, seed):
        root = self.levels(sk, seed, self.d - 1, 0)[-1][0]
        return seed + root, sk + prf + seed + root

    def split(self, digest):
        cut = (self.k * self.a + 7) // 8
        top = self.h - self.hp
        tlen = (top + 7) // 8
        tree = int.from_bytes(digest[cut : cut + tlen], "big") & ((1 << top) - 1)
        leaf = int.from_bytes(digest[cut + tlen : cut + tlen + (self.hp + 7) // 8], "big") & ((1 << self.hp) - 1)
        bits = int.from_bytes(digest[:cut], "big")
        total = 8 * cut
        picks = [bits >> (total - self.a * (i + 1)) & ((1 << self.a) - 1) for i in range(self.k)]
        return picks, tree, leaf

    def sign(self, key, mp, rand=None):
        n = self.n
        sk, prf, seed, root = key[:n], key[n : 2 * n], key[2 * n : 3 * n], key[3 * n :]
        r = self.prf_msg(prf, seed if rand is None else rand, mp)
        picks, tree, leaf = self.split(self.h_msg(r, seed, root, mp))
        out, tops = [r], []
        for i, pick in enumerate(picks):
            base = i << self.a
            secrets = [self.f(seed, (0, tree, 6, leaf, 0, base + j), sk) for j in range(1 << self.a)]
            row = [self.f(seed, (0, tree, 3, leaf, 0, base + j), s) for j, s in enumerate(secrets)]
            out.append(secrets[pick])
            for z in range(1, self.a + 1):
                out.append(row[(pick >> (z - 1)) ^ 1])
                off = i << (self.a - z)
                row = [self.f(seed, (0, tree, 3, leaf, z, off + j), row[2 * j] + row[2 * j + 1], True) for j in range(len(row) // 2)]
            tops.append(row[0])
        m = self.f(seed, (0, tree, 4, leaf, 0, 0), b"".join(tops), True)
        for layer in range(self.d):
            where = (layer, tree, leaf)
            for i, d in enumerate(self.digits(m)):
                out.append(self.run(self.secret(sk, seed, where, i), 0, d, seed, where, i))
            rows = self.levels(sk, seed, layer, tree)
            out += [rows[z][(leaf >> z) ^ 1] for z in range(self.hp)]
            m = rows[-1][0]
            leaf, tree = tree & ((1 << self.hp) - 1), tree >> self.hp
        return b"".join(out)

    def verify(self, pk, mp, sig):
        n = self.n
        if len(pk) != 2 * n or len(sig) != self.sig:
            return False
        seed, root = pk[:n], pk[n:]
        parts = [sig[i : i + n] for i in range(0, len(sig), n)]
        r, parts = parts[0], parts[1:]
        picks, tree, leaf = self.split(self.h_msg(r, seed, root, mp))
        tops = []
        for i, pick in enumerate(picks):
            mine, parts = parts[: self.a + 1], parts[self.a + 1 :]
            at = (i << self.a) + pick
            node = self.f(seed, (0, tree, 3, leaf, 0, at), mine[0])
            for z in range(1, self.a + 1):
                pair = mine[z] + node if at & 1 else node + mine[z]
                at >>= 1
                node = self.f(seed, (0, tree, 3, leaf, z, at), pair, True)
            tops.append(node)
        m = self.f(seed, (0, tree, 4, leaf, 0, 0), b"".join(tops), True)
        for layer in range(self.d):
            where = (layer, tree, leaf)
            ends = [self.run(parts[i], d, 15 - d, seed, where, i) for i, d in enumerate(self.digits(m))]
            m = self.wots_pk(ends, seed, where)
            auth, parts = parts[self.length : self.length + self.hp], parts[self.length + self.hp :]
            at = leaf
            for z in range(1, self.hp + 1):
                pair = auth[z - 1] + m if at & 1 else m + auth[z - 1]
                at >>= 1
                m = self.f(seed, (layer, tree, 2, 0, z, at), pair, True)
            leaf, tree = tree & ((1 << self.hp) - 1), tree >> self.hp
        return m == root
