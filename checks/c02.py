"""C02: a certificate confirmation takes effect exactly once and only for the right transaction."""

import os

from mc import ca as C, der
from mc.core import require
from mc.life import Life

# Each of these must be refused and must leave the transaction open.
PLAIN_BAD = [
    "hash-flip",
    "hash-empty",
    "hash-other-alg-0",
    "hash-other-alg-1",
    "hashalg-mismatch",
    "hash-of-other",
    "reqid-1",
    "two-entries",
    "no-entry",
    "waiting",
    "accepted-failinfo",
    "tx-random",
    "tx-of-other",
    "tx-missing",
    "recip-flip",
    "recip-missing",
    "recip-of-other",
    "sender-nonce-missing",
    "sender-nonce-short",
    "sender-nonce-reused",
    "protection-flip",
    "unprotected",
    "body-swapped",
    "nonce-changed-after-protection",
    "other-protection-kind",
    "other-signer",
    "wrong-secret",
    "other-mac",
]

# With two transactions, quick explores the ways of mixing them up.
CROSS = ["hash-of-other", "tx-of-other", "recip-of-other", "other-protection-kind", "other-signer", "body-swapped"]


class World(Life):
    max_certs = 4
    probe_crl = False
    probe_genm = False

    def __init__(self, ctx):
        super().__init__(ctx)
        self.last = None
        self.sent = {}  # accepted confirmations, by certificate
        super().apply(["ir", None, 1])
        super().apply(["ir", None, 1])
        self.base = 2

    def canon(self):
        return (self.ref.canon(), self.last, tuple(sorted(self.sent)))

    def opened(self):
        return [i for i, c in enumerate(self.ref.certs) if c["open"]]

    def apply(self, ev):
        self.last = None
        if ev[0] == "bad":
            return self.bad(ev[1], ev[2])
        if ev[0] == "replay":
            ans = self.exchange(self.sent[ev[1]], "replay")
            require(not self.granted(ans, "pkiconf"), "granted:replayed certConf", "certificate %d" % ev[1])
            self.probe("replay")
            return "replay %s" % self.ref.certs[ev[1]]["state"]
        if ev[0] == "conf" and self.ref.certs[ev[1]]["open"]:
            i, how = ev[1], ev[2]
            label = self.op_label(ev, self.ref.canon())
            must = self.ref.confirm(i, reject=how == "reject")
            msg = self.craft(i, how)
            ans = self.exchange(msg, label)
            if self.expect(ans, "pkiconf", must, label):
                self.sent[i] = msg
            self.probe(label)
            return label
        return super().apply(ev)

    def craft(self, i, how):
        """A certConf for certificate i: correct ("ok"), refusing ("reject") or wrong in one way."""
        cm = self.L.cm
        by = self.ref.certs[i]["by"]
        others = [j for j in range(self.base, len(self.real)) if j != i]
        kw = {}
        req_id = 0
        cert_der = C.encode(self.real[i]["cert"])
        import hashlib

        args = dict(sender=C.SENDER, for_mac=True)
        if by is not None:
            args["exclude_fields"] = "senderKID"
        ref = der.Pki(C.encode(cm.build_cert_conf_from_resp(self.real[i]["answer"], **args)))
        good_hash = ref.body[0][0][0].data
        digests = [getattr(hashlib, a)(cert_der).digest() for a in ("sha256", "sha384", "sha512")]
        require(good_hash in digests, "library-cert-hash", good_hash.hex())
        wrong_alg = [d for d in digests if d != good_hash]
        if how == "reject":
            kw["status_info"] = self.reject_status()
        elif how == "hash-flip":
            kw["cert_hash"] = bytes([good_hash[0] ^ 1]) + good_hash[1:]
        elif how == "hash-empty":
            pass
        elif how in ("hash-other-alg-0", "hash-other-alg-1"):
            kw["cert_hash"] = wrong_alg[int(how[-1])]
        elif how == "hashalg-mismatch":
            kw.update(cert_hash=good_hash, hash_alg="sha384" if len(good_hash) != 48 else "sha256", pvno=3)
        elif how == "hash-of-other":
            j = others[0] if others else 0
            kw["cert_hash"] = getattr(hashlib, "sha%d" % (8 * len(good_hash)))(C.encode(self.real[j]["cert"])).digest()
        elif how == "reqid-1":
            kw["cert_req_id"] = 1
        elif how == "two-entries":
            one = cm.prepare_certstatus(cert_hash=good_hash, cert_req_id=0, status="accepted")
            kw["cert_status"] = [one, one]
        elif how == "waiting":
            kw["status_info"] = cm.prepare_pkistatusinfo(status="waiting")
        elif how == "accepted-failinfo":
            kw["status_info"] = cm.prepare_pkistatusinfo(status="accepted", failinfo="badRequest")
        msg = cm.build_cert_conf_from_resp(self.real[i]["answer"], **args, **kw)
        p = der.Pki(C.encode(msg))
        fields = lambda j: der.Pki(C.encode(self.real[j]["answer"]))  # noqa: E731
        if how == "no-entry":
            p.body[0].kids = []
        elif how == "hash-empty":
            p.body[0][0][0].data = b""
        elif how == "tx-random":
            p.set_octets("transactionID", os.urandom(16))
        elif how == "tx-of-other":
            j = others[0] if others else 0
            p.set_octets("transactionID", fields(j).octets("transactionID"))
        elif how == "tx-missing":
            p.set_octets("transactionID", None)
        elif how == "recip-flip":
            v = p.octets("recipNonce")
            p.set_octets("recipNonce", v[:-1] + bytes([v[-1] ^ 1]))
        elif how == "recip-missing":
            p.set_octets("recipNonce", None)
        elif how == "recip-of-other":
            j = others[0] if others else 0
            p.set_octets("recipNonce", fields(j).octets("senderNonce"))
        elif how == "sender-nonce-missing":
            p.set_octets("senderNonce", None)
        elif how == "sender-nonce-short":
            p.set_octets("senderNonce", os.urandom(12))
        elif how == "sender-nonce-reused":
            p.set_octets("senderNonce", fields(i).octets("recipNonce"))
        m = cm.parse_pkimessage(p.encode())
        if how == "other-protection-kind":
            if by is None:
                m = self.L.pu.protect_pkimessage(
                    m, "signature", private_key=self.real[1]["key"], cert=self.real[1]["cert"]
                )
            else:
                m = self.mac(m)
        elif how == "other-signer":
            signer = 1 if by != 1 else 0
            m = self.L.pu.protect_pkimessage(
                m, "signature", private_key=self.real[signer]["key"], cert=self.real[signer]["cert"]
            )
        elif how == "wrong-secret":
            m = self.mac(m, secret="SiemensIt")
        elif how == "other-mac":
            m = self.mac(m, alg="pbmac1")
        elif by is None:
            m = self.mac(m)
        else:
            m = self.sign(m, by)
        q = der.Pki(C.encode(m))
        if how == "protection-flip":
            q.flip_protection(0 if by is None else 8)
        elif how == "unprotected":
            q.drop_protection()
        elif how == "body-swapped":
            # the body of a refusal under the protection of a confirmation
            alt = cm.build_cert_conf_from_resp(self.real[i]["answer"], status_info=self.reject_status(), **args)
            q.top.kids[1] = der.parse(C.encode(alt))[1]
        elif how == "nonce-changed-after-protection":
            q.set_octets("senderNonce", os.urandom(16))
        return q.encode()

    def bad(self, i, how):
        by = self.ref.certs[i]["by"]
        label = "bad %s for %s" % (how, "MAC" if by is None else "signature")
        ans = self.exchange(self.craft(i, how), label)
        require(not self.granted(ans, "pkiconf"), "granted:certConf " + how, "for certificate %d, requested by %s" % (i, by))
        self.probe(label)
        self.last = (i, how)
        return label

    def events(self, depth):
        n = len(self.ref.certs)
        out = []
        for i in self.opened():
            out += [["conf", i, "ok"], ["conf", i, "reject"]]
        if self.last:
            return out
        if n < self.max_certs:
            out += [["ir", None, 0], ["cr", 0, 0], ["p10cr", 0, 0], ["kur", 0, 0]]
        for i in self.opened():
            by = self.ref.certs[i]["by"]
            for how in PLAIN_BAD if n == self.base + 1 or not self.ctx.quick else CROSS:
                if (how in ("wrong-secret", "other-mac") and by is not None) or (how == "other-signer" and by is None):
                    continue
                if how.endswith("-of-other") and n == self.base + 1 and how != "hash-of-other":
                    continue
                out.append(["bad", i, how])
        out += [["replay", i] for i in sorted(self.sent)]
        return out


def explore(ctx):
    ctx.dfs(lambda: World(ctx), depth=4 if ctx.quick else 6, plain_depth=1)


def replay(ctx, case):
    ctx.replay_history(World(ctx), case["history"])
