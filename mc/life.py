"""Certificate life cycle: a boring reference model and the world that drives the real CA beside it.

Certificates are numbered in the order in which they are issued.  Reference states of a certificate:
  PEND  issued, not yet confirmed by the client
  OK    confirmed (or implicitly confirmed, or revived)
  UPEND superseded by a key update that is not confirmed yet
  UPD   superseded by a confirmed key update
  REV   revoked
  REJ   the client refused it in certConf
"""

from mc import bootstrap, ca as C
from mc.core import Violated, require

TIMEOUT = 10  # seconds an unconfirmed key update blocks the old certificate
OCSP = {"PEND": "unauthorized", "REJ": "unauthorized", "OK": "good", "UPEND": "revoked", "UPD": "revoked", "REV": "revoked"}


class Ref:
    """The reference model. step() returns True (must be granted), False (must be refused)."""

    def __init__(self):
        self.certs = []  # dicts: state, by (requesting cert or None), kind, since (update time), open (tx open)
        self.now = 0

    def canon(self):
        out = []
        for c in self.certs:
            since = None
            if c["state"] == "UPEND":
                since = min(self.now - c["since"], TIMEOUT + 1)
            out.append((c["state"], c["by"], c["kind"], c["open"], since))
        return tuple(out)

    def issue(self, kind, by, imp):
        self.certs.append(
            {"state": "OK" if imp else "PEND", "by": by, "kind": kind, "since": None, "open": not imp}
        )

    def may_request(self, i):
        return i is None or self.certs[i]["state"] == "OK"

    def enrol(self, kind, by, imp):
        if not self.may_request(by):
            return False
        self.issue(kind, by, imp)
        return True

    def kur(self, i, imp):
        c = self.certs[i]
        if c["state"] == "UPEND":
            if self.now - c["since"] < TIMEOUT:
                return False
        elif c["state"] != "OK":
            return False
        c["state"] = "UPD" if imp else "UPEND"
        c["since"] = self.now
        self.issue("kur", i, imp)
        return True

    def may_confirm(self, i):
        """Whether the transaction that issued certificate i can still be finished by its owner."""
        c = self.certs[i]
        if not c["open"]:
            return False
        if c["by"] is not None:
            r = self.certs[c["by"]]
            if r["state"] == "UPEND":
                if self.now - r["since"] > TIMEOUT:
                    return False
            elif r["state"] != "OK":
                return False
        return True

    def confirm(self, i, reject=False):
        if not self.may_confirm(i):
            return False
        c = self.certs[i]
        c["open"] = False
        if reject:
            c["state"] = "REJ"
            return True
        c["state"] = "OK"
        if c["kind"] == "kur":
            self.certs[c["by"]]["state"] = "UPD"
        return True

    def rr(self, i, j, remove):
        s, t = self.certs[i], self.certs[j]
        if s["state"] == "REV":
            if not (remove and i == j):
                return False
            s["state"] = "OK"
            return True
        if s["state"] != "OK":
            return False
        if remove:
            if t["state"] != "REV":
                return False
            t["state"] = "OK"
            return True
        if t["state"] != "OK":
            return False
        t["state"] = "REV"
        return True


class Life:
    """The real CA driven beside the reference model."""

    max_certs = 3
    max_keys = 8
    probe_crl = True
    probe_genm = True
    MAC = "password_based_mac"

    def __init__(self, ctx, **config):
        self.ctx = ctx
        self.L = C.lib()
        bootstrap.set_now(bootstrap.EPOCH)
        self.ca = C.CA(**config)
        self.issuer = C.encode(self.ca.handler.ca_cert)
        self.ref = Ref()
        self.keys = [self.L.ku.generate_key("ecc") for _ in range(self.max_keys)]
        self.real = []  # per certificate: cert, key, answer (CA response message)
        self.used = 0
        self.crl_number = 0
        self.dead = False

    # -- messages --------------------------------------------------------------------------
    def mac(self, msg, secret=C.SECRET, alg=None):
        return self.L.pu.protect_pkimessage(msg, alg or self.MAC, password=secret)

    def sign(self, msg, i):
        r = self.real[i]
        return self.L.pu.protect_pkimessage(msg, "signature", private_key=r["key"], cert=r["cert"])

    def next_key(self):
        k = self.keys[self.used]
        self.used += 1
        return k

    def build_request(self, kind, by, imp, key, **kw):
        cm = self.L.cm
        if by is None:
            args = dict(sender=C.SENDER, for_mac=True)
        else:
            args = dict(exclude_fields="sender,senderKID")
        args.update(kw)
        if kind == "ir":
            m = cm.build_ir_from_key(key, common_name=C.EE, implicit_confirm=bool(imp), **args)
        elif kind == "cr":
            m = cm.build_cr_from_key(key, common_name=C.EE, implicit_confirm=bool(imp), **args)
        elif kind == "p10cr":
            m = cm.build_p10cr_from_key(key, common_name=C.EE, implicit_confirm=bool(imp), **args)
        elif kind == "kur":
            m = cm.build_key_update_request(key, implicit_confirm=bool(imp), **args)
        else:
            raise ValueError(kind)
        return self.mac(m) if by is None else self.sign(m, by)

    def build_conf(self, i, **kw):
        by = self.ref.certs[i]["by"]
        if by is None:
            m = self.L.cm.build_cert_conf_from_resp(self.real[i]["answer"], sender=C.SENDER, for_mac=True, **kw)
            return self.mac(m)
        m = self.L.cm.build_cert_conf_from_resp(self.real[i]["answer"], exclude_fields="sender,senderKID", **kw)
        return self.sign(m, by)

    def build_rr(self, i, j, reason):
        m = self.L.cm.build_cmp_revoke_request(
            cert=self.real[j]["cert"], reason=reason, exclude_fields="sender,senderKID"
        )
        return self.sign(m, i)

    # -- exchange --------------------------------------------------------------------------
    def exchange(self, msg, name, path="/issuing"):
        try:
            return self.ca.send(msg, path)
        except C.HttpFailure as exc:
            raise Violated("internal-error:%s" % name, str(exc)) from exc

    @staticmethod
    def granted(answer, want):
        name, st, fi = C.status_of(answer)
        return name == want and st in ("accepted", "grantedWithMods", "ok")

    def expect(self, answer, want, must, name):
        """Compare an answer with the verdict of the reference model; return the outcome label."""
        ok = self.granted(answer, want)
        summary = "%s:%s" % (C.status_of(answer)[:2])
        if must and not ok:
            raise Violated("refused:%s" % name, "%s %s" % (C.status_of(answer), C.text_of(answer)))
        if not must and ok:
            raise Violated("granted:%s" % name, "answer %s although the reference model refuses" % summary)
        return ok

    def reject_status(self):
        return self.L.cm.prepare_pkistatusinfo(status="rejection", failinfo="badCertTemplate")

    # -- events ----------------------------------------------------------------------------
    def apply(self, ev):
        op = ev[0]
        before = self.ref.canon()
        if op in ("ir", "cr", "p10cr", "kur"):
            _, by, imp = ev
            must = self.ref.kur(by, imp) if op == "kur" else self.ref.enrol(op, by, imp)
            key = self.next_key()
            label = self.op_label(ev, before)
            ans = self.exchange(self.build_request(op, by, imp, key), label)
            want = {"ir": "ip", "cr": "cp", "p10cr": "cp", "kur": "kup"}[op]
            if self.expect(ans, want, must, label):
                cert = self.L.cm.get_cert_from_pkimessage(ans)
                require(cert is not None, "no-certificate:%s" % label, "granted but no certificate in the answer")
                self.real.append({"cert": cert, "key": key, "answer": ans})
        elif op == "conf":
            _, i, how = ev
            label = self.op_label(ev, before)
            if how == "ok":
                must = self.ref.confirm(i)
                msg = self.build_conf(i)
            elif how == "reject":
                must = self.ref.confirm(i, reject=True)
                msg = self.build_conf(i, status_info=self.reject_status())
            elif how == "badhash":
                must = False
                msg = self.build_conf(i, cert_hash=b"\x11" * 32)
            else:
                raise ValueError(how)
            ans = self.exchange(msg, label)
            self.expect(ans, "pkiconf", must, label)
        elif op == "rr":
            _, i, j, reason = ev
            label = self.op_label(ev, before)
            must = self.ref.rr(i, j, reason == "removeFromCRL")
            ans = self.exchange(self.build_rr(i, j, reason), label)
            self.expect(ans, "rp", must, label)
        elif op == "tick":
            label = "tick"
            self.ref.now += ev[1]
            bootstrap.set_now(bootstrap.EPOCH + self.ref.now)
        else:
            return self.apply_extra(ev, before)
        self.probe(label)
        return label

    def apply_extra(self, ev, before):
        raise ValueError(ev)

    def op_label(self, ev, before):
        def st(i):
            return "MAC" if i is None else before[i][0]

        op = ev[0]
        if op in ("ir", "cr", "p10cr", "kur"):
            return "%s/%s by %s" % (op, "implicit" if ev[2] else "explicit", st(ev[1]))
        if op == "conf":
            c = before[ev[1]]
            own = "MAC" if c[1] is None else st(c[1])
            late = "" if c[1] is None or before[c[1]][4] is None or before[c[1]][4] <= TIMEOUT else " late"
            return "certConf-%s of %s(%s%s) for %s" % (ev[2], c[0], "open" if c[3] else "closed", late, own)
        if op == "rr":
            return "rr-%s by %s for %s" % (ev[3], st(ev[1]), "itself" if ev[1] == ev[2] else st(ev[2]))
        return op

    # -- probes ----------------------------------------------------------------------------
    def probe(self, label):
        """The public status services must agree with the history."""
        for i, r in enumerate(self.real):
            want = OCSP[self.ref.certs[i]["state"]]
            try:
                got = self.ca.ocsp(C.encode(r["cert"]), self.issuer)
            except C.HttpFailure as exc:
                raise Violated("ocsp-error:%s" % self.ref.certs[i]["state"], "after %s: %s" % (label, exc)) from exc
            self.ctx.add("checks")
            require(
                got == want,
                "ocsp:%s-is-%s" % (self.ref.certs[i]["state"], got),
                "after %s: OCSP answers %r for certificate %d in state %s" % (label, got, i, self.ref.certs[i]["state"]),
            )
        if self.probe_crl:
            self.check_crl(self.ca.crl(), "crl", label)
        if self.probe_genm:
            self.check_crl(self.genm_crl(), "genm-crl", label)

    def check_crl(self, crl, what, label):
        from cryptography import x509

        issuer = x509.load_der_x509_certificate(self.issuer)
        require(crl.is_signature_valid(issuer.public_key()), "%s-signature" % what, "after %s" % label)
        want = {
            int(r["cert"]["tbsCertificate"]["serialNumber"])
            for r, c in zip(self.real, self.ref.certs)
            if OCSP[c["state"]] == "revoked"
        }
        got = [e.serial_number for e in crl]
        names = {int(r["cert"]["tbsCertificate"]["serialNumber"]): c["state"] for r, c in zip(self.real, self.ref.certs)}
        require(len(got) == len(set(got)), "%s-duplicate-entry" % what, "after %s" % label)
        missing = sorted(names.get(n, "?") for n in want - set(got))
        extra = sorted(names.get(n, "?") for n in set(got) - want)
        require(not missing, "%s-misses:%s" % (what, "+".join(sorted(set(missing)))), "after %s" % label)
        require(not extra, "%s-lists:%s" % (what, "+".join(sorted(set(extra)))), "after %s" % label)
        num = crl.extensions.get_extension_for_class(x509.CRLNumber).value.crl_number
        require(num > self.crl_number, "%s-number" % what, "after %s: CRL number %d follows %d" % (label, num, self.crl_number))
        self.crl_number = num
        self.ctx.add("checks")

    def build_genm(self, by=None):
        args = dict(sender=C.SENDER, for_mac=True) if by is None else dict(exclude_fields="sender,senderKID")
        m = self.L.gm.build_cmp_general_message(add_messages="current_crl", **args)
        return self.mac(m) if by is None else self.sign(m, by)

    def genm_crl(self):
        from cryptography import x509

        ans = self.exchange(self.build_genm(), "genm-crl")
        require(C.body(ans) == "genp", "genm-refused", "%s %s" % (C.status_of(ans), C.text_of(ans)))
        value = ans["body"]["genp"][0]["infoValue"]
        return x509.load_der_x509_crl(value.asOctets())

    # -- exploration -----------------------------------------------------------------------
    def canon(self):
        return self.ref.canon()

    def events(self, depth):
        out = []
        n = len(self.ref.certs)
        room = n < self.max_certs and self.used < self.max_keys
        if room:
            out += [["ir", None, 1], ["ir", None, 0]]
        for i in range(n):
            if self.used < self.max_keys:
                if room or not self.ref.may_request(i):
                    out.append(["cr", i, 1])
                if room or self.ref.certs[i]["state"] not in ("OK", "UPEND"):
                    out += [["kur", i, 1], ["kur", i, 0]]
        for i in range(n):
            out += [["conf", i, "ok"]]
            if self.ref.certs[i]["open"]:
                out += [["conf", i, "reject"], ["conf", i, "badhash"]]
        for i in range(n):
            for j in range(n):
                out.append(["rr", i, j, "keyCompromise"])
                out.append(["rr", i, j, "removeFromCRL"])
        if any(c["state"] == "UPEND" for c in self.ref.certs):
            out += [["tick", 9], ["tick", 2]]
        return out
