"""All ways of asking: one request builder shared by the checks which enumerate exchanges."""

import os

from mc import bootstrap, ca as C, der
from mc.routes import RA

MACS = ["password_based_mac", "pbmac1", "hmac"]
KEYS = ["ecc", "rsa", "ed25519", "ml-dsa-44"]
ANSWER = {
    "ir": "ip", "cr": "cp", "p10cr": "cp", "kur": "kup", "certConf": "pkiconf", "rr": "rp", "genm": "genp",
}


def composite(pq, trad):
    from pq_logic.keys.composite_sig import CompositeSigPrivateKey

    return CompositeSigPrivateKey(pq, trad)


def make_key(name):
    """A fresh private key of the kind (small and quick ones where there is a choice)."""
    ku = C.tools().ku
    if name == "composite":
        return composite(ku.generate_key("ml-dsa-44"), ku.generate_key("ed25519"))
    return ku.generate_key(name, **({"length": 2048} if name == "rsa" else {}))


class Desk:
    """A CA with one active requester certificate per key type."""

    def __init__(self, keys=KEYS, config=None):
        self.L = C.lib()
        bootstrap.set_now(bootstrap.EPOCH)
        self.ca = C.CA(**(config or {}))
        self.root = C.encode(self.ca.handler.ca_cert)
        self.ra = RA()
        self.owners = {}
        for name in keys:
            key = make_key(name)
            ans = self.ca.send(self.mac(self.build("ir", key, None)))
            cert = self.L.cm.get_cert_from_pkimessage(ans)
            self.owners[name] = (cert, key)

    def mac(self, msg, alg="password_based_mac", secret=C.SECRET):
        return self.L.pu.protect_pkimessage(msg, alg, password=secret)

    def sign(self, msg, owner):
        cert, key = self.owners[owner] if isinstance(owner, str) else owner
        return self.L.pu.protect_pkimessage(msg, "signature", private_key=key, cert=cert)

    def build(self, kind, key, by, imp=1, **kw):
        """An unprotected request; by None means MAC, otherwise the owner who will sign."""
        cm = self.L.cm
        args = dict(sender=C.SENDER, for_mac=True) if by is None else dict(exclude_fields="sender,senderKID")
        args.update(kw)
        if kind == "ir":
            return cm.build_ir_from_key(key, common_name=C.EE, implicit_confirm=bool(imp), **args)
        if kind == "cr":
            return cm.build_cr_from_key(key, common_name=C.EE, implicit_confirm=bool(imp), **args)
        if kind == "p10cr":
            return cm.build_p10cr_from_key(key, common_name=C.EE, implicit_confirm=bool(imp), **args)
        if kind == "kur":
            return cm.build_key_update_request(key, implicit_confirm=bool(imp), **args)
        if kind == "ccr":
            return cm.build_ccr_from_key(key, common_name=C.EE, **args)
        if kind == "genm":
            return self.L.gm.build_cmp_general_message(add_messages=kw.pop("ask", "current_crl"), **args)
        if kind == "rr":
            return cm.build_cmp_revoke_request(cert=key, reason="keyCompromise", **args)
        raise ValueError(kind)

    def protect(self, msg, prot):
        """prot: a MAC name, an owner name or (cert, key), or None."""
        if prot is None:
            return msg
        if isinstance(prot, str) and prot in MACS:
            return self.mac(msg, prot)
        return self.sign(msg, prot)

    def fresh_cert(self, name="ecc"):
        """A new active certificate of its own: (cert, key)."""
        key = make_key(name)
        ans = self.ca.send(self.mac(self.build("ir", key, None)))
        cert = self.L.cm.get_cert_from_pkimessage(ans)
        if cert is None:
            raise RuntimeError("no certificate: %s %s" % (C.status_of(ans), C.text_of(ans)))
        return cert, key
