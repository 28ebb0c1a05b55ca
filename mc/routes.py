"""Requests wrapped by a trusted registration authority (added protection and batches)."""

import os

from mc import ca as C


class RA:
    """A registration authority trusted by the mock CA."""

    def __init__(self):
        L = C.lib()
        from resources.certutils import parse_certificate
        from resources.utils import load_and_decode_pem_file

        self.L = L
        self.cert = parse_certificate(load_and_decode_pem_file("data/trusted_ras/ra_cms_cert_ecdsa.pem"))
        self.key = L.ku.load_private_key_from_file("data/keys/private-key-ecdsa.pem")

    def sign(self, msg):
        return self.L.pu.protect_pkimessage(
            msg, "signature", private_key=self.key, cert=self.cert, certs_dir="data/unittest/"
        )

    def added(self, inner):
        h = inner["header"]
        msg = self.L.cm.build_nested_pkimessage(
            other_messages=[inner],
            transaction_id=h["transactionID"].asOctets(),
            sender_nonce=h["senderNonce"].asOctets(),
            recip_nonce=h["recipNonce"].asOctets() if h["recipNonce"].isValue else None,
            for_added_protection=True,
            exclude_fields="sender,senderKID" + ("" if h["recipNonce"].isValue else ",recipNonce"),
        )
        return self.sign(msg)

    def batch(self, items, recip=False):
        msg = self.L.cm.build_nested_pkimessage(
            other_messages=list(items),
            transaction_id=os.urandom(16),
            sender_nonce=os.urandom(16),
            recip_nonce=os.urandom(16) if recip else None,
            exclude_fields="sender,senderKID" + ("" if recip else ",recipNonce"),
        )
        return self.sign(msg)
