"""Drive the mock CA of the repository in-process, at the date of its test data."""

import ctypes
import logging
import os
import warnings

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
CLOCK = ctypes.CDLL(os.environ["MC_CLOCK"])
CLOCK.mc_get_now.restype = ctypes.c_longlong

import mock_ca.ca_handler as app_mod  # noqa: E402
from pyasn1.codec.der import encoder  # noqa: E402
from resources import ca_ra_utils as cr, certbuildutils as cb, certutils as cu, cmputils as cm  # noqa: E402
from resources import general_msg_utils as gm, keyutils as ku, protectionutils as pu, utils as ut  # noqa: E402
from unit_tests.utils_for_test import load_ca_cert_and_key  # noqa: E402

SECRET = "SiemensIT"
SENDER = "CN=Hans the Tester"


def elapse(seconds):
    now = CLOCK.mc_get_now() + seconds
    CLOCK.mc_set_now(ctypes.c_longlong(now))
    os.environ["MC_NOW"] = str(now)


def der(obj):
    return encoder.encode(obj)


class CA:
    def __init__(self, **config):
        app_mod.state = app_mod.MockCAState()
        app_mod.handler = app_mod.CAHandler(
            ca_cert=None, ca_key=None, config=config, mock_ca_state=app_mod.state, port=5000
        )
        self.handler = app_mod.handler
        self.http = app_mod.app.test_client()
        self.ca_cert, self.ca_key = load_ca_cert_and_key()
        self.ra_cert = cu.parse_certificate(ut.load_and_decode_pem_file("data/trusted_ras/ra_cms_cert_ecdsa.pem"))
        self.ra_key = ku.load_private_key_from_file("data/keys/private-key-ecdsa.pem")

    def post(self, data, path="/issuing"):
        r = self.http.post(path, data=data if isinstance(data, bytes) else der(data), content_type="application/pkixcmp")
        return r.status_code, r.data

    def send(self, msg, path="/issuing"):
        status, data = self.post(msg, path)
        if status != 200:
            raise RuntimeError("HTTP %s %r" % (status, data[:200]))
        return cm.parse_pkimessage(data)

    def ocsp(self, cert):
        from cryptography import x509
        from cryptography.hazmat.primitives import hashes, serialization
        from cryptography.x509 import ocsp

        c = x509.load_der_x509_certificate(der(cert))
        i = x509.load_der_x509_certificate(der(self.handler.ca_cert))
        req = ocsp.OCSPRequestBuilder().add_certificate(c, i, hashes.SHA256()).build()
        r = self.http.post(
            "/ocsp", data=req.public_bytes(serialization.Encoding.DER), content_type="application/ocsp-request"
        )
        resp = ocsp.load_der_ocsp_response(r.data)
        if resp.response_status != ocsp.OCSPResponseStatus.SUCCESSFUL:
            return resp.response_status.name.lower()
        return resp.certificate_status.name.lower()

    def crl(self):
        from cryptography import x509

        data = self.http.get("/crl").data
        crl = x509.load_pem_x509_crl(data) if data.startswith(b"-----") else x509.load_der_x509_crl(data)
        return {e.serial_number for e in crl}

    def ra_added(self, inner):
        h = inner["header"]
        msg = cm.build_nested_pkimessage(
            other_messages=[inner],
            transaction_id=h["transactionID"].asOctets(),
            sender_nonce=h["senderNonce"].asOctets(),
            for_added_protection=True,
            exclude_fields="sender,senderKID,recipNonce",
        )
        return pu.protect_pkimessage(
            msg, "signature", private_key=self.ra_key, cert=self.ra_cert, certs_dir="data/unittest/"
        )

    def ra_batch(self, items):
        msg = cm.build_nested_pkimessage(
            other_messages=list(items),
            transaction_id=os.urandom(16),
            sender_nonce=os.urandom(16),
            exclude_fields="sender,senderKID,recipNonce",
        )
        return pu.protect_pkimessage(
            msg, "signature", private_key=self.ra_key, cert=self.ra_cert, certs_dir="data/unittest/"
        )

    def enrol(self, key=None, implicit=True, name=SENDER, **kw):
        key = key or ku.generate_key("ecc")
        ans = self.send(mac(cm.build_ir_from_key(
            key, common_name=name, implicit_confirm=implicit, sender=SENDER, for_mac=True, **kw)))
        return (cm.get_cert_from_pkimessage(ans) if granted(ans) else None), key, ans

    def confirm(self, ans, cert, protect, sender=True, **kw):
        args = dict(sender=SENDER, for_mac=True) if sender else dict(exclude_fields="sender,senderKID")
        msg = cm.build_cert_conf_from_resp(ans, ca_cert=cert, **args, **kw)
        return self.send(protect(msg))


def mac(msg, alg="password_based_mac", secret=SECRET):
    return pu.protect_pkimessage(msg, alg, password=secret)


def sign(msg, cert, key):
    return pu.protect_pkimessage(msg, "signature", private_key=key, cert=cert)


def granted(ans):
    name = ans["body"].getName()
    if name == "pkiconf":
        return True
    if name not in ("ip", "cp", "kup", "rp", "ccp", "genp"):
        return False
    if name == "genp":
        return True
    info = cm.get_pkistatusinfo(ans)
    return str(info["status"]) in ("accepted", "grantedWithMods")
