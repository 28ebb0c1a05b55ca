"""Drive the real mock CA through its HTTP application and read its public status services."""

import io
import os

from mc import bootstrap

SECRET = "SiemensIT"
SENDER = "CN=Hans the Tester"
EE = "CN=Hans the Tester"


class HttpFailure(Exception):
    def __init__(self, status, text):
        super().__init__("HTTP %s: %s" % (status, text[:300]))
        self.status = status
        self.text = text


_LIBS = {}
_TOOLS = {}


def lib():
    """Import the repository lazily, after bootstrap."""
    if not _LIBS:
        import mock_ca.ca_handler as app_mod
        from resources import certbuildutils, certutils, cmputils, keyutils, protectionutils
        from resources import general_msg_utils
        from unit_tests.utils_for_test import load_ca_cert_and_key

        _LIBS.update(
            app=app_mod,
            cb=certbuildutils,
            cu=certutils,
            cm=cmputils,
            ku=keyutils,
            pu=protectionutils,
            gm=general_msg_utils,
            load_ca=load_ca_cert_and_key,
        )
    return type("L", (), _LIBS)


def tools():
    """The libraries alone, without the CA application."""
    if "L" not in _TOOLS:
        from resources import certbuildutils, certutils, cmputils, general_msg_utils, keyutils, protectionutils

        _TOOLS["L"] = type(
            "L", (), dict(cb=certbuildutils, cu=certutils, cm=cmputils, ku=keyutils, pu=protectionutils, gm=general_msg_utils)
        )
    return _TOOLS["L"]


class CA:
    """One real CA instance behind the Flask test client."""

    def __init__(self, fresh_state=True, **config):
        L = lib()
        m = L.app
        self.m = m
        if fresh_state:
            m.state = m.MockCAState()
        m.handler = m.CAHandler(ca_cert=None, ca_key=None, config=config, mock_ca_state=m.state, port=5000)
        self.handler = m.handler
        m.app.config["PROPAGATE_EXCEPTIONS"] = False
        self.http = m.app.test_client()
        self.ca_cert, self.ca_key = L.load_ca()

    # -- CMP ---------------------------------------------------------------------------------
    def post(self, der, path="/issuing"):
        r = self.http.post(path, data=der, content_type="application/pkixcmp")
        return r.status_code, r.data

    def send(self, msg, path="/issuing"):
        """Send a PKIMessage, return the parsed PKIMessage answer."""
        der = msg if isinstance(msg, bytes) else encode(msg)
        status, data = self.post(der, path)
        if status != 200:
            raise HttpFailure(status, data.decode("utf-8", "replace"))
        return lib().cm.parse_pkimessage(data)

    # -- public status services ------------------------------------------------------------
    def ocsp(self, cert_der, issuer_der):
        """Return 'good' | 'revoked' | 'unknown' | 'unauthorized' | ... for one certificate."""
        from cryptography import x509
        from cryptography.hazmat.primitives import hashes, serialization
        from cryptography.x509 import ocsp

        cert = x509.load_der_x509_certificate(cert_der)
        issuer = x509.load_der_x509_certificate(issuer_der)
        req = ocsp.OCSPRequestBuilder().add_certificate(cert, issuer, hashes.SHA256()).build()
        r = self.http.post(
            "/ocsp",
            data=req.public_bytes(serialization.Encoding.DER),
            content_type="application/ocsp-request",
        )
        if r.status_code != 200:
            raise HttpFailure(r.status_code, r.data.decode("utf-8", "replace"))
        resp = ocsp.load_der_ocsp_response(r.data)
        if resp.response_status != ocsp.OCSPResponseStatus.SUCCESSFUL:
            return resp.response_status.name.lower()
        if resp.serial_number != cert.serial_number:
            return "wrong-serial"
        issuer.public_key().verify(resp.signature, resp.tbs_response_bytes)
        return resp.certificate_status.name.lower()

    def crl(self):
        from cryptography import x509

        r = self.http.get("/crl")
        if r.status_code != 200:
            raise HttpFailure(r.status_code, r.data.decode("utf-8", "replace"))
        data = r.data
        return x509.load_pem_x509_crl(data) if data.startswith(b"-----") else x509.load_der_x509_crl(data)


def encode(msg):
    from pyasn1.codec.der import encoder

    return encoder.encode(msg)


def decode_cert(cert):
    from cryptography import x509

    return x509.load_der_x509_certificate(encode(cert))


def body(msg):
    return msg["body"].getName()


def status_of(msg):
    """('ip', 'accepted', None) style summary of an answer."""
    L = lib()
    name = body(msg)
    if name == "pkiconf":
        return (name, "ok", None)
    try:
        info = L.cm.get_pkistatusinfo(msg)
    except Exception:  # pylint: disable=broad-except
        return (name, "none", None)
    st = str(info["status"])
    fi = None
    if info["failInfo"].isValue:
        bits = [n for n, v in sorted(info["failInfo"].namedValues.items(), key=lambda kv: kv[1])]
        val = list(info["failInfo"])
        fi = "+".join(b for b, s in zip(bits, val) if s)
    return (name, st, fi)


def text_of(msg):
    L = lib()
    try:
        info = L.cm.get_pkistatusinfo(msg)
        return " ".join(str(x) for x in info["statusString"]) if info["statusString"].isValue else ""
    except Exception:  # pylint: disable=broad-except
        return ""


def memo_expand_a():
    """Cache FIPS 204's ExpandA, a pure function of rho which dominates the time (its conformance is C24's matter)."""
    from pq_logic.fips import fips204

    for cls in vars(fips204).values():
        real = getattr(cls, "expand_a", None) if isinstance(cls, type) else None
        if real is None or "expand_a" not in vars(cls):
            continue
        seen = {}

        def cached(self, rho, real=real, seen=seen):
            key = (getattr(self, "k", None), getattr(self, "ell", None), bytes(rho))
            if key not in seen:
                seen[key] = real(self, rho)
            return [[list(p) for p in row] for row in seen[key]]

        cls.expand_a = cached
