From 9a66c903bf82fa51a8cc137ef319cee1c62805d3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 07:11:09 +0000
Subject: [PATCH 01/28] fix: serve the revocation list of the certificate
 database on /crl

The endpoint read a second database which is never filled, so revoked
certificates were missing, and the CRL number of the real one never moved.
---
 mock_ca/ca_handler.py | 4 ++--
 mock_ca/mock_fun.py   | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/mock_ca/ca_handler.py b/mock_ca/ca_handler.py
index 925e6e2..d05054b 100644
--- a/mock_ca/ca_handler.py
+++ b/mock_ca/ca_handler.py
@@ -1392,9 +1392,9 @@ class CAHandler:
 
     def get_current_crl(self) -> bytes:
         """Process the CRL request and return the response."""
-        response = self.state.cert_state_db.get_crl_response(
+        response = self.state.certificate_db.get_current_crl(
             ca_cert=self.ca_cert,
-            sign_key=self.ca_key,
+            ca_key=self.ca_key,
             hash_alg="sha256",
         )
         return response.public_bytes(encoding=Encoding.DER)
diff --git a/mock_ca/mock_fun.py b/mock_ca/mock_fun.py
index 2881089..2eec1c5 100644
--- a/mock_ca/mock_fun.py
+++ b/mock_ca/mock_fun.py
@@ -1280,6 +1280,7 @@ class CertificateDB:
             updated_certs=self.updated_certs,
             crl_number=self._crl_number,
         )
+        self._crl_number += 1
         return rev_db.get_crl_response(
             sign_key=ca_key,
             ca_cert=ca_cert,
-- 
2.43.0


From 9c671c6ef7832eb41800a2895a9b9a499cd2d549 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 07:11:09 +0000
Subject: [PATCH 02/28] fix: answer OCSP requests for superseded certificates

The certificate was only looked up in the revoked list, so the responder
failed with NotImplementedError for every updated certificate.
---
 mock_ca/mock_fun.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mock_ca/mock_fun.py b/mock_ca/mock_fun.py
index 2eec1c5..3f3f033 100644
--- a/mock_ca/mock_fun.py
+++ b/mock_ca/mock_fun.py
@@ -307,6 +307,8 @@ class CertRevStateDB:
         if num in nums:
             status = "revoked"
             found_cert = self.rev_entry_list.get_cert_by_serial_number(num)
+            if found_cert is None:
+                found_cert = self.update_entry_list.get_cert_by_serial_number(num)
         else:
             for cert in issued_certs:
                 if num == int(cert["tbsCertificate"]["serialNumber"]):
-- 
2.43.0


From ec9571db3cac650b2c5ef9ffe3a8ebeb7605884b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 07:11:23 +0000
Subject: [PATCH 03/28] fix: do not confirm a certificate the client rejected
 in certConf

The rejection status skipped the hash check but the certificate was still
set to confirmed and, for kup, the old certificate to updated.
---
 mock_ca/cert_conf_handler.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/mock_ca/cert_conf_handler.py b/mock_ca/cert_conf_handler.py
index c75bc13..fe0ef03 100644
--- a/mock_ca/cert_conf_handler.py
+++ b/mock_ca/cert_conf_handler.py
@@ -367,16 +367,18 @@ class CertConfHandler:
 
         ccp_cert = None
 
-        if response_type == "kup":
+        rejected = self._is_rejected(pki_message)
+
+        if response_type == "kup" and not rejected:
             cert = requests["extraCerts"][0]
             self.state_db.certificate_db.change_cert_state(
                 cert,
                 new_state=CertStateEnum.UPDATED,
             )
-        if response_type == "ccp":
+        if response_type == "ccp" and not rejected:
             ccp_cert = issued_certs[0]
 
-        for cert in issued_certs:
+        for cert in issued_certs if not rejected else []:
             self.state_db.certificate_db.change_cert_state(
                 cert,
                 new_state=CertStateEnum.CONFIRMED,
@@ -387,6 +389,18 @@ class CertConfHandler:
 
         return response, ccp_cert
 
+    @staticmethod
+    def _is_rejected(pki_message: PKIMessageTMP) -> bool:
+        """Check if the client rejected the issued certificate.
+
+        :param pki_message: The CertConf message.
+        :return: `True` if the status is set to `rejection`, otherwise `False`.
+        """
+        for entry in pki_message["body"]["certConf"]:
+            if entry["statusInfo"].isValue and str(entry["statusInfo"]["status"]) == "rejection":
+                return True
+        return False
+
     def _may_add_stfl_confirmed_cert(
         self,
         cert: rfc9480.CMPCertificate,
-- 
2.43.0


From 41296bbe0c4c1fd36067c41dc022d564cb02b9f3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 07:11:23 +0000
Subject: [PATCH 04/28] fix: name the invalid certConf status instead of
 failing on it

PKIStatus is an INTEGER without getName(), so the request ended in an
internal error.
---
 resources/ca_ra_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/ca_ra_utils.py b/resources/ca_ra_utils.py
index d821e86..89910d9 100644
--- a/resources/ca_ra_utils.py
+++ b/resources/ca_ra_utils.py
@@ -3127,7 +3127,7 @@ def _validate_cert_status(
     if str(status["status"]) not in {"accepted", "rejection"}:
         raise BadRequest(
             "Invalid certificate status in CertConf message."
-            f"Expected 'accepted' or 'rejection', got {status['status'].getName()}"
+            f"Expected 'accepted' or 'rejection', got {str(status['status'])}"
         )
 
     if str(status["status"]) == "accepted" and status["failInfo"].isValue:
-- 
2.43.0


From e994209c07b9fb60c96f7278cb319b92fff6e223 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 07:35:28 +0000
Subject: [PATCH 05/28] fix: refuse requests signed with a certificate the
 client rejected

Only open confirmations were looked at, so closing the transaction with a
rejection made the unconfirmed certificate usable.
---
 mock_ca/cert_conf_handler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mock_ca/cert_conf_handler.py b/mock_ca/cert_conf_handler.py
index fe0ef03..6400fb5 100644
--- a/mock_ca/cert_conf_handler.py
+++ b/mock_ca/cert_conf_handler.py
@@ -265,8 +265,10 @@ class CertConfHandler:
         self.conf_state.add_request(pki_message)
 
     def is_not_confirmed(self, cert: rfc9480.CMPCertificate) -> bool:
-        """Check if the certificate is to be confirmed."""
-        return self.conf_state.is_not_confirmed(cert)
+        """Check if the certificate is to be confirmed, or was never accepted by the client."""
+        if self.conf_state.is_not_confirmed(cert):
+            return True
+        return self.state_db.certificate_db.get_cert_state(cert) == CertStateEnum.NOT_CONFIRMED
 
     def add_response(self, pki_message: PKIMessageTMP, certs: List[rfc9480.CMPCertificate]):
         """Add the CA response to the state."""
-- 
2.43.0


From 5ef1d29d0cf26ac28eb4d2208e97950d5931e275 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 07:46:57 +0000
Subject: [PATCH 06/28] fix: refuse forwarded requests signed with a revoked,
 superseded or unconfirmed certificate

---
 mock_ca/cert_req_handler.py | 30 +++++++++++++++++++++++++++++-
 mock_ca/nested_handler.py   |  2 ++
 2 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/mock_ca/cert_req_handler.py b/mock_ca/cert_req_handler.py
index 53da0d2..73787bb 100644
--- a/mock_ca/cert_req_handler.py
+++ b/mock_ca/cert_req_handler.py
@@ -10,7 +10,7 @@ from typing import List, Optional
 from pyasn1.codec.der import encoder
 from pyasn1_alt_modules import rfc9480, rfc9481
 
-from mock_ca.mock_fun import MockCAState
+from mock_ca.mock_fun import CertStateEnum, MockCAState
 from mock_ca.operation_dbs import NonSigningKeyCertsAndKeys, StatefulSigState
 from mock_ca.stfl_validator import STFLPKIMessageValidator
 from pq_logic.hybrid_sig.chameleon_logic import load_chameleon_csr_delta_key_and_sender
@@ -64,6 +64,7 @@ from resources.exceptions import (
     BadRequest,
     BadTime,
     BodyRelevantError,
+    CertRevoked,
     CMPTestSuiteError,
     InvalidKeyData,
     NotAuthorized,
@@ -655,6 +656,33 @@ class CertReqHandler:
                 cert=pki_message["extraCerts"][0], body_name=body_name, allow_timeout=strict
             )
 
+    def check_signer_is_active(self, pki_message: PKIMessageTMP) -> None:
+        """Check that the signer certificate is not revoked, superseded or still unconfirmed.
+
+        :param pki_message: The PKIMessage to check.
+        :raises CertRevoked: If the certificate is revoked or updated.
+        :raises NotAuthorized: If the certificate is not confirmed.
+        """
+        if not pki_message["extraCerts"].isValue:
+            return
+
+        if self.cert_db.get_cert_state(pki_message["extraCerts"][0]) == CertStateEnum.REVOKED:
+            raise CertRevoked("The certificate is revoked and cannot be used for new requests.")
+
+        self.cert_db.update_state.validate_is_updated(
+            cert=pki_message["extraCerts"][0], body_name=get_cmp_message_type(pki_message), allow_timeout=False
+        )
+
+        if get_cmp_message_type(pki_message) == "certConf" or not pki_message["header"]["protectionAlg"].isValue:
+            return
+
+        if ProtectedType.get_protection_type(pki_message) == ProtectedType.MAC:
+            return
+
+        for cert in pki_message["extraCerts"]:
+            if self.cert_conf_handler.is_not_confirmed(cert=cert):
+                raise NotAuthorized("The certificate must first be confirmed.")
+
     def process_cert_request(
         self,
         pki_message: PKIMessageTMP,
diff --git a/mock_ca/nested_handler.py b/mock_ca/nested_handler.py
index 4a97cf9..124ded3 100644
--- a/mock_ca/nested_handler.py
+++ b/mock_ca/nested_handler.py
@@ -94,6 +94,8 @@ class NestedHandler:
             pq_stateful_state=pq_stateful_state,
         )
 
+        self.cert_req_handler.check_signer_is_active(inner_msg)
+
         if body_name in ["ir", "cr", "p10cr", "kur", "ccr"]:
             response = self.cert_req_handler.process_cert_request(
                 pki_message=inner_msg,
-- 
2.43.0


From 12c0488b2e9c7fdd2fadc7043b72142b4524d08a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 07:46:57 +0000
Subject: [PATCH 07/28] fix: verify the protection and signer of every message
 of a batch before processing any

---
 mock_ca/nested_handler.py | 60 ++++++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 16 deletions(-)

diff --git a/mock_ca/nested_handler.py b/mock_ca/nested_handler.py
index 124ded3..fbadea2 100644
--- a/mock_ca/nested_handler.py
+++ b/mock_ca/nested_handler.py
@@ -234,6 +234,48 @@ class NestedHandler:
                 "Which contains requests of type `ir`, `cr`, `kur`, `p10cr`, `rr`."
             )
 
+    def _verify_batched_message(
+        self,
+        entry: PKIMessageTMP,
+        index: int,
+        prot_handler: ProtectionHandler,
+        pq_stateful_state: Optional[StatefulSigState] = None,
+    ) -> None:
+        """Verify one message of a batch, before any message of the batch is processed.
+
+        :param entry: The message to verify.
+        :param index: The index of the message in the batch.
+        :param prot_handler: The protection handler to use, to validate the protection.
+        :param pq_stateful_state: The state for stateful signatures, if needed.
+        :raises BadRequest: If the message is not valid.
+        """
+        if not entry["body"].isValue:
+            raise BadRequest("The body is not set")
+
+        if entry["body"].getName() == "nested":
+            if len(entry["body"]["nested"]) != 1:
+                raise BadRequest(
+                    "The Mock CA only supports one level of nested requests"
+                    ", but allows a added protection request. "
+                    f"Got length: {len(entry['body']['nested'])}."
+                )
+            prot_handler.verify_nested_protection(
+                pki_message=entry,
+                cc_certs=self.cert_req_handler.cross_signed_certs,
+                pq_stateful_state=pq_stateful_state,
+            )
+            return
+
+        check_is_protection_present(entry, must_be_protected=not self.allow_inner_unprotected)
+        prot_handler.verify_inner_batch_pkimessage(
+            pki_message=entry,
+            cc_certs=self.cert_req_handler.get_cross_signed_certs(),
+            must_be_protected=not self.allow_inner_unprotected,
+            index=index,
+            pq_stateful_state=pq_stateful_state,
+        )
+        self.cert_req_handler.check_signer_is_active(entry)
+
     def process_batched_request(
         self,
         request: PKIMessageTMP,
@@ -245,16 +287,10 @@ class NestedHandler:
         self._check_nonces(request)
 
         for i, entry in enumerate(request["body"]["nested"]):
-            if not entry["body"].isValue:
-                raise BadRequest("The body is not set")
+            self._verify_batched_message(entry, i, prot_handler=prot_handler, pq_stateful_state=pq_stateful_state)
 
+        for entry in request["body"]["nested"]:
             if entry["body"].getName() == "nested":
-                if len(entry["body"]["nested"]) != 1:
-                    raise BadRequest(
-                        "The Mock CA only supports one level of nested requests"
-                        ", but allows a added protection request. "
-                        f"Got length: {len(entry['body']['nested'])}."
-                    )
                 response = self._process_added_protection_request(
                     entry, prot_handler=prot_handler, pq_stateful_state=pq_stateful_state
                 )
@@ -274,14 +310,6 @@ class NestedHandler:
                 out.append(response)
 
             else:
-                check_is_protection_present(entry, must_be_protected=not self.allow_inner_unprotected)
-                prot_handler.verify_inner_batch_pkimessage(
-                    pki_message=entry,
-                    cc_certs=self.cert_req_handler.get_cross_signed_certs(),
-                    must_be_protected=not self.allow_inner_unprotected,
-                    index=i,
-                    pq_stateful_state=pq_stateful_state,
-                )
                 if entry["body"].getName() in ["cr", "ir", "p10cr"]:
                     # Different if cases, if somebody decides that
                     # `verify_ra_verified` can be set to `False`, because
-- 
2.43.0


From 8dd72190548a1b93a551dc44cc68acbcb9f685c3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 08:08:34 +0000
Subject: [PATCH 08/28] fix: decode requests with added protection inside a
 batch

---
 resources/cmputils.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/resources/cmputils.py b/resources/cmputils.py
index d245fe8..4f65707 100644
--- a/resources/cmputils.py
+++ b/resources/cmputils.py
@@ -3678,6 +3678,27 @@ def build_cert_conf(  # noqa D417 undocumented-param
     return pki_message
 
 
+def _decode_nested_body(pki_message: PKIMessageTMP) -> None:
+    """Decode the messages inside a `nested` body, which are left undecoded, because of the recursive definition.
+
+    :param pki_message: The PKIMessage, whose body is decoded in place.
+    """
+    if pki_message["body"].getName() != "nested":
+        return
+
+    data = pki_message["body"]["nested"]
+    msgs = PKIMessagesTMP().subtype(explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 20))
+    der_data = encoder.encode(data)
+    msgs, _ = decoder.decode(der_data, msgs)
+    # to clear the entries.
+    pki_message["body"]["nested"] = PKIMessagesTMP().subtype(
+        explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 20)
+    )
+    for x in msgs:
+        _decode_nested_body(x)
+        pki_message["body"]["nested"].append(x)
+
+
 @keyword(name="Parse PKIMessage")
 def parse_pkimessage(data: bytes) -> PKIMessageTMP:  # noqa D417 undocumented-param
     """Parse input data to PKIMessage structure and return the resulting object.
@@ -3702,17 +3723,7 @@ def parse_pkimessage(data: bytes) -> PKIMessageTMP:  # noqa D417 undocumented-pa
     try:
         pki_message, _remainder = decoder.decode(data, asn1Spec=PKIMessageTMP())
 
-        if pki_message["body"].getName() == "nested":
-            data = pki_message["body"]["nested"]
-            msgs = PKIMessagesTMP().subtype(explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 20))
-            der_data = encoder.encode(data)
-            msgs, _ = decoder.decode(der_data, msgs)
-            # to clear the entries.
-            pki_message["body"]["nested"] = PKIMessagesTMP().subtype(
-                explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 20)
-            )
-            for x in msgs:
-                pki_message["body"]["nested"].append(x)
+        _decode_nested_body(pki_message)
 
     except PyAsn1Error as err:
         # Suppress detailed pyasn1 error messages; they are typically too verbose and
-- 
2.43.0


From 85a33b6a590fd98598b2f38df6f79c7a63c1ebb3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 08:16:46 +0000
Subject: [PATCH 09/28] fix: choose a fresh sender nonce for every answer of
 the CA

---
 resources/ca_ra_utils.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/resources/ca_ra_utils.py b/resources/ca_ra_utils.py
index 89910d9..6e632c1 100644
--- a/resources/ca_ra_utils.py
+++ b/resources/ca_ra_utils.py
@@ -2227,12 +2227,10 @@ def set_ca_header_fields(request: PKIMessageTMP, kwargs: dict) -> dict:
         logging.debug("No `senderKID` value set in the request header.")
 
     kwargs["recip_nonce"] = kwargs.get("recip_nonce") or request["header"]["senderNonce"].asOctets()
-    alt_nonce = (
-        os.urandom(16) if not request["header"]["recipNonce"].isValue else request["header"]["recipNonce"].asOctets()
-    )
+    alt_nonce = os.urandom(16)
 
-    if not kwargs.get("use_fresh_nonce", True):
-        alt_nonce = os.urandom(16)
+    if not kwargs.get("use_fresh_nonce", True) and request["header"]["recipNonce"].isValue:
+        alt_nonce = request["header"]["recipNonce"].asOctets()
 
     kwargs["sender_nonce"] = kwargs.get("sender_nonce") or alt_nonce
     kwargs["transaction_id"] = kwargs.get("transaction_id") or request["header"]["transactionID"].asOctets()
-- 
2.43.0


From 811d3d3912e08266b417564b3f9950fe0eb91e39 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 08:16:46 +0000
Subject: [PATCH 10/28] fix: send the signer certificate with signed answers to
 unprotected requests

---
 mock_ca/ca_handler.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/mock_ca/ca_handler.py b/mock_ca/ca_handler.py
index d05054b..a8659cb 100644
--- a/mock_ca/ca_handler.py
+++ b/mock_ca/ca_handler.py
@@ -645,15 +645,6 @@ class CAHandler:
         if request_msg["body"].getName() == "nested":
             return self._sign_nested_response(response, request_msg)
 
-        if not request_msg["header"]["protectionAlg"].isValue:
-            protected = protect_hybrid_pkimessage(
-                pki_message=response,
-                private_key=self.protection_handler.protection_key,
-                protection="signature",
-                cert=self.protection_handler.protection_cert,
-            )
-            return protected
-
         return self.protection_handler.protect_pkimessage(
             response=response,
             request=request_msg,
-- 
2.43.0


From 98561c424a82ffc1eca26942034f402f5c7c282d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:24 +0000
Subject: [PATCH 11/28] fix: answer refused requests that lack a transaction id
 or sender nonce

---
 resources/ca_ra_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resources/ca_ra_utils.py b/resources/ca_ra_utils.py
index 6e632c1..0f58955 100644
--- a/resources/ca_ra_utils.py
+++ b/resources/ca_ra_utils.py
@@ -2226,14 +2226,16 @@ def set_ca_header_fields(request: PKIMessageTMP, kwargs: dict) -> dict:
     else:
         logging.debug("No `senderKID` value set in the request header.")
 
-    kwargs["recip_nonce"] = kwargs.get("recip_nonce") or request["header"]["senderNonce"].asOctets()
+    if request["header"]["senderNonce"].isValue:
+        kwargs["recip_nonce"] = kwargs.get("recip_nonce") or request["header"]["senderNonce"].asOctets()
     alt_nonce = os.urandom(16)
 
     if not kwargs.get("use_fresh_nonce", True) and request["header"]["recipNonce"].isValue:
         alt_nonce = request["header"]["recipNonce"].asOctets()
 
     kwargs["sender_nonce"] = kwargs.get("sender_nonce") or alt_nonce
-    kwargs["transaction_id"] = kwargs.get("transaction_id") or request["header"]["transactionID"].asOctets()
+    if request["header"]["transactionID"].isValue:
+        kwargs["transaction_id"] = kwargs.get("transaction_id") or request["header"]["transactionID"].asOctets()
     kwargs["recipient"] = kwargs.get("recipient") or request["header"]["sender"]
     kwargs["pvno"] = kwargs.get("pvno") or int(request["header"]["pvno"])
     return kwargs
-- 
2.43.0


From 6fd494c6a2f939207eaf678280998042742ebbf8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 08:38:54 +0000
Subject: [PATCH 12/28] fix: verify the proof of possession of every request in
 a message

---
 resources/ca_ra_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resources/ca_ra_utils.py b/resources/ca_ra_utils.py
index 0f58955..dcf1cfa 100644
--- a/resources/ca_ra_utils.py
+++ b/resources/ca_ra_utils.py
@@ -1309,7 +1309,7 @@ def verify_popo_for_cert_request(  # noqa: D417 Missing argument descriptions in
         )
 
     elif name == "signature":
-        verify_sig_pop_for_pki_request(pki_message)
+        verify_sig_pop_for_pki_request(pki_message, cert_index=cert_req_index)
     elif name == "keyEncipherment":
         public_key = get_public_key_from_cert_req_msg(cert_req_msg=cert_req_msg)
 
@@ -2382,7 +2382,7 @@ def _process_one_cert_request(
                 ) from e
 
     elif not cert_req_msg["popo"].isValue:
-        if not check_if_request_is_for_kga(request):
+        if not check_if_request_is_for_kga(request, index=cert_index):
             raise BadCertTemplate(
                 "The `popo` structure is missing in the PKIMessage."
                 "But the request is not for KGA (key generation authority)."
-- 
2.43.0


From 8edd70d81e83e22898f9bd291b91fc8aa85f126f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 08:38:54 +0000
Subject: [PATCH 13/28] fix: never issue two certificates with the same serial
 number

---
 mock_ca/cert_req_handler.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/mock_ca/cert_req_handler.py b/mock_ca/cert_req_handler.py
index 73787bb..244d442 100644
--- a/mock_ca/cert_req_handler.py
+++ b/mock_ca/cert_req_handler.py
@@ -281,6 +281,21 @@ class CertReqHandler:
         self.cert_conf_handler.add_request(pki_message=request)
         self.cert_conf_handler.add_response(pki_message=response, certs=certs)
 
+    def check_serial_numbers_are_unused(self, certs: List[rfc9480.CMPCertificate]) -> None:
+        """Check that no certificate would get a serial number, which the CA already used.
+
+        :param certs: The certificates to be issued.
+        :raises BadCertTemplate: If a serial number is already in use.
+        """
+        known = self.cert_db.issued_certs + self.cert_db.not_confirmed_certs + self.cert_db.updated_certs
+        used = {int(x["tbsCertificate"]["serialNumber"]) for x in known}
+        used.add(int(self.ca_cert["tbsCertificate"]["serialNumber"]))
+        for cert in certs:
+            number = int(cert["tbsCertificate"]["serialNumber"])
+            if number in used:
+                raise BadCertTemplate("The requested serial number is already in use.")
+            used.add(number)
+
     def process_after_request(
         self,
         request: PKIMessageTMP,
@@ -301,6 +316,8 @@ class CertReqHandler:
         if status_info["status"].prettyPrint() == "rejection":
             return response
 
+        self.check_serial_numbers_are_unused(certs)
+
         confirm_ = CertReqHandler.check_if_used(
             request=request,
             response=response,
-- 
2.43.0


From 48aba33947f9ca5fd39125268426c9a3f92d28fd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 08:48:21 +0000
Subject: [PATCH 14/28] fix: refuse the keys of every revoked certificate,
 wherever they appear in a request

---
 mock_ca/ca_handler.py       | 10 +++++++---
 mock_ca/cert_req_handler.py |  4 ++--
 mock_ca/mock_fun.py         | 12 ++++++++----
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/mock_ca/ca_handler.py b/mock_ca/ca_handler.py
index a8659cb..a9b5812 100644
--- a/mock_ca/ca_handler.py
+++ b/mock_ca/ca_handler.py
@@ -708,7 +708,7 @@ class CAHandler:
             if pki_message["body"].getName() not in ["rr", "genm"]:
                 self.verify_protection(pki_message)
 
-            if pki_message["body"].getName() in ["ir", "cr", "p10cr", "crr", "kur", "rr"]:
+            if pki_message["body"].getName() in ["ir", "cr", "p10cr", "ccr", "kur", "rr"]:
                 self._check_for_compromised_key(pki_message)
 
             if pki_message["body"].getName() not in ["certConf", "error"]:
@@ -877,9 +877,13 @@ class CAHandler:
         :raises BadCertTemplate: If the certificate template is invalid.
         """
         try:
-            result = self.state.cert_state_db.check_request_for_compromised_key(pki_message)
+            result = self.state.check_request_for_compromised_key(pki_message)
             if result:
-                raise BadCertTemplate("The certificate template contained a compromised key.")
+                raise BodyRelevantError(
+                    "The certificate template contained a compromised key.",
+                    pki_message=pki_message,
+                    failinfo="badCertTemplate",
+                )
         except (InvalidKeyData, BadAsn1Data, BadAlg) as e:
             raise BodyRelevantError(
                 e.message,
diff --git a/mock_ca/cert_req_handler.py b/mock_ca/cert_req_handler.py
index 244d442..8dd8073 100644
--- a/mock_ca/cert_req_handler.py
+++ b/mock_ca/cert_req_handler.py
@@ -447,8 +447,6 @@ class CertReqHandler:
         :return: The response `PKIMessage`.
         """
         logging.debug("CertReqHandler: Processing P10CR message")
-        self.state.cert_state_db.check_request_for_compromised_key(pki_message)
-
         for_mac = self._get_for_mac(request=pki_message)
         logging.info("Processing P10CR message")
 
@@ -727,6 +725,8 @@ class CertReqHandler:
             validate_wrong_integrity(
                 pki_message=pki_message,
             )
+            if self.state.check_request_for_compromised_key(pki_message):
+                raise BadCertTemplate("The certificate template contained a compromised key.")
             self.check_same_key_cert_request(pki_message=pki_message)
             self.check_cert_is_updated(pki_message=pki_message)
             self._validate_orig_req(pki_message=pki_message)
diff --git a/mock_ca/mock_fun.py b/mock_ca/mock_fun.py
index 3f3f033..e28ebac 100644
--- a/mock_ca/mock_fun.py
+++ b/mock_ca/mock_fun.py
@@ -424,11 +424,11 @@ class CertRevStateDB:
 
         body_name = request["body"].getName()
 
-        if body_name in ["ir", "cr", "crr", "kur"]:
+        if body_name in ["ir", "cr", "ccr", "kur"]:
             for entry in request["body"][body_name]:
                 public_key = ca_ra_utils.get_public_key_from_cert_req_msg(entry, must_be_present=False)
                 if public_key is None:
-                    return False
+                    continue
 
                 if self.rev_entry_list.contains_key(public_key):
                     return True
@@ -1466,8 +1466,12 @@ class MockCAState:
             )
 
     def check_request_for_compromised_key(self, request_msg: PKIMessageTMP) -> bool:
-        """Check the request for a compromised key."""
-        return self.cert_state_db.check_request_for_compromised_key(request_msg)
+        """Check the request for a compromised key (including the keys of all revoked certificates)."""
+        revoked = CertRevStateDB.build(
+            hash_alg=self.cert_state_db.hash_alg,
+            revoked_certs=self.cert_state_db.rev_entry_list.certs + self.certificate_db.revoked_certs,
+        )
+        return revoked.check_request_for_compromised_key(request_msg)
 
     def add_may_update_cert(
         self, old_cert: rfc9480.CMPCertificate, update_cert: rfc9480.CMPCertificate, was_confirmed: bool
-- 
2.43.0


From f7a074e4f43d5544fe7d911ecff214d5f6493a15 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 08:48:21 +0000
Subject: [PATCH 15/28] fix: refuse the key of a certificate being updated and
 the same key twice in one request

---
 mock_ca/cert_req_handler.py | 5 +++++
 mock_ca/mock_fun.py         | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/mock_ca/cert_req_handler.py b/mock_ca/cert_req_handler.py
index 8dd8073..f6d2db7 100644
--- a/mock_ca/cert_req_handler.py
+++ b/mock_ca/cert_req_handler.py
@@ -244,6 +244,7 @@ class CertReqHandler:
 
         else:
             body_name = pki_message["body"].getName()
+            requested = []
 
             for entry in pki_message["body"][body_name]:
                 cert_template = entry["certReq"]["certTemplate"]
@@ -259,6 +260,10 @@ class CertReqHandler:
                 if public_key is not None:
                     if self.state.contains_pub_key(public_key, cert_template["subject"]):
                         raise BadCertTemplate("The public key is already defined for the user.")
+                    new_entry = (encoder.encode(cert_template["subject"]), public_key)
+                    if new_entry in requested:
+                        raise BadCertTemplate("The public key is requested more than once for the user.")
+                    requested.append(new_entry)
 
     def _get_for_mac(self, request: PKIMessageTMP) -> bool:
         """Determine if the message is for MAC protection."""
diff --git a/mock_ca/mock_fun.py b/mock_ca/mock_fun.py
index e28ebac..0325de4 100644
--- a/mock_ca/mock_fun.py
+++ b/mock_ca/mock_fun.py
@@ -1361,7 +1361,7 @@ class MockCAState:
         key_sec_check = KeySecurityChecker(
             issued_certs=self.certificate_db.issued_certs,
             # revoked_certs=self.certificate_db.revoked_certs,
-            updated_certs=self.certificate_db.not_confirmed_certs,
+            updated_certs=self.certificate_db.not_confirmed_certs + self.certificate_db.updated_certs,
         )
 
         return key_sec_check.contains_pub_key(
-- 
2.43.0


From 76a6e008ac67bbe9b67fe5929964995ec8c743e7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 08:48:21 +0000
Subject: [PATCH 16/28] fix: check the public key of a key update request like
 that of any other request

---
 resources/ca_ra_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resources/ca_ra_utils.py b/resources/ca_ra_utils.py
index dcf1cfa..4e309de 100644
--- a/resources/ca_ra_utils.py
+++ b/resources/ca_ra_utils.py
@@ -4014,6 +4014,8 @@ def build_kup_from_kur(  # noqa: D417 undocumented-param
             **kwargs,
         )
 
+    validate_cert_template_public_key(cert_req_msg["certReq"]["certTemplate"], max_key_size=4096 * 2)
+
     cert = certbuildutils.build_cert_from_cert_template(
         cert_template=cert_req_msg["certReq"]["certTemplate"],
         ca_key=ca_key,
-- 
2.43.0


From 521c01fa0041f88ea55b2b44b35d8a1e20865010 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 08:48:21 +0000
Subject: [PATCH 17/28] fix: refuse a serial number which is not positive

---
 mock_ca/cert_req_handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mock_ca/cert_req_handler.py b/mock_ca/cert_req_handler.py
index f6d2db7..a60e281 100644
--- a/mock_ca/cert_req_handler.py
+++ b/mock_ca/cert_req_handler.py
@@ -297,8 +297,8 @@ class CertReqHandler:
         used.add(int(self.ca_cert["tbsCertificate"]["serialNumber"]))
         for cert in certs:
             number = int(cert["tbsCertificate"]["serialNumber"])
-            if number in used:
-                raise BadCertTemplate("The requested serial number is already in use.")
+            if number < 1 or number in used:
+                raise BadCertTemplate("The requested serial number is not positive or already in use.")
             used.add(number)
 
     def process_after_request(
-- 
2.43.0


From 7ccaf817de39dee52eb6218ad1a100fecfd94f0a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 08:55:24 +0000
Subject: [PATCH 18/28] fix: encode validity dates of 2050 and later correctly,
 refuse a reversed validity

---
 resources/certbuildutils.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/resources/certbuildutils.py b/resources/certbuildutils.py
index e4dd41b..aaf2dcd 100644
--- a/resources/certbuildutils.py
+++ b/resources/certbuildutils.py
@@ -1656,7 +1656,17 @@ def default_validity(
             not_after = optional_validity["notAfter"][time_type].asDateTime
         else:
             not_after = not_before + timedelta(days=days)
-        return prepare_validity(not_before, not_after)
+
+        if not_after < not_before:
+            raise BadCertTemplate("The `notAfter` date is before the `notBefore` date.")
+
+        # dates in the year 2050 or later must be encoded as `GeneralizedTime`.
+        return prepare_validity(
+            not_before,
+            not_after,
+            before_use_utc=not_before.year < 2050,
+            after_use_utc=not_after.year < 2050,
+        )
 
     # otherwise will OpenSSL say: "certificate is not yet valid"
     not_before = datetime.now(timezone.utc) - timedelta(days=1)
-- 
2.43.0


From 88b25f3b6d0bd01199b3d06ea9c98e9d0c229824 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 08:55:24 +0000
Subject: [PATCH 19/28] fix: do not put the subject key identifier into a
 certificate twice

---
 resources/certbuildutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resources/certbuildutils.py b/resources/certbuildutils.py
index aaf2dcd..a40495a 100644
--- a/resources/certbuildutils.py
+++ b/resources/certbuildutils.py
@@ -1753,8 +1753,8 @@ def build_cert_from_cert_template(  # noqa D417 undocumented-param
         cert_template=cert_template, ca_public_key=pub_key, other_extensions=kwargs.get("extensions")
     )
 
-    if extns.isValue:
-        tbs_certs["extensions"].extend(extns)
+    # the subject key identifier is already set.
+    tbs_certs["extensions"].extend(_get_not_included_extensions(tbs_certs["extensions"], extns))
 
     cert = rfc9480.CMPCertificate()
     cert["tbsCertificate"] = tbs_certs
-- 
2.43.0


From 7eaca7be6a253f1a96685890f62da2c5a63e2154 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 08:55:24 +0000
Subject: [PATCH 20/28] fix: put the CA's extensions into updated certificates
 as well

---
 resources/ca_ra_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resources/ca_ra_utils.py b/resources/ca_ra_utils.py
index 4e309de..54a9088 100644
--- a/resources/ca_ra_utils.py
+++ b/resources/ca_ra_utils.py
@@ -4020,6 +4020,7 @@ def build_kup_from_kur(  # noqa: D417 undocumented-param
         cert_template=cert_req_msg["certReq"]["certTemplate"],
         ca_key=ca_key,
         ca_cert=ca_cert,
+        extensions=kwargs.get("extensions"),
     )
 
     if request is not None and set_ca_header_fields:
-- 
2.43.0


From 7a5600d3c9638e7c09ddb38a92305e889897170a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 09:25:32 +0000
Subject: [PATCH 21/28] fix: accept raVerified only in a message which is
 signed by the RA

---
 resources/ca_ra_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/resources/ca_ra_utils.py b/resources/ca_ra_utils.py
index 54a9088..3302d81 100644
--- a/resources/ca_ra_utils.py
+++ b/resources/ca_ra_utils.py
@@ -91,7 +91,7 @@ from resources.oid_mapping import (
     sha_alg_name_to_oid,
 )
 from resources.oidutils import CURVE_OID_2_NAME, id_KemBasedMac
-from resources.suiteenums import InvalidOneAsymKeyType, KeySaveType
+from resources.suiteenums import InvalidOneAsymKeyType, KeySaveType, ProtectedType
 from resources.typingutils import (
     CAResponse,
     CertOrCerts,
@@ -1204,6 +1204,11 @@ def _verify_ra_verified(
     if not pki_message["extraCerts"].isValue:
         raise NotAuthorized("RA certificate is missing in the PKIMessage (no `extraCerts`).")
 
+    prot_type = ProtectedType.get_protection_type(pki_message)
+    if prot_type in [ProtectedType.MAC, ProtectedType.DH, ProtectedType.KEM]:
+        # otherwise is the RA certificate not bound to the PKIMessage.
+        raise NotAuthorized("The `raVerified` PKIMessage is not signed by the RA.")
+
     may_ra_cert = pki_message["extraCerts"][0]
     result = certutils.cert_in_list(may_ra_cert, ra_certs)
 
-- 
2.43.0


From 86d5be9fd5086ec4a2cd1a3347dee4649b609d52 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 09:25:32 +0000
Subject: [PATCH 22/28] fix: refuse ML-DSA signatures of the wrong length

---
 pq_logic/fips/fips204.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pq_logic/fips/fips204.py b/pq_logic/fips/fips204.py
index e3776f0..7c7510a 100644
--- a/pq_logic/fips/fips204.py
+++ b/pq_logic/fips/fips204.py
@@ -614,6 +614,10 @@ class ML_DSA:
         if param is not None:
             self.__init__(param)
 
+        sig_len = self.lam // 4 + self.ell * 32 * (1 + int(self.gam1 - 1).bit_length()) + self.omega + self.k
+        if len(sig) != sig_len:
+            return False
+
         (rho, t1) = self.pk_decode(pk)
         (ct, z, h) = self.sig_decode(sig)
         # print('# rho:', rho.hex())
-- 
2.43.0


From 1d9e5d80950ae7fae644fd89fb2b90c7aba55d26 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 10:42:27 +0000
Subject: [PATCH 23/28] fix: decode the PBKDF2 parameters of a KEMBasedMac as
 PBKDF2-params

They were decoded as an AlgorithmIdentifier, so that no KEMBasedMac with PBKDF2
could be verified once it was parsed.
---
 resources/protectionutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index 0bb0387..b011a27 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -2091,7 +2091,7 @@ def compute_kdf_from_alg_id(kdf_alg_id: rfc9480.AlgorithmIdentifier, ss: bytes,
 
     if kdf_alg_id["algorithm"] == rfc9481.id_PBKDF2:
         if not isinstance(kdf_alg_id["parameters"], rfc8018.PBKDF2_params):
-            pbkdf2_params = decoder.decode(kdf_alg_id["parameters"], asn1Spec=rfc9480.AlgorithmIdentifier())[0]
+            pbkdf2_params = decoder.decode(kdf_alg_id["parameters"], asn1Spec=rfc8018.PBKDF2_params())[0]
         else:
             pbkdf2_params = kdf_alg_id["parameters"]
 
-- 
2.43.0


From 85f11040863fee68e85f7f107ede571eb8ad9e82 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 10:42:27 +0000
Subject: [PATCH 24/28] fix: derive the DHBasedMac key from the hashed secret
 for GMAC and KMAC too

The key of a DHBasedMac is derived from BASEKEY = OWF(DH secret); for AES-GMAC
and KMAC the raw secret was taken instead.
---
 resources/protectionutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index b011a27..13f0b59 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -491,7 +491,7 @@ def compute_dh_based_mac_from_alg_id(
         mac = cryptoutils.compute_hmac(key=derived_key, data=data, hash_alg=mac_alg)
     elif mac_alg_oid in AES_GMAC_OID_2_NAME:
         length = _get_aes_length(AES_GMAC_OID_2_NAME[mac_alg_oid])
-        derived_key = dh_based_mac_derive_key(basekey=shared_secret, desired_length=length, owf=owf)
+        derived_key = dh_based_mac_derive_key(basekey=derived_key, desired_length=length, owf=owf)
         if not isinstance(params["mac"]["parameters"], rfc9044.GCMParameters):
             gmac_params, rest = decoder.decode(params["mac"]["parameters"], rfc9044.GCMParameters())
         else:
@@ -501,7 +501,7 @@ def compute_dh_based_mac_from_alg_id(
         mac = cryptoutils.compute_gmac(data=data, key=derived_key, iv=nonce)
 
     elif mac_alg_oid in KMAC_OID_2_NAME:
-        derived_key = dh_based_mac_derive_key(basekey=shared_secret, desired_length=32, owf=owf)
+        derived_key = dh_based_mac_derive_key(basekey=derived_key, desired_length=32, owf=owf)
         mac = cryptoutils.compute_kmac_from_alg_id(alg_id=params["mac"], data=data, key=derived_key)
     else:
         raise BadAlg(f"Unsupported MAC algorithm for DHBasedMAC: {may_return_oid_to_name(mac_alg_oid)}")
-- 
2.43.0


From d8235afbef34033d70c1ae0a0f82a2d3791a6bcb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 10:42:27 +0000
Subject: [PATCH 25/28] fix: sign RSASSA-PSS with the hash algorithm its
 parameters name

A protection or certificate whose AlgorithmIdentifier said RSASSA-PSS with
SHA-384 or SHA-512 was signed with SHA-256.
---
 resources/protectionutils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index 13f0b59..12de85b 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -692,6 +692,7 @@ def sign_rsa_pss_data_with_alg_id(
         salt_length = None
     elif isinstance(alg_id["parameters"], rfc8017.RSASSA_PSS_params):
         salt_length = int(alg_id["parameters"]["saltLength"])
+        hash_alg = get_hash_from_oid(alg_id["parameters"]["hashAlgorithm"]["algorithm"])
     elif isinstance(alg_id["parameters"], univ.Any):
         # TODO fix with unsafe param, for better negative testing in general.
         params, _ = try_decode_pyasn1(  # type: ignore
@@ -700,6 +701,7 @@ def sign_rsa_pss_data_with_alg_id(
         )
         params: rfc8017.RSASSA_PSS_params
         salt_length = int(params["saltLength"])
+        hash_alg = get_hash_from_oid(params["hashAlgorithm"]["algorithm"])
 
     else:
         salt_length = None
@@ -2452,10 +2454,9 @@ def sign_data_with_alg_id(  # noqa: D417 Missing argument descriptions in the do
         use_pss = name.endswith("-pss")
         return key.sign(data=data, use_pss=use_pss)
 
-    # TODO fix this
     if oid in RSASSA_PSS_OID_2_NAME and isinstance(key, rsa.RSAPrivateKey):
         hash_alg = get_hash_from_oid(oid, only_hash=True)
-        return cryptoutils.sign_data(key=key, data=data, hash_alg=hash_alg, use_rsa_pss=True)
+        return sign_rsa_pss_data_with_alg_id(private_key=key, data=data, alg_id=alg_id, hash_alg=hash_alg)
 
     if oid in PQ_OID_2_NAME or oid in TRAD_SIG_OID_2_NAME:
         hash_alg = get_hash_from_oid(oid, only_hash=True)
-- 
2.43.0


From 92e3216684a3f65ec8343b8391042cc038a3c4a0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 11:18:15 +0000
Subject: [PATCH 26/28] fix: refuse a composite signature under the algorithm
 identifier of another composite algorithm

---
 resources/protectionutils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index 12de85b..c0afd0e 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -2654,6 +2654,10 @@ def verify_signature_with_alg_id(  # noqa: D417 Missing argument descriptions in
         name = COMPOSITE_SIG_OID_TO_NAME[oid]
         use_pss = name.endswith("-pss")
         logging.debug("Verifying composite signature with name: %s", name)
+        try:
+            keyutils.check_consistency_sig_alg_id_and_key(alg_id, public_key)
+        except BadSigAlgID as e:
+            raise InvalidSignature(e.message) from e
         public_key.verify(
             data=data,
             signature=signature,
-- 
2.43.0


From 16d0e1e375931614174e5be5fef5a4b6e84b94de Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 11:18:15 +0000
Subject: [PATCH 27/28] fix: check the RSA key size when loading a composite
 signature public key

---
 pq_logic/combined_factory.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pq_logic/combined_factory.py b/pq_logic/combined_factory.py
index 8ea6fc7..69bca2a 100644
--- a/pq_logic/combined_factory.py
+++ b/pq_logic/combined_factory.py
@@ -1017,6 +1017,9 @@ class CombinedKeyFactory:
                         f"Unexpected composite signature traditional private key data for {algorithm}: {rest.hex()}"
                     )
                 trad_key = serialization.load_der_public_key(rest)
+                rsa_size = int(trad_name.replace("rsa", "").replace("-pss", ""))
+                if not isinstance(trad_key, rsa.RSAPublicKey) or trad_key.key_size != rsa_size:
+                    raise InvalidKeyData(f"Expected RSA public key of size {rsa_size} for {algorithm}.")
         except ValueError as e:
             raise InvalidKeyData(f"Failed to load public key for {algorithm}: {e}") from e
 
-- 
2.43.0


From 48838cf248d718ffc57614a26c7e4126ed3b36b6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 11:51:35 +0000
Subject: [PATCH 28/28] fix: process requests one at a time, the server answers
 them in several threads

---
 mock_ca/ca_handler.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/mock_ca/ca_handler.py b/mock_ca/ca_handler.py
index a9b5812..96f794f 100644
--- a/mock_ca/ca_handler.py
+++ b/mock_ca/ca_handler.py
@@ -5,9 +5,11 @@
 """Contains the CA Handler for the Mock CA."""
 
 import argparse
+import functools
 import logging
 import os
 import sys
+import threading
 from typing import Any, List, Optional, Sequence, Tuple, Union
 
 from cryptography.exceptions import InvalidSignature
@@ -189,6 +191,21 @@ def _contains_challenge(request_msg: PKIMessageTMP) -> bool:
     return False
 
 
+def _serialized(method):
+    """Let the CA process one request at a time.
+
+    The server answers requests in several threads, and processing a request consists of several steps which
+    depend on each other (e.g., check that a key is not certified yet, issue and store the certificate).
+    """
+
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        with self._request_lock:
+            return method(self, *args, **kwargs)
+
+    return wrapper
+
+
 class CAHandler:
     """A simple class to handle the CA operations."""
 
@@ -287,6 +304,7 @@ class CAHandler:
         if ca_cert is None or ca_key is None:
             raise BadConfig("CA certificate and key must be provided.")
 
+        self._request_lock = threading.RLock()
         self.url_data = BaseURLData(base_url=base_url, port_num=port)
 
         config = config or {"ca_alt_key": ca_alt_key}
@@ -691,6 +709,7 @@ class CAHandler:
             return self.build_error_from_exception(e, pki_message)
         return self.sign_response(response=response, request_msg=pki_message)
 
+    @_serialized
     def process_normal_request(self, pki_message: PKIMessageTMP) -> PKIMessageTMP:
         """Process the normal request.
 
@@ -947,6 +966,7 @@ class CAHandler:
         )
         return response
 
+    @_serialized
     def process_chameleon(self, pki_message: PKIMessageTMP) -> PKIMessageTMP:
         """Process the Chameleon message.
 
@@ -1035,6 +1055,7 @@ class CAHandler:
         else:
             self.state.add_certs(certs=certs)
 
+    @_serialized
     def process_sun_hybrid(
         self,
         pki_message: PKIMessageTMP,
@@ -1104,6 +1125,7 @@ class CAHandler:
 
         return response
 
+    @_serialized
     def process_multi_auth(self, pki_message: PKIMessageTMP) -> PKIMessageTMP:
         """Process the Multi-Auth message.
 
@@ -1134,6 +1156,7 @@ class CAHandler:
             logging.info("An error occurred: %s", str(e.message), exc_info=True)
             return self.build_error_from_exception(e, request_msg=pki_message)
 
+    @_serialized
     def process_cert_discovery(self, pki_message: PKIMessageTMP) -> PKIMessageTMP:
         """Process the Cert Discovery request message.
 
@@ -1239,6 +1262,7 @@ class CAHandler:
         else:
             raise NotImplementedError("The related certificate is not issued by the Mock-CA.")
 
+    @_serialized
     def process_related_cert(self, pki_message: PKIMessageTMP) -> PKIMessageTMP:
         """Process the Related Cert request message.
 
@@ -1309,6 +1333,7 @@ class CAHandler:
 
         return self.sign_response(response=response, request_msg=pki_message)
 
+    @_serialized
     def process_catalyst_sig(self, pki_message: PKIMessageTMP) -> PKIMessageTMP:
         """Process the Catalyst Sig request message.
 
@@ -1340,6 +1365,7 @@ class CAHandler:
             logging.info("An error occurred: %s", str(e.message))
             return self.build_error_from_exception(e, request_msg=pki_message)
 
+    @_serialized
     def process_catalyst_issuing(self, pki_message: PKIMessageTMP) -> PKIMessageTMP:
         """Process the Catalyst request message.
 
@@ -1370,6 +1396,7 @@ class CAHandler:
 
         return self.sign_response(response=response, request_msg=pki_message)
 
+    @_serialized
     def process_ocsp_request(self, data: bytes) -> bytes:
         """Process the OCSP request and return the response."""
         try:
@@ -1385,6 +1412,7 @@ class CAHandler:
 
         return response.public_bytes(encoding=Encoding.DER)
 
+    @_serialized
     def get_current_crl(self) -> bytes:
         """Process the CRL request and return the response."""
         response = self.state.certificate_db.get_current_crl(
-- 
2.43.0

