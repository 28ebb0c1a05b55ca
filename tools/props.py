"""The properties of siemens/cmp-test-suite, and how each is decided."""

NOTES = "Every check drives the real code of /repo's working tree in a closed environment (frozen clock, no network)."

NOT_APPLICABLE = []

CA_ASSUME = """Trusted: cryptography/OpenSSL, pyasn1, the Flask test client, and the frozen virtual clock
(LD_PRELOAD). Bounds are in the evidence file; histories are merged only when the reference model state
(certificate states, open transactions, relations, elapsed time) is equal."""

PROPS = [
    dict(
        id="C01",
        title="Certificate status services agree with the request history",
        statement="""After any sequence of enrolments, key updates, certificate confirmations (accepting or
        rejecting), revocations, revivals and elapsed time, the mock CA's OCSP responder, its published CRL and
        the CRL it returns in general messages all report exactly the status which the granted requests imply:
        an accepted certificate is good, a revoked or superseded one is revoked, one the client has not confirmed
        or has refused is never reported good. Every CRL verifies under the CA certificate, lists each such
        certificate once and nothing else, and has a larger CRL number than the one before.""",
        over=["histories"],
        quant="""every sequence of protocol operations (ir, cr, kur, certConf accept/reject/bad hash, rr
        revoke/revive, time) over a small set of certificates, including sequences with refused operations""",
        why="""The unit tests check single handlers after one or two fixed operations; whether the views still
        agree depends on the whole history of operations, refused ones and elapsed time included.""",
        files=["mock_ca/ca_handler.py", "mock_ca/mock_fun.py", "mock_ca/rev_handler.py",
               "mock_ca/cert_conf_handler.py", "mock_ca/cert_req_handler.py", "mock_ca/general_msg_handler.py"],
        mechanism=[("certificate database and update state", "mock_ca/mock_fun.py"),
                   ("revocation handler", "mock_ca/rev_handler.py"),
                   ("OCSP and CRL endpoints", "mock_ca/ca_handler.py")],
        observe=["POST /issuing", "POST /ocsp", "GET /crl", "genm currentCRL"],
        technique="explicit-state exploration of the real CA against a reference model (fork-based DFS)",
        note="""All histories up to depth 5 (quick) / 6 (thorough) over 3 certificates, every answer and all three
        status views compared with the reference model after every operation. """ + CA_ASSUME,
    ),
    dict(
        id="C02",
        title="Only its requester's correct certConf confirms a certificate, and only once",
        statement="""A pending certificate becomes active (good in OCSP, usable as signer) only through a
        certConf which belongs to the open transaction that issued it, is protected by the same party and kind of
        credential as the request, echoes the CA's nonce, accepts the certificate, has exactly one entry with
        request id 0 and carries the certificate's own hash under the right hash algorithm; such a certConf is
        answered by pkiconf. Any other certConf (wrong hash, other transaction, other nonce, other signer or
        protection, changed after protection, more or no entries, contradictory status) gets an error and leaves
        every certificate's status as it was. A refusing certConf leaves the certificate unusable and, in a
        key update, gives the old certificate back. Confirming twice is refused.""",
        over=["histories", "inputs"],
        quant="""every sequence of enrolments, key updates, correct and wrong certConf messages over up to three
        certificates and several open transactions at a time""",
        why="""A confirmation joins four pieces of state (transaction, nonces, signer, certificate) left behind by
        earlier messages; unit tests build one of them at a time.""",
        files=["mock_ca/cert_conf_handler.py", "mock_ca/cert_req_handler.py", "mock_ca/mock_fun.py",
               "resources/ca_ra_utils.py"],
        mechanism=[("certConf processing", "mock_ca/cert_conf_handler.py"),
                   ("pending transactions and update state", "mock_ca/mock_fun.py")],
        observe=["POST /issuing", "POST /ocsp", "GET /crl"],
        technique="explicit-state exploration of the real CA against a reference model (fork-based DFS)",
        note="""All histories up to depth 4 (quick) / 6 (thorough) over 3 certificates, with 26 kinds of wrong
        certConf tried in every reachable state. """ + CA_ASSUME,
    ),
    dict(
        id="C03",
        title="A certificate that is not active authorises nothing",
        statement="""A request signed with a certificate which the CA has revoked, superseded by a key update,
        not yet seen confirmed, or seen refused by its owner is refused and changes no certificate's status,
        whatever the kind of request (ir, cr, p10cr, kur, ccr, rr, genm) and whatever route it takes: sent
        directly, forwarded with added protection by a registration authority, as an item of a batch, or with
        added protection inside a batch. An active certificate is accepted for each supported pair of kind and
        route. A superseding key update which nobody confirms within the confirmation time gives the old
        certificate back its right to ask for key updates, not before.""",
        over=["histories"],
        quant="""every history of enrolments, updates, confirmations, refusals, revocations, revivals and elapsed
        time over up to three certificates, followed by every kind of request on every route""",
        why="""The decision depends on the history of the signer and on which of the several code paths the
        message takes; the unit tests combine only a few of them.""",
        files=["mock_ca/ca_handler.py", "mock_ca/cert_req_handler.py", "mock_ca/nested_handler.py",
               "mock_ca/rev_handler.py", "mock_ca/general_msg_handler.py", "mock_ca/mock_fun.py"],
        mechanism=[("signer checks", "mock_ca/cert_req_handler.py"), ("forwarded messages", "mock_ca/nested_handler.py"),
                   ("certificate database", "mock_ca/mock_fun.py")],
        observe=["POST /issuing", "POST /ocsp"],
        technique="explicit-state exploration of the real CA against a reference model (fork-based DFS)",
        note="""Every use (17+ kind/route pairs) in every certificate state reachable with 3 (quick) / 4 (thorough)
        operations. """ + CA_ASSUME,
    ),
    dict(
        id="C05",
        title="Every answer belongs to its request and is authentic",
        statement="""Every CMP request that parses is answered over HTTP by one CMP message whose body is the
        response type of the request or an error, that repeats the request's transactionID, returns its
        senderNonce as recipNonce, carries a fresh senderNonce of at least 16 bytes never used before and the
        current time, names either acceptance or rejection with a failure reason (never both, never a
        systemFailure for a merely faulty request), and is protected: by a MAC under the shared secret for a
        MAC-protected request, and otherwise by a signature that verifies under the certificate it carries, which chains
        to the CA. A batch is answered by a batch with one such answer per request, in order.""",
        over=["inputs"],
        quant="""every combination of request kind (ir, cr, p10cr, kur, rr, genm, certConf, forwarded, batch),
        protection (PBM, PBMAC1, HMAC, ECDSA, RSA, Ed25519, ML-DSA, none) and fault of the request (none, flipped
        protection, wrong secret, missing/short nonce or transaction id, version, time, stray recipNonce, changed
        sender or KID, no proof of possession, unsupported body, repeated)""",
        why="""Error paths build their answers in many places; tests assert the body type of a few and hardly ever
        the header or the protection of an error.""",
        files=["mock_ca/ca_handler.py", "mock_ca/cert_req_handler.py", "mock_ca/nested_handler.py",
               "mock_ca/rev_handler.py", "mock_ca/cert_conf_handler.py", "resources/ca_ra_utils.py",
               "resources/protectionutils.py"],
        mechanism=[("answer signing", "mock_ca/ca_handler.py sign_response"),
                   ("answer headers", "resources/ca_ra_utils.py set_ca_header_fields")],
        observe=["POST /issuing"],
        technique="exhaustive enumeration of request kind x protection x fault on the real CA, independent DER/MAC/signature oracle",
        note="""The full product of the listed kinds, protections and faults (thorough; quick leaves out most
        faults for RSA, HMAC and ML-DSA). MAC and classical signatures are verified by an oracle that shares no
        code with the repository. """ + CA_ASSUME,
    ),
    dict(
        id="C06",
        title="An issued certificate certifies exactly what was requested",
        statement="""A certificate which the mock CA grants for ir, cr, p10cr or kur is an X.509 v3 certificate
        signed by the CA key under the CA's name, with the request's public key and subject unchanged, the requested
        validity (else one starting now) correctly encoded for any year, the requested serial number (else a fresh
        one) positive and never used before, exactly the key usage, extended key usage, subject alternative name and
        basic constraints which the certificate template asks for, the key's own subject key identifier, the CA's
        authority key identifier, OCSP and CRL pointers, and no extension twice. A message with several requests is
        answered by one response each, in order and with the same request ids, or refused as a whole. A template
        which asks for something not grantable (unknown extension, another key's identifier, key usage unsuited to
        the key, reversed or long past validity, empty subject without alternative name, a serial number in use or not
        positive, RSA below 2048 bits) is refused with a template or request error and no certificate.""",
        over=["inputs"],
        quant="""every combination of request kind, key type, subject, extensions, validity, serial number and
        number of requests in one message within the enumerated alphabet""",
        why="""Tests issue a handful of certificates and look at one field; a field dropped, duplicated or taken from
        the wrong request shows up only for particular combinations.""",
        files=["resources/certbuildutils.py", "resources/ca_ra_utils.py", "mock_ca/cert_req_handler.py"],
        mechanism=[("certificate building", "resources/certbuildutils.py"),
                   ("issuing responses", "resources/ca_ra_utils.py"),
                   ("request handling", "mock_ca/cert_req_handler.py")],
        observe=["POST /issuing"],
        technique="exhaustive enumeration of bounded requests on the real CA, judged by an independent DER oracle",
        note="""Product of the alphabets (subjects x extensions, validities x extensions, serial numbers x
        extensions x validities, key types x kinds x protections, multi-request messages up to 3/4 with every
        position spoiled) executed on the real CA from the same state; certificates are judged on raw DER. """ + CA_ASSUME,
    ),
    dict(
        id="C08",
        title="No certificate without proof of possession of its private key",
        statement="""The mock CA grants an ir, cr, p10cr or kur for a signature key only if the request carries a
        signature by that very private key over that very certificate request (for p10cr over the CSR), under an
        algorithm of that key. A proof which is missing, altered in any byte, shortened or extended, made by another
        key, made for another request, or moved between the requests of one message leads to a refusal of the whole
        message without any certificate, over every route (direct, RA-added protection, batch), and leaves nothing
        behind: the rightful request for the same key is granted afterwards. raVerified is believed only in an
        ir or cr which is itself signed by a trusted registration authority, never because somebody else attached
        that authority's certificate. A request whose proof is to follow (encrypted certificate, challenge) yields no
        certificate in the clear.""",
        over=["inputs"],
        quant="""every request kind, key type, protection, route and manner of spoiling the proof; every byte of the
        certificate request and of the signature; every position in a multi-request message""",
        why="""Tests try one flipped signature on one request; whether the proof of the right request under the right
        key is what gets checked depends on position, route and key type.""",
        files=["resources/ca_ra_utils.py", "mock_ca/cert_req_handler.py", "mock_ca/nested_handler.py",
               "resources/protectionutils.py", "resources/certutils.py", "pq_logic/pq_verify_logic.py",
               "pq_logic/fips/fips204.py", "pq_logic/keys/composite_sig.py"],
        mechanism=[("verify_popo_for_cert_request and raVerified", "resources/ca_ra_utils.py"),
                   ("signature verification by algorithm identifier", "resources/protectionutils.py")],
        observe=["POST /issuing"],
        technique="exhaustive enumeration of spoiled requests on the real CA (every byte, position, route)",
        note="""All kinds x 6 key types x protections x 20 ways of spoiling the proof, every single byte of request
        and signature (one bit flipped), all positions of messages with up to 3 (4) requests. """ + CA_ASSUME,
    ),
    dict(
        id="C16",
        title="One certificate per key and name, and none for a key of a revoked certificate",
        statement="""The mock CA never certifies the same public key twice for the same subject while the earlier
        certificate is active, awaits confirmation, is being updated, was updated, or was revoked - whether asked by ir,
        cr, p10cr or kur, directly, with RA-added protection, in a batch, at any position of a message with several
        requests, twice within one message or batch, or with the key as a component of a composite key. A key whose
        certificate is revoked is never certified again under any name; after the revocation is lifted it may be
        certified under another name. A key which is not in use under that name is granted in all these situations.""",
        over=["histories", "inputs"],
        quant="""every state of the earlier certificate, kind, route and position of the new request, key type, and
        same or different name""",
        why="""The answer depends on what happened to an earlier certificate, over all databases the CA keeps; tests
        look at one of these.""",
        files=["mock_ca/mock_fun.py", "mock_ca/cert_req_handler.py", "mock_ca/ca_handler.py", "mock_ca/nested_handler.py"],
        mechanism=[("KeySecurityChecker and certificate databases", "mock_ca/mock_fun.py"),
                   ("check_same_key_cert_request", "mock_ca/cert_req_handler.py")],
        observe=["POST /issuing"],
        technique="exhaustive enumeration of bounded histories on the real CA",
        note="""9 certificate states x 9 ways of asking x 2 names x 5 key types (composites included), plus every pair
        of positions in messages and batches up to 3 (4) requests. """ + CA_ASSUME,
    ),
    dict(
        id="C20",
        title="Message protection covers header and body and has the value the standards define",
        statement="""For every way of protecting a PKIMessage the library offers - MAC by HMAC, PBMAC1, PBM (each with
        SHA-1, SHA-2, SHA-3), KMAC, AES-GMAC, DHBasedMac and KEMBasedMac over every KDF and MAC, signatures with RSA,
        RSASSA-PSS, ECDSA, EdDSA, ML-DSA and composites - a message the library protects is accepted by its own
        verification after DER encoding and decoding, and its protection value is the one an independent implementation
        of the standard computes from the algorithm identifier in the header. Messages protected by that independent
        implementation are accepted. With any octet of header, body or protection value changed, any header field or
        generalInfo entry removed or changed, the body of another protected message, a missing, shortened or extended
        protection, another certificate in front, or another secret or key, the message is refused.""",
        over=["inputs"],
        quant="""every protection scheme and its parameters, message body, octet of the message, header field,
        and secret""",
        why="""Tests protect and verify with the same code, so a wrong value on both sides agrees with itself; they
        change one byte or none.""",
        files=["resources/protectionutils.py", "resources/cryptoutils.py", "resources/prepare_alg_ids.py",
               "resources/oidutils.py", "pq_logic/pq_verify_logic.py"],
        mechanism=[("protect_pkimessage / verify_pkimessage_protection", "resources/protectionutils.py"),
                   ("MAC and key derivation primitives", "resources/cryptoutils.py")],
        observe=["protect_pkimessage, protect_pkimessage_kem_based_mac",
                 "verify_pkimessage_protection, verify_hybrid_pkimessage_protection"],
        technique="exhaustive enumeration of schemes, bodies and single changes on the real code against an oracle",
        note="""Every scheme with every hash/KDF/MAC (231), 7 bodies, every octet of header, body and value for MACs and
        classical signatures (strided for post-quantum ones in the quick tier), every pair of PBM/PBMAC1/DHBasedMac
        hashes from the oracle's side. An accepted octet change must decode to the same header and body. Composite
        signatures, and KEMBasedMac towards a certificate, are checked for acceptance and tampering but not recomputed.""",
    ),
    dict(
        id="C21",
        title="Composite signatures need both components over the bound message",
        statement="""A composite signature (ML-DSA with RSA, ECDSA or EdDSA) is accepted exactly when both components
        verify, with the two public keys of the composite key, over the draft's prefix, label, context and message hash
        for that one algorithm; what the library signs has this form, and what an independent implementation signs this
        way is accepted. A signature with one component missing, swapped, altered in any octet, made with another key,
        for another message, context, label, padding or algorithm, over the message without the binding, or presented
        under another algorithm's identifier or with parameters, is refused wherever composite signatures are verified:
        key method, algorithm identifier, CSR, certificate. Only the combinations the draft defines exist; a public key
        is the two keys after one another under that algorithm's identifier, is loaded to the same key, and is not
        loaded when truncated, extended, or under the identifier of a combination with other component types.""",
        over=["inputs"],
        quant="""every composite algorithm, pair of algorithms, component left out or replaced, octet of the signature,
        message and context""",
        why="""A verifier which skips one component or the binding accepts all honest signatures, so tests which sign
        and verify with the same code pass.""",
        files=["pq_logic/keys/composite_sig.py", "pq_logic/combined_factory.py", "resources/protectionutils.py",
               "resources/keyutils.py", "resources/oid_mapping.py", "pq_logic/tmp_oids.py"],
        mechanism=[("CompositeSigPublicKey.verify and prepare_sig_input", "pq_logic/keys/composite_sig.py"),
                   ("verify_signature_with_alg_id", "resources/protectionutils.py")],
        observe=["CompositeSigPrivateKey.sign, CompositeSigPublicKey.verify, load_public_key_from_spki"],
        technique="exhaustive enumeration of component and binding combinations on the real code against an oracle",
        note="""All 18 algorithms x 24 spoiled signatures, neighbouring (thorough: all) pairs of algorithms as the wrong
        label, 4 messages x 3 contexts (thorough), every octet of the classical component and of both ends of the ML-DSA
        component. The oracle is this framework's FIPS 204 and OpenSSL's classical algorithms. ExpandA is cached.""",
    ),
    dict(
        id="C24",
        title="ML-DSA, ML-KEM and SLH-DSA compute what FIPS 203, 204 and 205 define",
        statement="""Keys from seeds, deterministic signatures (with contexts and pre-hash variants), encapsulation with
        given randomness and decapsulation have exactly the values FIPS 204, 203 and 205 define, for every parameter
        set. Verification accepts what an independent implementation signs, and refuses a signature with a change to any
        octet or the hint encoding, another message, context, key or parameter set, a wrong length, or a response whose
        norm reaches the bound; contexts above 255 octets are refused. Decapsulating a ciphertext changed in any octet
        gives the implicit-rejection secret of FIPS 203. The arithmetic underneath (Decompose, Power2Round, hints,
        NTT and its inverse, Compress/Decompress, coefficient and byte encodings) agrees with its definition on its
        whole domain.""",
        over=["inputs"],
        quant="""the whole domain of the scalar functions; every parameter set; every octet of keys, signatures,
        ciphertexts, within the bounds given""",
        why="""Tests use a few known answers or round trips; errors in rare branches (bounds, hint encoding, implicit
        rejection, q-1 special cases) do not show there.""",
        files=["pq_logic/fips/fips203.py", "pq_logic/fips/fips204.py", "pq_logic/fips/fips205.py",
               "pq_logic/fips/_fips_utils.py", "pq_logic/keys/sig_keys.py", "pq_logic/keys/kem_keys.py"],
        mechanism=[("verify_internal, sign_internal, keygen_internal", "pq_logic/fips/fips204.py"),
                   ("decaps_internal", "pq_logic/fips/fips203.py")],
        observe=["ML_DSA, ML_KEM, SLH-DSA objects and MLDSA/MLKEM/SLHDSA key classes"],
        technique="exhaustive enumeration of scalar domains and single changes on the real code against an oracle",
        note="""Scalar functions over all q values and all gamma2; octets strided in the quick tier, all in the thorough
        tier. The oracle is this framework's own implementation of the three standards. Scalar helpers are examined only
        where the implementation offers them under their present names; the rest of the check does not depend on this.""",
    ),
    dict(
        id="C15",
        title="Requests which arrive together have the effect of one after the other",
        statement="""When two requests are processed by the Mock CA at the same time, whether each is granted or refused,
        and what the OCSP and CRL services and later certConf messages then say about every certificate involved, is what
        one of the two orders of processing them one after the other gives: of two requests which exclude each other
        (the same key, the same certificate to be updated, the same transaction, accepting and rejecting the same
        certificate, updating and revoking it) exactly one is granted. Each answer belongs to its own request
        (transactionID, recipNonce, key), serial numbers, CRL numbers and nonces given out are distinct, and both
        requests are answered.""",
        over=["schedules"],
        quant="""every pair of requests in the scenes, every line of the Mock CA executed by one of them as the place at
        which the other one runs""",
        why="""The server answers requests in several threads; tests send one request after the other, so nothing they do
        ever meets a half-processed request.""",
        files=["mock_ca/ca_handler.py", "mock_ca/mock_fun.py", "mock_ca/cert_req_handler.py",
               "mock_ca/cert_conf_handler.py", "mock_ca/rev_handler.py", "mock_ca/nested_handler.py"],
        mechanism=[("CAHandler.process_normal_request, process_ocsp_request, get_current_crl", "mock_ca/ca_handler.py")],
        observe=["POST /issuing, POST /ocsp, GET /crl"],
        technique="stateless model checking: all schedules with one preemption under a controlled scheduler",
        note="""26 scenes of two requests, either one first. Preemption points are the lines of mock_ca/; code below
        (resources/, pq_logic/) runs atomically. Locks are cooperative and a deadlock is reported. Quick: within a
        section in which a request holds a lock every 20th point besides the first and last two (there the other request
        stops at that lock); thorough: every point.""",
    ),
]
