"""C08: a certificate is granted only on proof of possession of its own private key (or a trusted RA's word)."""

import itertools

from mc import ca as C, der, indep
from mc.core import require
from mc.exchange import Desk, make_key

KEYS = ["ecc", "ed25519", "rsa", "ed448", "ml-dsa-44", "composite"]
desk = None
OTHER_ALG = {
    "ecc": "06082a8648ce3d040303",  # ecdsa-with-SHA384
    "rsa": "06092a864886f70d01010c",  # sha384WithRSA
    "ed25519": "06032b6571",  # Ed448
    "ed448": "06032b6570",
    "ml-dsa-44": "0609608648016503040312",  # ml-dsa-65
    "composite": "06032b6570",
}


def build(kind, key, owner, subject=None, **kw):
    args = dict(sender=C.SENDER, for_mac=True)
    if owner or kind == "kur":
        args["exclude_fields"] = "senderKID"
    args.update(kw)
    if kind == "p10cr":
        from resources.certbuildutils import build_csr

        csr = build_csr(key, common_name=subject or C.EE, hash_alg="sha256" if name_of(key) in ("ecc", "rsa") else None)
        return desk.L.cm.build_p10cr_from_csr(csr, implicit_confirm=True, **args)
    if kind == "kur":
        return desk.L.cm.build_key_update_request(key, common_name=subject or C.EE, implicit_confirm=True, **args)
    f = {"ir": desk.L.cm.build_ir_from_key, "cr": desk.L.cm.build_cr_from_key}[kind]
    return f(key, common_name=subject or C.EE, implicit_confirm=True, **args)


def name_of(key):
    n = type(key).__name__.lower()
    return "ecc" if n in ("ecprivatekey", "ellipticcurveprivatekey") else "rsa" if "rsapriv" in n and "composite" not in n else n


def proof(p, kind, i=0):
    """(signed node, algorithm node, BIT STRING node) of request i of message p."""
    if kind == "p10cr":
        csr = p.body[0]
        return csr[0], csr[1], csr[2]
    msg = p.body[0][i]
    return msg[0], msg[1][0], msg[1][1]


def sign_as(key, node):
    """A proof (algorithm, BIT STRING) by key over node, produced by asking the library for a CSR-like proof."""
    from resources.cryptoutils import sign_data

    hash_alg = "sha256" if name_of(key) in ("ecc", "rsa") else None
    return sign_data(node.encode(), key, hash_alg=hash_alg)


def mutate(case, p, kind, key, owner):
    """Apply the attack to the unprotected request; returns True if a proof remains valid."""
    keyname, attack = case["key"], case["attack"]
    signed, alg, bits = proof(p, kind)
    what, _, arg = attack.partition(":")
    sig = bits.data[1:]
    if what == "none":
        return True
    if what == "flip":
        i = int(arg) % len(sig)
        bits.data = b"\x00" + sig[:i] + bytes([sig[i] ^ 1]) + sig[i + 1 :]
    elif what == "empty":
        bits.data = b"\x00"
    elif what == "short":
        bits.data = b"\x00" + sig[:-1]
    elif what == "long":
        bits.data = b"\x00" + sig + b"\x00"
    elif what == "zero":
        bits.data = b"\x00" + bytes(len(sig))
    elif what == "swap-halves":
        h = len(sig) // 2
        bits.data = b"\x00" + sig[h:] + sig[:h]
    elif what == "alg":
        alg.kids[0] = der.parse(bytes.fromhex(OTHER_ALG[keyname]))
    elif what == "other-key":
        bits.data = b"\x00" + sign_as(make_key(keyname), signed)
    elif what == "owner-key":
        okey = owner[1] if owner else make_key("ecc")
        q = der.Pki(C.encode(build(kind, okey, owner)))
        _, a2, _ = proof(q, kind)
        alg.kids = a2.kids
        bits.data = b"\x00" + sign_as(okey, signed)
    elif what == "pasted":
        q = der.Pki(C.encode(build(kind, key, owner, subject="CN=Somebody Else")))
        bits.data = proof(q, kind)[2].data
    elif what == "subject":
        t = signed.encode().replace(b"Hans the", b"Hanz the")
        replace(p, kind, der.parse(t))
    elif what == "pubkey":
        q = der.Pki(C.encode(build(kind, make_key(keyname), owner)))
        replace(p, kind, proof(q, kind)[0])
    elif what == "resigned":
        bits.data = b"\x00" + sign_as(key, signed)
        return True
    elif what == "byte":
        data = bytearray(signed.encode())
        data[int(arg)] ^= 1
        replace(p, kind, Raw(bytes(data)))
    elif what == "skinput":
        # a proof over sender and key instead of over the request (only for requests without a subject)
        sender = der.parse(bytes.fromhex("a00d810b") + b"a@b.example")
        skin = der.Node(b"\xa0", [sender, public_key(signed)])
        over = {"seq": der.Node(b"\x30", skin.kids), "tagged": skin, "request": signed}[arg]
        p.body[0][0][1].kids.insert(0, skin)
        bits.data = b"\x00" + sign_as(key, over)
    elif what == "absent":
        p.body[0][0].kids = p.body[0][0].kids[:1]
    elif what == "raverified":
        p.body[0][0].kids[1] = der.Node(b"\x80", None, b"")
    elif what in ("encr", "challenge", "encr-ka"):
        sub = der.Node(b"\x81", None, b"\x00" if what != "challenge" else b"\x01")
        p.body[0][0].kids[1] = der.Node(b"\xa3" if what == "encr-ka" else b"\xa2", [sub])
    else:
        raise ValueError(what)
    return False


def public_key(req):
    """The subjectPublicKeyInfo of the template, as a node of its own."""
    spki = req[1].find(0xA6)
    return der.Node(b"\x30", spki.kids)


class Raw:
    def __init__(self, data):
        self.data = data
        self.kids = None

    def encode(self):
        return self.data


def replace(p, kind, node):
    if kind == "p10cr":
        p.body[0].kids[0] = node
    else:
        p.body[0][0].kids[0] = node


def with_certs(msg_der, certs):
    """Put certificates in front of extraCerts."""
    top = der.parse(msg_der)
    for k in top.kids[2:]:
        if k.tag == b"\xa1":
            k[0].kids = [der.parse(c) for c in certs] + k[0].kids
            return top.encode()
    top.kids.append(der.Node(b"\xa1", [der.Node(b"\x30", [der.parse(c) for c in certs])]))
    return top.encode()


def ra_chain():
    """The RA's certificate and chain, which anybody can copy from a message of the RA."""
    return indep.certs_of(C.encode(desk.ra.sign(build("ir", make_key("ecc"), True))))


def deliver(case, p, owner):
    prot, route = case["prot"], case["route"]
    msg = desk.L.cm.parse_pkimessage(p.encode())
    if prot == "ra":
        msg = desk.ra.sign(msg)
    elif prot == "mac+ra":
        msg = desk.mac(msg)
        msg = desk.L.cm.parse_pkimessage(with_certs(C.encode(msg), ra_chain()))
    elif prot == "sig+ra":
        msg = desk.sign(msg, owner)
        msg = desk.L.cm.parse_pkimessage(with_certs(C.encode(msg), ra_chain()))
    else:
        msg = desk.protect(msg, owner or "password_based_mac")
    if route == "added":
        msg = desk.ra.added(msg)
    elif route == "batch":
        other = make_key("ecc")
        msg = desk.ra.batch([msg, desk.mac(build("ir", other, None, subject="CN=Another"))])
    elif route == "added-by-client":
        h = msg["header"]
        wrap = desk.L.cm.build_nested_pkimessage(
            other_messages=[msg], transaction_id=h["transactionID"].asOctets(), sender_nonce=h["senderNonce"].asOctets(),
            for_added_protection=True, exclude_fields="sender,senderKID,recipNonce",
        )
        msg = desk.sign(wrap, desk.fresh_cert("ecc"))
    ans = desk.ca.send(msg)
    if C.body(ans) == "nested":
        ans = ans["body"]["nested"][0]
    return ans


def plain_certs(ans):
    """Certificates granted by this answer, in the clear or encrypted."""
    p = der.Pki(C.encode(ans))
    if C.body(ans) not in ("ip", "cp", "kup", "ccp"):
        return []
    seq = [k for k in p.body[0].kids if k.tag == b"\x30"][-1]
    out = []
    for r in seq.kids:
        for k in r.kids[2:]:
            if k.tag == b"\x30" and k.kids and k[0].tag in (b"\xa0", b"\xa1"):
                out.append((k[0].tag[0] & 31, k[0][0].encode()))
    return out


def run(case):
    if "keys" in case:
        return run_many(case)
    kind, keyname, prot = case["kind"], case["key"], case["prot"]
    owner = desk.fresh_cert("ecc") if prot in ("sig", "sig+ra") or (kind == "kur" and prot not in ("ra",)) else None
    key = make_key(keyname)
    p = der.Pki(C.encode(build(kind, key, owner or (prot == "ra"))))
    ok = mutate(case, p, kind, key, owner)
    what = case["attack"].partition(":")[0]
    label = "%s/%s/%s/%s/%s" % (kind, keyname, prot, case["route"], what)
    try:
        ans = deliver(case, p, owner)
    except Exception:
        if what == "byte":
            return "%s -> not even parsed" % label
        raise
    name, st, fi = C.status_of(ans)
    certs = plain_certs(ans)
    if case["route"] == "added-by-client":
        ok = False
    if prot == "ra" and what == "raverified":
        ok = True
    if prot in ("mac+ra", "sig+ra") and what == "none":
        ok = prot == "mac+ra"
    if what == "raverified" and kind in ("kur",):
        ok = False
    if what in ("encr-ka", "encr", "challenge") and keyname == "ecc":
        # possession shown later: nothing usable may be handed out in the clear
        require(all(tag == 1 for tag, _ in certs), "certificate-before-proof:" + label)
        return "%s -> %s %s %s" % (label, name, st, fi)
    if case["attack"] == "skinput:request":
        # possession of the key is proved, if not in the prescribed way
        require(bool(certs) == (st in ("accepted", "grantedWithMods")), "half-granted:" + label, "%s %s" % (name, st))
        return "%s -> %s %s" % (label, name, st)
    if ok:
        require(st in ("accepted", "grantedWithMods") and certs, "good-proof-refused:" + label, "%s %s" % (fi, C.text_of(ans)))
        return "%s -> granted" % label
    if what == "byte" and not certs and name == "error":
        return "%s -> %s %s" % (label, st, fi)
    require(not certs and (st == "rejection" or name == "popdecc"), "granted-without-proof:" + label, "%s %s %s" % (name, st, case))
    # and nothing of it remains: the rightful request for the same key is granted
    if what not in ("byte", "challenge"):
        q = build(kind, key, owner)
        again = desk.ca.send(desk.protect(q, owner or ("password_based_mac" if kind != "kur" else desk.fresh_cert("ecc"))))
        require(C.status_of(again)[1] in ("accepted", "grantedWithMods"), "refused-request-left-a-trace:" + label, C.text_of(again))
    return "%s -> %s" % (label, fi)


def run_many(case):
    """cr with several requests, a defect in one of them."""
    names, at, what = case["keys"], case["at"], case["attack"]
    cm = desk.L.cm
    keys = [make_key(n) for n in names]
    items = [cm.prepare_cert_req_msg(k, common_name="CN=Number %d" % i, cert_req_id=i,
                                     **({} if n in ("ecc", "rsa") else {"hash_alg": None}))
             for i, (k, n) in enumerate(zip(keys, names))]
    p = der.Pki(C.encode(cm.build_cr_from_key(keys[0], cert_req_msg=items, sender=C.SENDER, for_mac=True, implicit_confirm=True)))
    signed, alg, bits = proof(p, "cr", at)
    if what == "flip":
        bits.data = bits.data[:-1] + bytes([bits.data[-1] ^ 1])
    elif what == "pasted":
        other = (at + 1) % len(names)
        alg.kids = proof(p, "cr", other)[1].kids
        bits.data = proof(p, "cr", other)[2].data
    elif what == "absent":
        p.body[0][at].kids = p.body[0][at].kids[:1]
    elif what == "raverified":
        p.body[0][at].kids[1] = der.Node(b"\x80", None, b"")
    elif what == "kga":
        # an empty public key asks the CA to generate one: the other requests still need their proofs
        victim = (at + 1) % len(names)
        v = proof(p, "cr", victim)[2]
        v.data = v.data[:-1] + bytes([v.data[-1] ^ 1])
        t = p.body[0][at][0][1]
        spki = t.find(0xA6)
        spki.kids[1] = der.Node(b"\x03", None, b"\x00")
        p.body[0][at].kids = p.body[0][at].kids[:1]
    label = "cr*%d/%s@%d" % (len(names), what, at)
    ans = desk.ca.send(desk.mac(cm.parse_pkimessage(p.encode())))
    name, st, fi = C.status_of(ans)
    certs = plain_certs(ans)
    if what == "none":
        require(len(certs) == len(names), "good-proof-refused:" + label, C.text_of(ans))
        return label + " -> granted"
    require(not certs and st == "rejection", "granted-without-proof:" + label, "%s %s" % (name, st))
    return "%s -> %s" % (label, fi)


def request_size(kind):
    key = make_key("ed25519")
    p = der.Pki(C.encode(build(kind, key, None)))
    return len(proof(p, kind)[0].encode())


def cases(quick):
    out = []

    def add(kind, key, prot, route, attack):
        out.append(dict(kind=kind, key=key, prot=prot, route=route, attack=attack))

    simple = ["none", "empty", "short", "long", "zero", "swap-halves", "alg", "other-key", "owner-key", "pasted", "subject",
              "pubkey", "resigned", "flip:0", "flip:-1", "flip:7"]
    crmf = ["skinput:seq", "skinput:tagged", "skinput:request", "absent", "raverified", "encr", "challenge", "encr-ka"]
    for kind in ("ir", "cr", "p10cr", "kur"):
        prots = ["sig"] if kind == "kur" else ["mac", "sig"]
        for key, prot, attack in itertools.product(KEYS, prots, simple + ([] if kind == "p10cr" else crmf)):
            if kind == "kur" and attack in ("encr", "challenge", "encr-ka"):
                continue
            if quick and key in ("rsa", "composite") and prot == "sig" and kind != "kur":
                continue
            add(kind, key, prot, "direct", attack)
        for route, key in itertools.product(["added", "batch", "added-by-client"], ["ecc", "ed25519"]):
            for prot in prots:
                for attack in ["none", "flip:3", "other-key", "pasted", "pubkey"] + ([] if kind == "p10cr" else ["absent", "raverified"]):
                    add(kind, key, prot, route, attack)
        if kind in ("ir", "cr"):
            for prot, route in itertools.product(["mac+ra", "sig+ra"], ["direct", "added", "batch"]):
                for attack in ["none", "raverified", "absent", "flip:3"]:
                    add(kind, "ecc", prot, route, attack)
        if kind == "ir":
            for route, attack in itertools.product(["direct", "added", "batch"], ["none", "raverified", "absent", "flip:3"]):
                add(kind, "ecc", "ra", route, attack)
        n = request_size(kind)
        for i in range(n):
            add(kind, "ed25519", "mac" if kind != "kur" else "sig", "direct", "byte:%d" % i)
        for i in range(64):
            add(kind, "ed25519", "mac" if kind != "kur" else "sig", "direct", "flip:%d" % i)
    for n in (2, 3) if quick else (2, 3, 4):
        for combo in itertools.product(["ecc", "ed25519"], repeat=n):
            out.append(dict(keys=list(combo), at=0, attack="none"))
            for at, attack in itertools.product(range(n), ["flip", "pasted", "absent", "raverified", "kga"]):
                out.append(dict(keys=list(combo), at=at, attack=attack))
    return out


def setup():
    global desk
    desk = Desk(keys=["ecc"])


def explore(ctx):
    setup()
    cs = cases(ctx.quick)
    ctx.rule = "%d requests: kinds x keys x protections x routes x ways of spoiling the proof; every byte of request and proof" % len(cs)
    ctx.each(cs, run, fork=True)


def replay(ctx, case):
    setup()
    ctx.one(case, run)
