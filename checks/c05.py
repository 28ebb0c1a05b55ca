"""C05: every answer belongs to its request and is authentic."""

import calendar
import itertools
import os
import time

from mc import bootstrap, ca as C, der, indep
from mc.core import Violated, require
from mc.exchange import ANSWER, KEYS, MACS, Desk

FAULTS = [
    "none", "protection-flip", "secret", "nonce-short", "nonce-missing", "tx-missing", "tx-short", "pvno-1", "pvno-3",
    "time-old", "recip-nonce", "sender-name", "kid", "no-popo", "body-unknown", "tx-again",
]
KINDS = ["ir", "cr", "p10cr", "kur", "rr", "genm", "certConf", "added", "batch"]
BODY = {"ip": 1, "cp": 3, "kup": 8, "pkiconf": 19, "rp": 12, "genp": 22, "nested": 20, "error": 23}

desk = None
nonces = set()


def cases(quick):
    out = []
    for kind in KINDS:
        for prot in MACS + KEYS + [None]:
            if quick and prot in ("rsa",) and kind not in ("ir", "certConf"):
                continue
            for fault in FAULTS:
                if quick and prot in ("rsa", "hmac", "ml-dsa-44") and fault not in ("none", "protection-flip", "tx-missing"):
                    continue
                if fault in ("protection-flip", "kid") and prot is None:
                    continue
                if fault in ("body-unknown", "no-popo") and kind not in ("ir", "cr", "kur", "added", "batch"):
                    continue
                if fault == "secret" and prot not in MACS:
                    continue
                out.append([kind, prot, fault])
    return out


def run(case):
    global desk
    kind, prot, fault = case
    d = desk
    mac = prot in MACS
    owner = None if (mac or prot is None) else d.fresh_cert(prot)
    by = None if owner is None else prot
    key = d.L.ku.generate_key("ecc")
    inner = "ir" if kind in ("added", "batch") else kind
    name_args = {"sender": C.SENDER, "for_mac": True}
    if owner is not None:
        name_args["exclude_fields"] = "senderKID"
    if kind == "certConf":
        first = d.build("ir", key, by, imp=0, **name_args)
        ans = d.ca.send(protect(d, first, prot, owner))
        if C.status_of(ans)[1] not in ("accepted", "grantedWithMods"):
            return "not opened with %s" % prot
        msg = d.L.cm.build_cert_conf_from_resp(ans, **name_args)
    elif kind == "rr":
        name_args["exclude_fields"] = "senderKID"
        msg = d.build("rr", owner[0] if owner else d.owners["ecc"][0], "ecc", **name_args)
    elif kind == "genm":
        msg = d.build("genm", None, by, **name_args)
    else:
        if kind == "kur":
            name_args["exclude_fields"] = "senderKID"
        msg = d.build(inner, key, by, **name_args)
    p = der.Pki(C.encode(msg))
    if fault == "nonce-short":
        p.set_octets("senderNonce", os.urandom(8))
    elif fault == "nonce-missing":
        p.set_octets("senderNonce", None)
    elif fault == "tx-missing":
        p.set_octets("transactionID", None)
    elif fault == "tx-short":
        p.set_octets("transactionID", os.urandom(7))
    elif fault == "pvno-1":
        p.header[0].data = b"\x01"
    elif fault == "pvno-3":
        p.header[0].data = b"\x03"
    elif fault == "time-old":
        p.field("messageTime").data = b"20250101000000Z"
    elif fault == "recip-nonce" and kind != "certConf":
        p.set_octets("recipNonce", os.urandom(16))
    elif fault == "no-popo" and inner in ("ir", "cr", "kur"):
        p.body[0][0].kids = p.body[0][0].kids[:1]
    elif fault == "body-unknown":
        p.body.tag = b"\xa9"  # krr
    msg = d.L.cm.parse_pkimessage(p.encode())
    if fault == "secret":
        msg = d.mac(msg, prot, secret="not the secret!!")
    else:
        msg = protect(d, msg, prot, owner)
    p = der.Pki(C.encode(msg))
    if fault == "protection-flip":
        p.flip_protection(8)
    elif fault == "kid":
        p.set_octets("senderKID", b"nobody")
    elif fault == "sender-name":
        s = p.header[1]
        p.header.kids[1] = der.parse(s.encode().replace(b"Hans", b"Hanz"))
    if kind == "added":
        m = d.ra.added(d.L.cm.parse_pkimessage(p.encode())) if fault not in ("tx-missing", "nonce-missing") else None
        if m is None:
            return "no envelope"
        p = der.Pki(C.encode(m))
    elif kind == "batch":
        other = d.mac(d.build("ir", d.L.ku.generate_key("ecc"), None))
        p = der.Pki(C.encode(d.ra.batch([other, d.L.cm.parse_pkimessage(p.encode())])))
    req = p.encode()
    if fault == "tx-again":
        d.ca.post(req)
    status, data = d.ca.post(req)
    label = "%s/%s/%s" % (kind, "mac" if mac else "sig" if prot else "none", fault)
    require(status == 200, "http-%d:%s" % (status, label), data[:300])
    return label + " -> " + judge(d, case, req, data, label)


def protect(d, msg, prot, owner):
    return d.protect(msg, owner if owner is not None else prot)


def judge(d, case, req, data, label):
    kind, prot, fault = case
    want = {"added": "ip", "batch": "nested"}.get(kind, ANSWER.get(kind))
    if fault == "body-unknown":
        want = "error"
    body, st, fi, how = judge_one(d, req, data, want, label, fault in ("body-unknown", "pvno-1"))
    if prot in MACS and kind != "batch" and kind != "added":
        require(how == "mac", "answer-not-mac:%s" % label)
    elif prot is not None and prot not in MACS:
        require(how == "sig", "answer-not-signed:%s" % label)
    if kind == "batch" and body == "nested":
        judge_batch(d, req, data, ["ip", "ip"], ["mac", "mac" if prot in MACS else "sig" if prot else None], label)
    return "%s %s %s %s" % (body, st, fi, how)


def judge_batch(d, req, data, want, how, label):
    inner_q = [k.encode() for k in der.parse(req)[1][0].kids]
    inner_a = [k.encode() for k in der.parse(data)[1][0].kids]
    require(len(inner_q) == len(inner_a), "batch-size:%s" % label, "%d answers" % len(inner_a))
    out = []
    for x, y, w, h in zip(inner_q, inner_a, want, how):
        body, st, _, by = judge_one(d, x, y, w, "inner " + label)
        if h:
            require(by == h, "inner-protection:%s" % label, "%s instead of %s" % (by, h))
        out.append("%s-%s" % (body, st))
    return out


def judge_one(d, req, data, want, label, failure_ok=False):
    a, q = indep.header(data), indep.header(req)
    msg = d.L.cm.parse_pkimessage(data)
    body = C.body(msg)
    require(body in BODY and BODY[body] == a["body"], "body-tag:%s" % label, body)
    require(body in (want, "error"), "answer-kind:%s" % label, "%s instead of %s" % (body, want))
    # bound to the request
    if q["transactionID"] is not None:
        require(a["transactionID"] == q["transactionID"], "transaction-id:%s" % label, "%r" % a["transactionID"])
    if q["senderNonce"] is not None:
        require(a["recipNonce"] == q["senderNonce"], "recip-nonce:%s" % label, "%r" % a["recipNonce"])
    n = a["senderNonce"]
    require(n is not None and len(n) >= 16, "sender-nonce:%s" % label, repr(n))
    require(n not in nonces and n != q["senderNonce"] and n != q["recipNonce"], "sender-nonce-reused:%s" % label)
    nonces.add(n)
    t = calendar.timegm(time.strptime(a["messageTime"] or "19700101000000Z", "%Y%m%d%H%M%SZ"))
    require(abs(t - bootstrap.now()) <= 60, "message-time:%s" % label, a["messageTime"])
    # says what happened
    _, st, fi = C.status_of(msg)
    if body not in ("pkiconf", "genp", "nested"):
        require(st in ("accepted", "grantedWithMods", "rejection"), "status:%s" % label, st)
        require((st == "rejection") == bool(fi), "fail-info:%s" % label, "%s %s" % (st, fi))
    require(fi != "systemFailure" or failure_ok, "system-failure:%s" % label, C.text_of(msg))
    # authentic
    now, asked = indep.protection_of(data), indep.protection_of(req)
    if q["body"] == 20:  # an envelope is answered in the way of the client inside it
        inside = der.parse(req)[1][0].kids
        if len(inside) == 1:
            asked = indep.protection_of(inside[0].encode())
    require(now is not None, "answer-unprotected:%s" % label, body)
    macs = lambda p: p is not None and (p[0] in (indep.PBM, indep.PBMAC1) or p[0] in indep.HMAC)
    if macs(now):
        require(asked is None or macs(asked), "answer-mac:%s" % label)
        require(indep.mac_ok(data, C.SECRET), "answer-mac-invalid:%s" % label)
        return body, st, fi, "mac"
    chain = indep.certs_of(data)
    require(chain, "answer-without-certificate:%s" % label)
    require(indep.signature_ok(data), "answer-signature:%s" % label)
    require(
        chain[0] == d.root or any(indep.issued_by(chain[0], x) for x in chain[1:] + [d.root]),
        "answer-signer:%s" % label,
    )
    return body, st, fi, "sig"


# -- batches: every sequence of members, with each one spoiled in turn ----------------------------------
MEMBERS = {"ir-mac": "ip", "cr-sig": "cp", "p10cr-mac": "cp", "kur-sig": "kup", "added-ir": "ip", "ir-pend": "ip"}
SPOIL = [None, "taken-key", "rsa-1024", "popo"]


def member(d, what, spoil=None):
    args = {"sender": C.SENDER, "for_mac": True}
    key = d.L.ku.generate_key("ecc")
    name = "CN=Member %s" % os.urandom(4).hex()
    if spoil == "rsa-1024":
        from cryptography.hazmat.primitives.asymmetric import rsa

        key = rsa.generate_private_key(65537, 1024)
    owner = d.fresh_cert("ecc") if what.endswith("sig") else None
    if spoil == "taken-key":
        _, key = owner or d.fresh_cert("ecc")
        name = C.EE
    if owner:
        args["exclude_fields"] = "senderKID"
    cm = d.L.cm
    kind = what.split("-")[0] if what != "added-ir" else "ir"
    if kind == "ir":
        msg = cm.build_ir_from_key(key, common_name=name, implicit_confirm=what != "ir-pend", **args)
    elif kind == "cr":
        msg = cm.build_cr_from_key(key, common_name=name, implicit_confirm=True, **args)
    elif kind == "p10cr":
        msg = cm.build_p10cr_from_key(key, common_name=name, implicit_confirm=True, **args)
    else:
        msg = cm.build_key_update_request(key, common_name=name if spoil == "taken-key" else C.EE, implicit_confirm=True, **args)
    if spoil == "popo":
        p = der.Pki(C.encode(msg))
        bits = p.body[0][2] if kind == "p10cr" else p.body[0][0][1][1]
        bits.data = bits.data[:-1] + bytes([bits.data[-1] ^ 1])
        msg = cm.parse_pkimessage(p.encode())
    msg = d.protect(msg, owner or "password_based_mac")
    return d.ra.added(msg) if what == "added-ir" else msg


def run_batch(case):
    seq, at, spoil = case
    d = desk
    label = "batch %s %s" % ("+".join(seq), spoil)
    items = [member(d, what, spoil if i == at else None) for i, what in enumerate(seq)]
    req = C.encode(d.ra.batch(items))
    status, data = d.ca.post(req)
    require(status == 200, "http-%d:%s" % (status, label), data[:300])
    body, st, fi, _ = judge_one(d, req, data, "nested", label)
    if body == "error":
        require(spoil, "batch-refused:%s" % label, fi)
        return "%s -> refused as a whole: %s" % (label, fi)
    out = judge_batch(
        d, req, data, [MEMBERS[x] for x in seq],
        ["sig" if x.endswith("sig") else None if x == "added-ir" else "mac" for x in seq], label,
    )
    for i, x in enumerate(out):
        require(x.endswith("accepted") or (i == at and spoil), "innocent-refused:%s" % label, "member %d: %s" % (i, x))
    return "%s -> %s" % (label, out)


def run_confs(case):
    """A batch of confirmations, in the order of the requests or another, with one of them spoiled."""
    order, at, spoil = case
    d = desk
    args = {"sender": C.SENDER, "for_mac": True}
    msgs = []
    for i in range(len(order)):
        ans = d.ca.send(d.mac(d.L.cm.build_ir_from_key(d.L.ku.generate_key("ecc"), common_name="CN=Conf%d" % i, implicit_confirm=False, **args)))
        conf = d.L.cm.build_cert_conf_from_resp(ans, **args)
        if i == at and spoil == "hash":
            p = der.Pki(C.encode(conf))
            h = p.body[0][0][0]
            h.data = bytes([h.data[0] ^ 1]) + h.data[1:]
            conf = d.L.cm.parse_pkimessage(p.encode())
        msgs.append(d.mac(conf))
    msgs = [msgs[i] for i in order]
    req = C.encode(d.ra.batch(msgs, recip=True))
    label = "batch of certConf %s %s" % (order, spoil)
    status, data = d.ca.post(req)
    require(status == 200, "http-%d:%s" % (status, label), data[:300])
    body, st, fi, _ = judge_one(d, req, data, "nested", label)
    if body == "error":
        require(spoil, "batch-refused:%s" % label, fi)
        return "%s -> refused as a whole: %s" % (label, fi)
    return "%s -> %s" % (label, judge_batch(d, req, data, ["pkiconf"] * len(order), ["mac"] * len(order), label))


def batches(quick):
    out = []
    for n in (2,) if quick else (2, 3):
        for seq in itertools.product(sorted(MEMBERS), repeat=n):
            out.append(["seq", list(seq), -1, None])
            for at, spoil in itertools.product(range(n), SPOIL[1:]):
                if quick and (spoil == "popo" or seq[at] in ("ir-pend",) or seq[1 - at] not in ("ir-mac", "kur-sig")):
                    continue
                out.append(["seq", list(seq), at, spoil])
    for n in (2, 3):
        for order in itertools.permutations(range(n)):
            out.append(["confs", list(order), -1, None])
            for at in range(n):
                out.append(["confs", list(order), at, "hash"])
    return out


def dispatch(case):
    if case[0] == "seq":
        return run_batch(case[1:])
    if case[0] == "confs":
        return run_confs(case[1:])
    return run(case)


def explore(ctx):
    global desk
    desk = Desk()
    ctx.each(cases(ctx.quick) + batches(ctx.quick), dispatch, fork=True)


def replay(ctx, case):
    global desk
    desk = Desk()
    ctx.one(case, dispatch)
