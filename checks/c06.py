"""C06: an issued certificate certifies exactly what was requested, nothing else."""

import calendar
import hashlib
import itertools
import time
from datetime import datetime, timezone

from mc import bootstrap, ca as C, der, indep
from mc.core import require
from mc.exchange import Desk

SIG_KEYS = ["ecc", "rsa", "ed25519", "ed448", "ml-dsa-44", "ml-dsa-65", "ml-dsa-87", "slh-dsa-sha2-128f", "composite-sig", "hss"]
SUBJECTS = ["CN=Hans the Tester", "C=DE,O=Siemens AG,OU=Test,CN=Some Body", "CN=J\u00fcrgen \u00dc", "CN=" + "x" * 64, "Null-DN"]
EXTS = {
    "none": ({}, True),
    "ku": (dict(key_usage="digitalSignature"), True),
    "ku2": (dict(key_usage="digitalSignature,keyAgreement"), True),
    "ku-ca": (dict(is_ca=True, path_length=3, key_usage="keyCertSign"), True),
    "eku": (dict(eku="cmcRA"), True),
    "san": (dict(SubjectAltName="example.com"), True),
    "bc": (dict(is_ca=False), True),
    "all": (dict(is_ca=False, key_usage="digitalSignature", eku="cmcRA,cmcCA", SubjectAltName="a.example.com"), True),
    "unknown": (dict(invalid_extension=True), False),
    "ku-wrong": (dict(key_usage="keyEncipherment"), False),
    "ku-ca-wrong": (dict(is_ca=False, key_usage="keyCertSign"), False),
    "ski": ("own", True),
    "ski-other": ("other", False),
}
T = bootstrap.EPOCH
DAY = 86400
VALID = {
    "default": (None, None, True),
    "both": (0, 30, True),
    "nb": (5, None, True),
    "na": (None, 700, True),
    "nb-9": (-9, None, True),
    "nb-11": (-11, 400, False),
    "equal": (3, 3, True),
    "reversed": (30, 10, False),
    "2049": (0, 8700, True),
    "2050": (0, 8800, True),
    "2080": (10000, 20000, True),
    "na-2060-nb-default": (None, 12000, True),
}
SERIALS = {"none": True, "own": True, "big": True, "used": False, "ca": False, "zero": False, "negative": False, "revoked": False}

desk = None
serials = set()
CA_EXT = ["2.5.29.35", "1.3.6.1.5.5.7.1.1", "2.5.29.31"]


def make_key(name):
    ku = desk.L.ku
    if name == "rsa":
        return ku.generate_key("rsa", length=2048)
    if name == "rsa-short":
        return ku.generate_key("rsa", length=1024)
    return ku.generate_key(name)


def spki_of(key):
    from resources.keyutils import prepare_subject_public_key_info

    return C.encode(prepare_subject_public_key_info(key.public_key()))


def template(key, subject, ext, valid, serial, used):
    cb = desk.L.cb
    args = dict(key=key, subject=subject, exclude_fields="validity" if valid == "default" else "")
    spec = EXTS[ext][0]
    if spec == "own":
        args["extensions"] = cb.prepare_extensions(key=key, critical=False)
    elif spec == "other":
        args["extensions"] = cb.prepare_extensions(key=desk.L.ku.generate_key("ecc"), critical=False)
    elif spec:
        args["extensions"] = cb.prepare_extensions(critical=True, **spec)
    number = {"own": 4711, "big": (1 << 158) + 5, "zero": 0, "negative": -5}.get(serial, used.get(serial))
    if number is not None:
        args["serial_number"] = number
    tmpl = cb.prepare_cert_template(**args)
    wanted = None
    if valid != "default":
        nb, na, _ = VALID[valid]
        wanted = (nb, na)
        # the template is filled in by our own encoder: OptionalValidity [4] { [0] notBefore, [1] notAfter }
        node = der.parse(C.encode(tmpl))
        kids = []
        for i, off in ((0, nb), (1, na)):
            if off is None:
                continue
            kids.append(der.Node(bytes([0xA0 + i]), [time_node(T + off * DAY)]))
        v = der.Node(b"\xa4", kids)
        node.kids = [k for k in node.kids if k.tag != b"\xa4"]
        at = next((i for i, k in enumerate(node.kids) if k.tag[0] & 31 > 4), len(node.kids))
        node.kids.insert(at, v)
        return node, number, wanted
    return der.parse(C.encode(tmpl)), number, wanted


def time_node(t):
    d = datetime.fromtimestamp(t, timezone.utc)
    if d.year < 2050:
        return der.Node(b"\x17", None, d.strftime("%y%m%d%H%M%SZ").encode())
    return der.Node(b"\x18", None, d.strftime("%Y%m%d%H%M%SZ").encode())


def time_value(node):
    s = node.data.decode()
    if node.tag == b"\x17":
        require(len(s) == 13, "time-format", s)
        s = ("20" if int(s[:2]) < 50 else "19") + s
    else:
        require(int(s[:4]) >= 2050, "time-format", s)
    return calendar.timegm(time.strptime(s, "%Y%m%d%H%M%SZ"))


def extensions(tbs):
    for k in tbs.kids:
        if k.tag == b"\xa3":
            return [(indep.oid(e[0]), len(e.kids) == 3 and e[1].data != b"\x00", e.kids[-1].data) for e in k[0].kids]
    return []


def judge(cert_der, label, spki, subject, wanted_ext, validity, number, now=T):
    """Compare a certificate with what was asked, on the raw DER."""
    root = der.parse(desk.root)[0]
    top = der.parse(cert_der)
    tbs = top[0]
    require(tbs[0].tag == b"\xa0" and tbs[0][0].data == b"\x02", "version:" + label)
    sn = indep.to_int(tbs[1])
    require(0 < sn < 1 << 160, "serial-range:" + label, sn)
    require(sn not in serials, "serial-reused:" + label, sn)
    serials.add(sn)
    require(number is None or sn == number, "serial-not-as-requested:" + label, "%s instead of %s" % (sn, number))
    require(tbs[2].encode() == top[1].encode(), "signature-algorithm-mismatch:" + label)
    require(tbs[3].encode() == root[5].encode(), "issuer:" + label)
    require(indep.issued_by(cert_der, desk.root), "signature:" + label)
    nb, na = time_value(tbs[4][0]), time_value(tbs[4][1])
    require(nb <= na, "validity-reversed:" + label, "%s %s" % (nb, na))
    if validity is None:
        require(now - 2 * DAY <= nb <= now + 60, "not-before:" + label, nb)
        require(na - nb >= 300 * DAY, "not-after:" + label, na)
    else:
        if validity[0] is not None:
            require(nb == T + validity[0] * DAY, "not-before:" + label, "%s instead of day %s" % (nb, validity[0]))
        else:
            require(now - 2 * DAY <= nb <= now + 60, "not-before:" + label, nb)
        if validity[1] is not None:
            require(na == T + validity[1] * DAY, "not-after:" + label, "%s instead of day %s" % (na, validity[1]))
    require(tbs[5].encode() == subject, "subject:" + label, tbs[5].encode().hex())
    require(tbs[6].encode() == spki, "public-key:" + label)
    exts = extensions(tbs)
    ids = [e[0] for e in exts]
    require(len(set(ids)) == len(ids), "extension-twice:" + label, ids)
    by = {e[0]: e for e in exts}
    for oid, crit, value in wanted_ext:
        require(oid in by, "extension-missing:%s:%s" % (oid, label))
        require(by[oid][2] == value, "extension-changed:%s:%s" % (oid, label), by[oid][2].hex())
    granted = {"2.5.29.15", "2.5.29.37", "2.5.29.19", "2.5.29.17"}
    extra = granted.intersection(ids).difference(e[0] for e in wanted_ext)
    require(not extra, "extension-not-requested:" + label, sorted(extra))
    if "2.5.29.14" in by:
        bits = der.parse(spki)[1].data[1:]
        ski = der.parse(by["2.5.29.14"][2]).data
        require(ski == hashlib.sha1(bits).digest(), "subject-key-identifier:" + label, ski.hex())
        require(not by["2.5.29.14"][1], "ski-critical:" + label)
    require("2.5.29.14" in by, "ski-missing:" + label)
    for oid in CA_EXT:
        require(oid in by, "ca-extension-missing:%s:%s" % (oid, label), ids)
    if "2.5.29.35" in by:
        caski = dict((e[0], e[2]) for e in extensions(root)).get("2.5.29.14")
        want = der.parse(caski).data if caski else hashlib.sha1(root[6][1].data[1:]).digest()
        aki = der.parse(by["2.5.29.35"][2]).find(0x80)
        require(aki is not None and aki.data == want, "authority-key-identifier:" + label)


def message(kind, body_items, owner):
    """A protected message asking for `body_items` (CertReqMsg list)."""
    cm = desk.L.cm
    args = dict(sender=C.SENDER, for_mac=True, implicit_confirm=True)
    if owner:
        args["exclude_fields"] = "senderKID"
    key = desk.L.ku.generate_key("ed25519")
    build = {"ir": cm.build_ir_from_key, "cr": cm.build_cr_from_key, "kur": cm.build_key_update_request}[kind]
    return build(key, cert_req_msg=body_items, **args)


def send(msg, owner):
    return desk.ca.send(desk.protect(msg, owner or "password_based_mac"))


def cert_req_msg(key, node, req_id=0, **kw):
    from pyasn1.codec.der import decoder
    from pyasn1_alt_modules import rfc4211

    t, rest = decoder.decode(node.encode(), asn1Spec=rfc4211.CertTemplate())
    return desk.L.cm.prepare_cert_req_msg(key, cert_template=t, cert_req_id=req_id, **kw)


def granted(ans):
    """Certificates of an ip/cp/kup answer, in order: (certReqId, DER or None)."""
    p = der.Pki(C.encode(ans))
    rep = p.body[0]
    seq = [k for k in rep.kids if k.tag == b"\x30"][-1]
    out = []
    for r in seq.kids:
        rid = indep.to_int(r[0])
        st = indep.to_int(r[1][0])
        cert = None
        for k in r.kids[2:]:
            if k.tag == b"\x30" and k[0].tag == b"\xa0":
                cert = k[0][0].encode()
        out.append((rid, st, cert))
    return out


def asked_ext(node):
    for k in node.kids:
        if k.tag == b"\xa9":
            return [(indep.oid(e[0]), len(e.kids) == 3, e.kids[-1].data) for e in k.kids]
    return []


def run_template(case):
    kind, subject, ext, valid, serial, keyname = case
    key = make_key(keyname)
    owner = desk.fresh_cert("ecc") if kind == "kur" else None
    used = {}
    if serial == "used":
        used["used"] = int(desk.fresh_cert("ecc")[0]["tbsCertificate"]["serialNumber"])
    elif serial == "ca":
        used["ca"] = int(desk.ca.handler.ca_cert["tbsCertificate"]["serialNumber"])
    elif serial == "revoked":
        c, k = desk.fresh_cert("ecc")
        rr = desk.build("rr", c, "ecc")
        require(C.status_of(desk.ca.send(desk.sign(rr, (c, k))))[1] == "accepted", "revocation")
        used["revoked"] = int(c["tbsCertificate"]["serialNumber"])
    elif serial == "own":
        serials.discard(4711)
    node, number, wanted = template(key, subject, ext, valid, serial, used)
    label = "%s:%s" % (kind, "/".join(
        x for x, d in ((ext, "none"), (valid, "default"), (serial, "none"), (keyname, "ecc")) if x != d) or "plain")
    if serial in ("own", "big"):
        for cert in list(desk.ca.m.state.issued_certs):
            if int(cert["tbsCertificate"]["serialNumber"]) == number:
                return "%s skipped, number in use" % label
    try:
        item = cert_req_msg(key, node)
    except Exception as exc:  # the client library itself refuses to write such a request
        raise RuntimeError("cannot build %s" % label) from exc
    ans = send(message(kind, [item], owner), owner)
    expect = EXTS[ext][1] and VALID[valid][2] and SERIALS[serial] and keyname != "rsa-short"
    if subject == "Null-DN" and ext not in ("san", "all"):
        expect = False
    name, st, fi = C.status_of(ans)
    if not expect:
        require(st == "rejection", "granted-bad-template:" + label, "%s %s" % (name, st))
        require(fi in ("badCertTemplate", "badRequest", "badAlg"), "wrong-reason:" + label, "%s %s" % (fi, C.text_of(ans)))
        require(C.body(ans) in ("error",) or all(c is None for _, _, c in granted(ans)), "refused-with-certificate:" + label)
        return "%s -> %s %s" % (label, st, fi)
    require(st in ("accepted", "grantedWithMods"), "refused-good-template:" + label, "%s %s" % (fi, C.text_of(ans)))
    out = granted(ans)
    require(len(out) == 1 and out[0][0] == 0 and out[0][2], "response-shape:" + label, out)
    subj = next((k[0].encode() for k in node.kids if k.tag == b"\xa5"), b"\x30\x00")
    judge(out[0][2], label, spki_of(key), subj, asked_ext(node) if EXTS[ext][0] != "own" else [], wanted, number)
    return "%s -> %s" % (label, st)


def run_key(case):
    kind, prot, keyname = case
    L = desk.L
    owner = desk.fresh_cert(prot) if prot else None
    key = make_key(keyname)
    args = dict(sender=C.SENDER, for_mac=True)
    if owner:
        args["exclude_fields"] = "senderKID"
    if kind == "p10cr" and keyname not in ("ecc", "rsa"):
        args["hash_alg"] = None
    label = "%s/%s/%s" % (kind, keyname, "sig" if prot else "mac")
    req = desk.build(kind, key, None, **args)
    asked = der.Pki(C.encode(req)).body[0]
    subj = asked[0][1].encode() if kind == "p10cr" else asked[0][0][1].find(0xA5)[0].encode()
    ans = desk.ca.send(desk.protect(req, owner or "password_based_mac"))
    name, st, fi = C.status_of(ans)
    require(st in ("accepted", "grantedWithMods"), "refused:" + label, "%s %s" % (fi, C.text_of(ans)))
    out = granted(ans)
    require(len(out) == 1 and out[0][2], "response-shape:" + label, out)
    require(out[0][0] == (-1 if kind == "p10cr" else 0), "cert-req-id:" + label, out[0][0])
    judge(out[0][2], label, spki_of(key), subj, [], None, None)
    return label + " -> " + st


def run_many(case):
    names, bad = case
    keys, items, nodes = [], [], []
    for i, name in enumerate(names):
        key = make_key(name)
        subject = "CN=Number %d" % i
        node, _, _ = template(key, subject, "unknown" if bad == i else ["none", "ku", "san"][i % 3], "default", "none", {})
        keys.append(key)
        nodes.append(node)
        items.append(cert_req_msg(key, node, req_id=i))
    label = "cr*%d%s" % (len(names), "" if bad is None else "/bad%d" % bad)
    ans = send(message("cr", items, None), None)
    if bad is not None:
        name, st, fi = C.status_of(ans)
        out = granted(ans) if C.body(ans) == "cp" else []
        require(len(out) in (0, 1) or out[bad][2] is None, "bad-request-granted:" + label, out)
        require(all(c is None for _, _, c in out) or len(out) == len(names), "partial-answer:" + label, len(out))
        return "%s -> %s %s" % (label, st, fi)
    out = granted(ans)
    require(len(out) == len(names), "one-answer-per-request:" + label, len(out))
    for i, (rid, st, cert) in enumerate(out):
        require(rid == i, "answer-order:" + label, rid)
        require(cert is not None, "not-granted:" + label, "%d %s" % (st, C.text_of(ans)))
        subj = next(k for k in nodes[i].kids if k.tag == b"\xa5")[0].encode()
        judge(cert, label, spki_of(keys[i]), subj, asked_ext(nodes[i]), None, None)
    return label + " -> granted"


def run(case):
    return {"template": run_template, "key": run_key, "many": run_many}[case[0]](case[1:])


def cases(quick):
    out = []
    kinds = ["ir", "cr", "kur"]
    for kind in kinds:
        for s, e in itertools.product(SUBJECTS, EXTS):
            out.append(["template", kind, s, e, "default", "none", "ecc"])
        for v, e in itertools.product(VALID, EXTS if not quick else ["none", "all", "ski", "unknown"]):
            out.append(["template", kind, SUBJECTS[1], e, v, "none", "ecc"])
        for n, e, v in itertools.product(SERIALS, ["none", "all"], ["default", "both"] if quick else VALID):
            out.append(["template", kind, SUBJECTS[0], e, v, n, "ecc"])
        out.append(["template", kind, SUBJECTS[0], "none", "default", "none", "rsa-short"])
        for k in SIG_KEYS if not quick else ["rsa", "ml-dsa-44"]:
            for e in ["ku", "san", "ski"]:
                out.append(["template", kind, SUBJECTS[1], e, "both", "none", k])
    for kind in ["ir", "cr", "p10cr", "kur"]:
        for prot in [None, "ecc", "ed25519"] if kind != "kur" else ["ecc", "ed25519"]:
            for k in SIG_KEYS:
                if quick and prot == "ed25519" and k not in ("ecc", "ed448"):
                    continue
                out.append(["key", kind, prot, k])
    for n in (1, 2, 3) if quick else (1, 2, 3, 4):
        for combo in itertools.product(["ecc", "ed25519"] if quick else ["ecc", "ed25519", "ml-dsa-44"], repeat=n):
            out.append(["many", list(combo), None])
            for bad in range(n):
                out.append(["many", list(combo), bad])
    return out


def setup():
    global desk
    desk = Desk(keys=["ecc"])


def explore(ctx):
    setup()
    cs = cases(ctx.quick)
    ctx.rule = "every key type, template variant and request kind of the alphabet: %d requests" % len(cs)
    ctx.each(cs, run, fork=True)


def replay(ctx, case):
    setup()
    ctx.one(case, run)
