"""C16: a key is certified once per name, and never again after its certificate was revoked."""

import itertools

from mc import bootstrap, ca as C, der
from mc.core import require
from mc.exchange import Desk, composite, make_key

STATES = ["none", "active", "pending", "refused", "revoked", "revived", "updated", "updating", "update-refused"]
PRIOR = ["ecc", "ed25519", "rsa", "ml-dsa-44", "composite"]
ASK = ["ir", "cr", "p10cr", "cr-second", "kur", "added-ir", "added-kur", "batch-ir", "batch-second"]
NAMES = ["same", "other"]
desk = None


def ask(kind, key, name, owner=None, imp=1):
    args = dict(sender=C.SENDER, for_mac=True)
    cm = desk.L.cm
    if owner or kind == "kur":
        args["exclude_fields"] = "senderKID"
    if kind == "kur":
        return cm.build_key_update_request(key, common_name=name, implicit_confirm=bool(imp), **args)
    if kind == "p10cr":
        from resources.certbuildutils import build_csr

        n = type(key).__name__
        csr = build_csr(key, common_name=name, hash_alg="sha256" if n.startswith(("EC", "Elliptic", "RSA")) else None)
        return cm.build_p10cr_from_csr(csr, implicit_confirm=bool(imp), **args)
    f = cm.build_ir_from_key if kind == "ir" else cm.build_cr_from_key
    return f(key, common_name=name, implicit_confirm=bool(imp), **args)


def granted(ans):
    if C.body(ans) == "nested":
        return all(granted(a) for a in ans["body"]["nested"])
    return C.status_of(ans)[1] in ("accepted", "grantedWithMods")


def confirm(ans, owner, accept=True):
    cm = desk.L.cm
    args = dict(sender=C.SENDER, for_mac=True)
    if owner:
        args["exclude_fields"] = "senderKID"
    if not accept:
        args.update(status="rejection")
    msg = cm.build_cert_conf_from_resp(ans, **args)
    return desk.ca.send(desk.protect(msg, owner or "password_based_mac"))


def bring(state, key):
    """A certificate for `key` named EE in the wanted state; returns it (or None)."""
    cm = desk.L.cm
    if state == "none":
        return
    imp = state not in ("pending", "refused")
    ans = desk.ca.send(desk.mac(ask("ir", key, C.EE, imp=imp)))
    require(granted(ans), "first-refused:" + state, C.text_of(ans))
    cert = cm.get_cert_from_pkimessage(ans)
    own = (cert, key)
    if state == "refused":
        require(C.body(confirm(ans, None, accept=False)) in ("pkiconf",), "refusal-not-acknowledged")
    if state in ("revoked", "revived"):
        steps = ["keyCompromise"] if state == "revoked" else ["certificateHold", "removeFromCRL"]
        for reason in steps:
            rr = cm.build_cmp_revoke_request(cert=cert, reason=reason, exclude_fields="senderKID", sender=C.SENDER, for_mac=True)
            ans = desk.ca.send(desk.sign(rr, own))
            require(granted(ans), "revocation-refused:" + reason, C.text_of(ans))
    if state in ("updated", "updating", "update-refused"):
        new = desk.L.ku.generate_key("ecc")
        ans = desk.ca.send(desk.sign(ask("kur", new, C.EE, own, imp=state == "updated"), own))
        require(granted(ans), "update-refused", C.text_of(ans))
        if state == "update-refused":
            require(C.body(confirm(ans, own, accept=False)) == "pkiconf", "refusal-not-acknowledged")
    return own


def run(case):
    prior, state, how, name, form = case
    key = make_key(prior)
    bring(state, key)
    cm, ku = desk.L.cm, desk.L.ku
    if form == "key":
        new = key
    elif form == "in-composite":
        new = composite(key, ku.generate_key("ed25519")) if prior == "ml-dsa-44" else composite(ku.generate_key("ml-dsa-44"), key)
    elif form == "shares-pq":
        new = composite(key.pq_key, ku.generate_key("ed25519"))
    elif form == "shares-trad":
        new = composite(ku.generate_key("ml-dsa-44"), key.trad_key)
    else:
        new = key.trad_key if how != "cr" else key.pq_key
    who = C.EE if name == "same" else "CN=Somebody Else"
    label = "%s/%s/%s/%s/%s" % (prior, state, how, name, form)
    if how in ("ir", "cr", "p10cr"):
        ans = desk.ca.send(desk.mac(ask(how, new, who)))
    elif how == "cr-second":
        other = ku.generate_key("ecc")
        items = [cm.prepare_cert_req_msg(other, common_name=who, cert_req_id=0),
                 cm.prepare_cert_req_msg(new, common_name=who, cert_req_id=1)]
        ans = desk.ca.send(desk.mac(cm.build_cr_from_key(other, cert_req_msg=items, sender=C.SENDER, for_mac=True, implicit_confirm=True)))
    elif how in ("kur", "added-kur"):
        owner = desk.fresh_cert("ecc")
        msg = desk.sign(ask("kur", new, who, owner), owner)
        ans = desk.ca.send(desk.ra.added(msg) if how == "added-kur" else msg)
    elif how == "added-ir":
        ans = desk.ca.send(desk.ra.added(desk.mac(ask("ir", new, who))))
    else:
        items = [desk.mac(ask("ir", new, who)), desk.mac(ask("ir", ku.generate_key("ecc"), "CN=Third"))]
        if how == "batch-second":
            items.reverse()
        ans = desk.ca.send(desk.ra.batch(items))
    if C.body(ans) == "nested":
        ans = ans["body"]["nested"][0 if how == "batch-ir" else 1]
    if state == "revoked":
        ok = False
    elif state == "none" or name == "other":
        ok = True
    elif state == "refused":  # the client refused that certificate: both answers are sensible
        ok = granted(ans)
    else:
        ok = False
    got = granted(ans)
    if got and not ok:
        require(False, "key-certified-again:" + label, C.text_of(ans))
    if ok and not got:
        require(False, "fresh-key-refused:" + label, C.text_of(ans))
    return "%s -> %s" % (label, C.status_of(ans)[1:])


def run_twice(case):
    """The same key twice in one message (same or different name), or in two messages of one batch."""
    how, prior, name, n, i, j = case
    cm, ku = desk.L.cm, desk.L.ku
    key = make_key(prior)
    keys = [key if x in (i, j) else ku.generate_key("ecc") for x in range(n)]
    who = [C.EE if (name == "same" or x != j) else "CN=Somebody Else" for x in range(n)]
    label = "twice/%s/%s/%s" % (how, prior, name)
    if how == "cr":
        items = [cm.prepare_cert_req_msg(k, common_name=w, cert_req_id=x) for x, (k, w) in enumerate(zip(keys, who))]
        ans = desk.ca.send(desk.mac(cm.build_cr_from_key(key, cert_req_msg=items, sender=C.SENDER, for_mac=True, implicit_confirm=True)))
        count = 0
        if C.body(ans) == "cp":
            p = der.Pki(C.encode(ans))
            for r in [k for k in p.body[0].kids if k.tag == b"\x30"][-1].kids:
                count += any(k.tag == b"\x30" and k.kids and k[0].tag == b"\xa0" for k in r.kids[2:])
    else:
        ans = desk.ca.send(desk.ra.batch([desk.mac(ask("ir", k, w)) for k, w in zip(keys, who)]))
        require(C.body(ans) == "nested", "batch-refused:" + label, C.text_of(ans))
        count = sum(granted(a) for a in ans["body"]["nested"])
    if name == "same":
        require(count < n, "key-certified-twice:" + label, "%d of %d" % (count, n))
    else:
        require(count == n, "distinct-refused:" + label, "%d of %d: %s" % (count, n, C.text_of(ans)))
    return "%s -> %d of %d" % (label, count, n)


def run_compromised(case):
    """Every position at which the key of a revoked certificate can appear."""
    prior, n, at, how = case
    cm, ku = desk.L.cm, desk.L.ku
    key = make_key(prior)
    bring("revoked", key)
    keys = [key if x == at else ku.generate_key("ecc") for x in range(n)]
    label = "compromised/%s/%s" % (how, prior)
    if how == "cr":
        items = [cm.prepare_cert_req_msg(k, common_name="CN=N%d" % x, cert_req_id=x) for x, k in enumerate(keys)]
        ans = desk.ca.send(desk.mac(cm.build_cr_from_key(key, cert_req_msg=items, sender=C.SENDER, for_mac=True, implicit_confirm=True)))
        require(not granted(ans), "compromised-key-certified:" + label, "position %d of %d" % (at, n))
    else:
        ans = desk.ca.send(desk.ra.batch([desk.mac(ask("ir", k, "CN=N%d" % x)) for x, k in enumerate(keys)]))
        require(C.body(ans) == "nested" or C.status_of(ans)[1] == "rejection", "batch:" + label)
        if C.body(ans) == "nested":
            require(not granted(ans["body"]["nested"][at]), "compromised-key-certified:" + label, "position %d of %d" % (at, n))
    return label + " -> refused"


def dispatch(case):
    return {"state": run, "twice": run_twice, "compromised": run_compromised}[case[0]](case[1:])


def cases(quick):
    out = []
    for prior, state, how, name in itertools.product(PRIOR, STATES, ASK, NAMES):
        if quick and prior in ("rsa", "ml-dsa-44", "composite") and (how not in ("ir", "cr", "kur") or state in ("revived", "update-refused", "refused")):
            continue
        out.append(["state", prior, state, how, name, "key"])
        if prior in ("ed25519", "ml-dsa-44") and (how in ("ir", "cr", "kur", "cr-second") and (not quick or state in ("active", "revoked", "pending"))):
            out.append(["state", prior, state, how, name, "in-composite"])
        if prior == "composite" and how in ("ir", "cr", "kur") and state in ("active", "revoked"):
            out.append(["state", prior, state, how, name, "component"])
        if prior == "composite" and how in (("ir", "kur") if quick else ASK) and (not quick or state in ("none", "active", "pending", "revoked", "updated")):
            out.append(["state", prior, state, how, name, "shares-pq"])
            out.append(["state", prior, state, how, name, "shares-trad"])
    for how, prior, name in itertools.product(["cr", "batch"], ["ecc", "ed25519"], NAMES):
        for n in (2, 3) if quick else (2, 3, 4):
            for i, j in itertools.combinations(range(n), 2):
                out.append(["twice", how, prior, name, n, i, j])
    for how, prior in itertools.product(["cr", "batch"], ["ecc", "ed25519"]):
        for n in (2, 3) if quick else (2, 3, 4):
            for at in range(n):
                out.append(["compromised", prior, n, at, how])
    return out


def setup():
    global desk
    desk = Desk(keys=["ecc"])


def explore(ctx):
    setup()
    cs = cases(ctx.quick)
    ctx.rule = "%d histories: key type x state of its certificate x kind and place of the new request x name x form" % len(cs)
    ctx.each(cs, dispatch, fork=True)


def replay(ctx, case):
    setup()
    ctx.one(case, dispatch)
