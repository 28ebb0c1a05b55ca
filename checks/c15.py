"""C15: requests which arrive at the same time have the effect of one after the other."""

import json
import os

from mc import bootstrap, ca as C, core, der, sched
from mc.core import require

REPO = "/repo/"
D = None
owners = {}  # transactionID -> who signed the request


def traced(path):
    return path.startswith(REPO + "mock_ca/") or "/w/mock_ca/" in path


def setup():
    global D
    if D:
        return
    sched.install(traced)
    from mc.exchange import Desk

    D = Desk(["ecc"])
    sched.watch_loaded()


def encode(msg):
    return C.encode(msg)


def client():
    return D.ca.m.app.test_client()


def post(data, path="/issuing"):
    r = client().post(path, data=data, content_type="application/pkixcmp")
    return r.status_code, r.data


def rr(owner, cert, reason="keyCompromise"):
    msg = D.L.cm.build_cmp_revoke_request(cert=cert, reason=reason, exclude_fields="sender,senderKID")
    return D.sign(msg, owner)


def conf(ans, owner=None, **kw):
    if owner is None:
        return D.mac(D.L.cm.build_cert_conf_from_resp(ans, sender=C.SENDER, for_mac=True, **kw))
    return D.sign(D.L.cm.build_cert_conf_from_resp(ans, exclude_fields="sender,senderKID", **kw), owner)


def refuse():
    return D.L.cm.prepare_pkistatusinfo(status="rejection", failinfo="badCertTemplate")


def ask(kind, owner=None, key=None, imp=1, **kw):
    key = key or D.L.ku.generate_key("ecc")
    msg = D.build(kind, key, owner, imp, **kw)
    owners[msg["header"]["transactionID"].asOctets()] = owner
    return D.mac(msg) if owner is None else D.sign(msg, owner)


def new():
    return D.L.ku.generate_key("ecc")


# -- scenarios: (certificates to look at, two requests) ------------------------------------------------
def enrol(imp=1):
    key = new()
    ans = D.ca.send(D.mac(D.build("ir", key, None, imp)))
    cert = D.L.cm.get_cert_from_pkimessage(ans)
    return cert, key, ans


def s_same_key(kinds=("ir", "ir")):
    key = new()
    return [], [ask(kinds[0], key=key), ask(kinds[1], key=key)]


def s_distinct():
    return [], [ask("ir"), ask("cr")]


def s_same_transaction():
    tx = os.urandom(16)
    return [], [ask("ir", imp=0, transaction_id=tx), ask("ir", imp=0, transaction_id=tx)]


def s_conf_twice(second="ok"):
    cert, key, ans = enrol(0)
    kw = {} if second == "ok" else {"status_info": refuse()}
    return [cert], [conf(ans), conf(ans, **kw)]


def s_conf_distinct():
    one, _, a = enrol(0)
    two, _, b = enrol(0)
    return [one, two], [conf(a), conf(b)]


def s_kur_twice(imp):
    cert, key, _ = enrol()
    return [cert], [ask("kur", (cert, key), imp=imp), ask("kur", (cert, key), imp=imp)]


def s_kur_rr(imp):
    cert, key, _ = enrol()
    return [cert], [ask("kur", (cert, key), imp=imp), rr((cert, key), cert)]


def s_rr_twice():
    cert, key, _ = enrol()
    return [cert], [rr((cert, key), cert), rr((cert, key), cert)]


def s_rr_each_other():
    one, k1, _ = enrol()
    two, k2, _ = enrol()
    return [one, two], [rr((one, k1), two), rr((two, k2), one)]


def s_rr_other():
    one, k1, _ = enrol()
    two, k2, _ = enrol()
    return [one, two], [rr((one, k1), one), rr((two, k2), two)]


def s_revive_twice():
    cert, key, _ = enrol()
    D.ca.send(rr((cert, key), cert))
    return [cert], [rr((cert, key), cert, "removeFromCRL"), rr((cert, key), cert, "removeFromCRL")]


def s_rr_use():
    cert, key, _ = enrol()
    return [cert], [rr((cert, key), cert), ask("cr", (cert, key))]


def s_update_confirm_rr():
    cert, key, _ = enrol()
    ans = D.ca.send(ask("kur", (cert, key), imp=0))
    newer = D.L.cm.get_cert_from_pkimessage(ans)
    return [cert, newer], [conf(ans, (cert, key)), rr((cert, key), cert)]


def s_update_confirm_twice():
    cert, key, _ = enrol()
    ans = D.ca.send(ask("kur", (cert, key), imp=0))
    newer = D.L.cm.get_cert_from_pkimessage(ans)
    return [cert, newer], [conf(ans, (cert, key)), conf(ans, (cert, key))]


def s_added():
    key = new()
    return [], [D.ra.added(ask("ir", key=key)), ask("cr", key=key)]


def s_batch():
    key = new()
    return [], [D.ra.batch([ask("ir"), ask("cr", key=key)]), ask("ir", key=key)]


def s_rr_crl():
    cert, key, _ = enrol()
    return [cert], [rr((cert, key), cert), "/crl"]


def s_crl_crl():
    cert, key, _ = enrol()
    D.ca.send(rr((cert, key), cert))
    return [cert], ["/crl", "/crl"]


def s_genm_crl():
    cert, key, _ = enrol()
    D.ca.send(rr((cert, key), cert))
    return [cert], [ask("genm"), "/crl"]


def s_rr_ocsp():
    cert, key, _ = enrol()
    return [cert], [rr((cert, key), cert), ["/ocsp", cert]]


def s_enrol_ocsp():
    cert, key, _ = enrol()
    return [cert], [ask("kur", (cert, key)), ["/ocsp", cert]]


def s_spoiled():
    """A refused request must not disturb the other one."""
    key = new()
    bad = D.L.pu.protect_pkimessage(D.build("ir", key, None), "password_based_mac", password="wrong")
    return [], [bad, ask("ir", key=key)]


SCENES = {
    "ir same key": s_same_key, "cr+p10cr same key": lambda: s_same_key(("cr", "p10cr")), "ir+cr": s_distinct,
    "same transaction": s_same_transaction, "certConf twice": s_conf_twice,
    "certConf accept+reject": lambda: s_conf_twice("reject"), "certConf distinct": s_conf_distinct,
    "kur twice implicit": lambda: s_kur_twice(1), "kur twice explicit": lambda: s_kur_twice(0),
    "kur+rr implicit": lambda: s_kur_rr(1), "kur+rr explicit": lambda: s_kur_rr(0), "rr twice": s_rr_twice,
    "rr each other": s_rr_each_other, "rr distinct": s_rr_other, "revive twice": s_revive_twice, "rr+cr": s_rr_use,
    "update certConf+rr": s_update_confirm_rr, "update certConf twice": s_update_confirm_twice,
    "added+direct same key": s_added, "batch+direct same key": s_batch, "rr+crl": s_rr_crl, "crl+crl": s_crl_crl,
    "genm+crl": s_genm_crl, "rr+ocsp": s_rr_ocsp, "kur+ocsp": s_enrol_ocsp, "spoiled+ir": s_spoiled,
}


def job(req):
    """A callable for a request; its result is (kind, status, value)."""
    if req == "/crl":
        def get():
            r = client().get("/crl")
            return r.status_code, r.data
        return get
    if isinstance(req, list):
        from cryptography import x509
        from cryptography.hazmat.primitives import hashes, serialization
        from cryptography.x509 import ocsp

        cert = x509.load_der_x509_certificate(encode(req[1]))
        issuer = x509.load_der_x509_certificate(D.root)
        data = ocsp.OCSPRequestBuilder().add_certificate(cert, issuer, hashes.SHA256()).build()
        data = data.public_bytes(serialization.Encoding.DER)
        return lambda: post(data, "/ocsp")
    data = encode(req)
    return lambda: post(data)


def granted(ans):
    name, st, _ = C.status_of(ans)
    if name == "nested":
        return [granted(m) for m in ans["body"]["nested"]]
    return [name, True] if st in ("accepted", "grantedWithMods", "ok") else "refused"


def certs_of(ans):
    if C.body(ans) == "nested":
        return [c for m in ans["body"]["nested"] for c in certs_of(m)]
    if C.body(ans) in ("ip", "cp", "kup") and granted(ans) != "refused":
        return [(D.L.cm.get_cert_from_pkimessage(ans), ans)]
    return []


def judge(req, result):
    """The outcome class of one answer; it must belong to its request."""
    status, data = result
    if status != 200:
        return ["http", status], []
    if req == "/crl":
        from cryptography import x509

        crl = x509.load_pem_x509_crl(data) if data.startswith(b"-----") else x509.load_der_x509_crl(data)
        number = crl.extensions.get_extension_for_class(x509.CRLNumber).value.crl_number
        return ["crl", sorted(e.serial_number for e in crl)], [("crl", number)]
    if isinstance(req, list):
        from cryptography.x509 import ocsp

        resp = ocsp.load_der_ocsp_response(data)
        if resp.response_status != ocsp.OCSPResponseStatus.SUCCESSFUL:
            return ["ocsp", resp.response_status.name], []
        return ["ocsp", resp.certificate_status.name], []
    ans = D.L.cm.parse_pkimessage(data)
    tx = req["header"]["transactionID"].asOctets()
    require(ans["header"]["transactionID"].asOctets() == tx, "answer-of-other:transactionID", "")
    require(ans["header"]["recipNonce"].asOctets() == req["header"]["senderNonce"].asOctets(), "answer-of-other:nonce", "")
    out = [("cert", c, a) for c, a in certs_of(ans)]
    out.append(("nonce", ans["header"]["senderNonce"].asOctets()))
    if C.body(ans) == "genp":
        from cryptography import x509

        crl = x509.load_der_x509_crl(ans["body"]["genp"][0]["infoValue"].asOctets())
        out.append(("crl", crl.extensions.get_extension_for_class(x509.CRLNumber).value.crl_number))
    if C.body(req) in ("ir", "cr") and out[0][0] == "cert":
        want = der.parse(C.encode(req["body"][C.body(req)][0]["certReq"]["certTemplate"]["publicKey"])).kids[1].data
        got = C.encode(out[0][1]["tbsCertificate"]["subjectPublicKeyInfo"]["subjectPublicKey"])
        require(got.endswith(want), "answer-of-other:key", "")
    return granted(ans), out


def ocsp_state(cert):
    return D.ca.ocsp(encode(cert), D.root)


def outcome(certs, reqs, results):
    """What everybody sees: both answers, and afterwards the state of every certificate."""
    classes, extra = [], []
    for req, res in zip(reqs, results):
        cls, more = judge(req, res)
        classes.append(cls)
        extra += more
    issued = [e for e in extra if e[0] == "cert"]
    serials = [int(e[1]["tbsCertificate"]["serialNumber"]) for e in issued]
    require(len(serials) == len(set(serials)), "same-serial", "")
    for kind in ("crl", "nonce"):
        seen = [e[1] for e in extra if e[0] == kind]
        require(len(seen) == len(set(seen)), "same-" + kind, "")
    states = [ocsp_state(c) for c in certs]
    names = {int(c["tbsCertificate"]["serialNumber"]): i for i, c in enumerate(certs)}
    for cls in classes:
        if cls[0] == "crl":
            cls[1] = [names.get(s, "other") for s in cls[1]]
    new_states = []
    for _, cert, ans in issued:
        state = ocsp_state(cert)
        if state == "unauthorized":
            try:
                done = D.ca.send(conf(ans, owners.get(ans["header"]["transactionID"].asOctets())))
                state += " conf:%s" % granted(done)
            except C.HttpFailure:
                state += " conf:failed"
            state += " " + ocsp_state(cert)
        new_states.append(state)
    listed = {e.serial_number for e in D.ca.crl()}
    for i, c in enumerate(certs):
        states[i] = [states[i], int(c["tbsCertificate"]["serialNumber"]) in listed]
    return json.dumps([classes, states, new_states])


def in_child(fn):
    """Run fn in a forked copy of this process; returns its JSON value, or the violation it raised."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            doc = {"ok": fn()}
        except core.Violated as exc:
            doc = {"sig": exc.sig, "detail": exc.detail}
        except BaseException as exc:  # noqa: BLE001
            doc = {"sig": "exception:" + type(exc).__name__, "detail": repr(exc)[:1500]}
        with os.fdopen(w, "w") as f:
            f.write(json.dumps(doc))
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        text = f.read()
    os.waitpid(pid, 0)
    doc = json.loads(text) if text else {"sig": "worker-died", "detail": ""}
    if "ok" not in doc:
        raise core.Violated(doc["sig"], doc["detail"])
    return doc["ok"]


def schedule(certs, reqs, plan, record=None):
    run = sched.Run([job(r) for r in reqs], plan, record)
    try:
        run.execute()
    except sched.Deadlock:
        raise core.Violated("deadlock", "plan %s" % plan) from None
    for t in run.threads:
        if t.error:
            raise core.Violated("exception:" + type(t.error).__name__, repr(t.error)[:800])
    out = outcome(certs, reqs, [t.result for t in run.threads])
    return out, [t.steps for t in run.threads], [t.first_lock for t in run.threads], record


FREE = 25  # lines a request may execute before its first lock and still count as independent of the other request


def points_of(held, first_lock, whole):
    """Where to stop a request: `held` tells for each of its points whether it holds a lock there.

    Every point at which it holds none. While it holds one the other request comes as far as that lock: if what it
    executes up to there is only the way from the route to the lock, all points of such a section are equivalent, and
    the first and the last two stand for the others (every 20th is tried too; `whole`: all of them).
    """
    if whole or first_lock is None or first_lock > FREE:
        return list(range(1, len(held) + 1))
    out = []
    for i, h in enumerate(held):
        near = held[max(0, i - 2) : i] + held[i + 1 : i + 3]
        if not h or not all(near) or i % 20 == 0:
            out.append(i + 1)
    return out


def spread(points):
    """The points in an order which visits all regions early."""
    n, out, step = len(points), [], 1
    while step < n:
        step *= 2
    seen = set()
    while step:
        for i in range(0, n, step):
            if i not in seen:
                seen.add(i)
                out.append(points[i])
        step //= 2
    return out


def run_case(case):
    """[scene, first, part, parts]: the first request stops at each of the points, the other one runs meanwhile."""
    name, first, part, parts, whole = case[:5]
    bootstrap.set_now(bootstrap.EPOCH)
    certs, reqs = SCENES[name]()
    orders, steps, held, lock = {}, {}, [], None
    for k in (0, 1):
        plan = [(k, None), (1 - k, None)]
        out, n, locks, record = in_child(lambda: schedule(certs, reqs, plan, []))
        orders[k], steps[k] = out, n[k]
        if k == first:
            held = record[: n[k]]
        else:
            lock = locks[k]
    points = points_of(held, lock, whole)
    if len(case) > 5:
        todo = case[5]
    else:
        todo = spread(points)[part::parts]
        if part == 0:
            D.ctx.add("states", len(held))
    seen = set()
    for p in todo:
        out = in_child(lambda: schedule(certs, reqs, [(first, p), (1 - first, None)]))[0]
        D.ctx.add("transitions")
        D.ctx.add("traces")
        if out not in orders.values():
            raise core.Violated(
                "not-sequential:%s" % name,
                "request %d stopped at line %d of %d\n got %s\n in order %s\n reversed %s"
                % (first, p, steps[first], out, orders[0], orders[1]),
            )
        seen.add([k for k in orders if orders[k] == out][0])
    return "%s:%s" % (name, sorted(seen))


def explore(ctx):
    setup()
    D.ctx = ctx
    ctx.rule = "every line of mock_ca/ executed by one request as the place where the other request runs"
    whole = ctx.tier != "quick"
    cases = [[name, first, part, PARTS, whole] for part in range(PARTS) for name in SCENES for first in (0, 1)]
    ctx.each(cases, run_case, fork=True)


PARTS = 2


def replay(ctx, case):
    setup()
    D.ctx = ctx
    ctx.one(case, run_case)
