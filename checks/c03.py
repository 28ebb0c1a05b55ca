"""C03: a certificate that is not active authorises nothing, whatever the message kind or route."""

from mc import ca as C
from mc.core import require
from mc.life import Life
from mc.routes import RA

ANSWER = {"ir": "ip", "cr": "cp", "p10cr": "cp", "kur": "kup", "ccr": "ccp", "rr": "rp", "genm": "genp"}
# (kind, route) pairs which the CA supports: an active certificate must be able to use them
SUPPORTED = {
    ("ir", "direct"), ("cr", "direct"), ("p10cr", "direct"), ("kur", "direct"), ("rr", "direct"), ("genm", "direct"),
    ("ir", "added"), ("cr", "added"), ("p10cr", "added"), ("kur", "added"),
    ("ir", "batch"), ("cr", "batch"), ("p10cr", "batch"), ("kur", "batch"),
    ("ir", "added-in-batch"), ("cr", "added-in-batch"), ("p10cr", "added-in-batch"), ("kur", "added-in-batch"),
}


class World(Life):
    max_certs = 3
    max_keys = 9
    probe_crl = False
    probe_genm = False

    def __init__(self, ctx):
        super().__init__(ctx)
        self.ra = RA()
        super().apply(["ir", None, 1])  # certificate 0 stays active: a revocation target

    def apply_extra(self, ev, before):
        _, i, kind, route, imp = ev
        state = self.ref.certs[i]["state"]
        active = state == "OK" or (
            state == "UPEND" and kind == "kur" and self.ref.now - self.ref.certs[i]["since"] >= 10
        )
        label = "%s via %s by %s" % (kind, route, state)
        key = self.next_key()
        target = None
        if kind == "rr":
            target = 0 if i else 1
            msg = self.build_rr(i, target, "keyCompromise")
        elif kind == "genm":
            msg = self.build_genm(i)
        elif kind == "ccr":
            m = self.L.cm.build_ccr_from_key(key, common_name=C.EE, exclude_fields="sender,senderKID")
            msg = self.sign(m, i)
        else:
            msg = self.build_request(kind, i, imp, key)
        # a stranger's valid request before or after it must not help
        ok = False
        if route == "direct":
            ans = [self.exchange(msg, label)]
        elif route == "added":
            ans = [self.exchange(self.ra.added(msg), label)]
        else:
            item = self.ra.added(msg) if route == "added-in-batch" else msg
            other = self.build_request("ir", None, 1, self.next_key())
            items = [other, item] if route != "batch-first" else [item, other]
            top = self.exchange(self.ra.batch(items), label)
            ans = list(top["body"]["nested"]) if C.body(top) == "nested" else [top]
            if len(ans) == 2:
                ans = ans[1:] if route != "batch-first" else ans[:1]
        require(len(ans) == 1, "answers:%s" % label, "%d answers" % len(ans))
        a = ans[0]
        if C.body(a) == "nested":
            a = a["body"]["nested"][0]
        ok = self.granted(a, ANSWER[kind]) or C.body(a) == "genp"
        if state == "UPEND" and kind == "genm" and self.ref.now - self.ref.certs[i]["since"] >= 10:
            pass  # an update nobody confirmed in time gives the old certificate back its use: both answers are fine
        elif not active:
            require(not ok, "granted:%s" % label, "%s %s" % (C.status_of(a), C.text_of(a)))
            if ok is False:
                self.probe(label)
        elif (kind, route) in SUPPORTED and not (kind == "rr" and self.ref.certs[target]["state"] != "OK"):
            require(ok, "refused:%s" % label, "%s %s" % (C.status_of(a), C.text_of(a)))
        self.dead = True
        return label + (" granted" if ok else " refused")

    def events(self, depth):
        uses, prep = [], []
        n = len(self.ref.certs)
        for i in range(1, n):
            for kind, route in sorted(SUPPORTED | {("ccr", "direct"), ("ccr", "added"), ("genm", "added"), ("rr", "batch"), ("rr", "added")}):
                if kind == "rr" and self.ref.certs[0]["state"] != "OK":
                    continue
                uses.append(["use", i, kind, route, 1])
            uses.append(["use", i, "cr", "batch-first", 0])
            uses.append(["use", i, "kur", "direct", 0])
        if depth < (3 if self.ctx.quick else 4):
            if n < self.max_certs:
                prep += [["ir", None, 1], ["ir", None, 0]]
                prep += [["kur", i, imp] for i in range(1, n) for imp in (0, 1)]
                prep += [["cr", i, 0] for i in range(1, n)]
            for i in range(1, n):
                prep += [["conf", i, "ok"], ["conf", i, "reject"]] if self.ref.certs[i]["open"] else []
                prep += [["rr", 0, i, "keyCompromise"]]
                prep += [["rr", i, i, "keyCompromise"]]
                prep += [["rr", 0, i, "removeFromCRL"]] if self.ref.certs[i]["state"] == "REV" else []
            if any(c["state"] == "UPEND" for c in self.ref.certs):
                prep += [["tick", 9], ["tick", 11]]
        return prep + uses

    def apply(self, ev):
        if ev[0] == "use":
            return self.apply_extra(ev, self.ref.canon())
        return super().apply(ev)


def explore(ctx):
    ctx.dfs(lambda: World(ctx), depth=4 if ctx.quick else 5, plain_depth=1)


def replay(ctx, case):
    ctx.replay_history(World(ctx), case["history"])
