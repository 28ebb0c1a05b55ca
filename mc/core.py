"""Exploration core: shared counters, visited table, fork-based exhaustive search, reporting."""

import gc
import hashlib
import json
import mmap
import multiprocessing
import os
import shutil
import signal
import struct
import sys
import time
import traceback

HOME = os.environ["MC_HOME"]
SCRATCH = os.environ["MC_SCRATCH"]
EVIDENCE = os.path.join(HOME, "evidence")
JOBS = int(os.environ.get("MC_JOBS", "8"))
CASE_LIMIT = 300
_mp = multiprocessing.get_context("fork")


class Violated(Exception):
    """Raised by an oracle: `sig` identifies the kind of failure stably, `detail` explains it."""

    def __init__(self, sig, detail=""):
        super().__init__("%s: %s" % (sig, detail))
        self.sig = sig
        self.detail = detail


class Hang(BaseException):
    """A single step did not return within CASE_LIMIT seconds."""


def require(cond, sig, detail=""):
    if not cond:
        raise Violated(sig, detail)


WRITTEN = ("tmp_cert_check", "tmp_cert_checks", "tmp_crl", "cert_logs", "mock_ca")


def isolate():
    """Give this process a working directory of its own.

    The code writes temporary files with fixed names below data/; everything else is linked.
    """
    src = os.path.join(SCRATCH, "w")
    here = os.path.join(SCRATCH, "p%d" % os.getpid())
    os.mkdir(here)
    for name in os.listdir(src):
        if name != "data":
            os.symlink(os.path.realpath(os.path.join(src, name)), os.path.join(here, name))
    data = os.path.join(here, "data")
    os.mkdir(data)
    for name in os.listdir(os.path.join(src, "data")):
        if name in WRITTEN:
            shutil.copytree(os.path.join(src, "data", name), os.path.join(data, name))
        else:
            os.symlink(os.path.join(src, "data", name), os.path.join(data, name))
    os.chdir(here)
    return here


def _alarm(signum, frame):
    raise Hang()


class Visited:
    """Open-addressing table in shared memory: 64-bit state digest -> largest remaining depth explored."""

    SLOT = struct.Struct("<QI4x")

    def __init__(self, bits=20):
        self.size = 1 << bits
        self.mem = mmap.mmap(-1, self.size * self.SLOT.size)
        self.lock = _mp.Lock()

    def enter(self, digest, remaining):
        """Return (is_new_state, must_explore)."""
        digest = digest or 1
        with self.lock:
            i = digest % self.size
            for _ in range(self.size):
                h, r = self.SLOT.unpack_from(self.mem, i * self.SLOT.size)
                if h == 0:
                    self.SLOT.pack_into(self.mem, i * self.SLOT.size, digest, remaining + 1)
                    return True, True
                if h == digest:
                    if r >= remaining + 1:
                        return False, False
                    self.SLOT.pack_into(self.mem, i * self.SLOT.size, digest, remaining + 1)
                    return False, True
                i = (i + 1) % self.size
        raise RuntimeError("visited table full")


def digest(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big")


COUNTERS = [
    "states",
    "transitions",
    "traces",
    "evaluations",
    "nontrivial",
    "checks",
    "truncated",
    "skipped",
    "replays",
    "pruned",
]


class Ctx:
    """Everything a check needs: tier, seed, budget, counters, reporting."""

    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.quick = tier == "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.monotonic()
        budget = os.environ.get("MC_BUDGET")
        self.budget = float(budget) if budget else (240.0 if self.quick else 5400.0)
        self.replaying = False
        self.counts = _mp.Array("q", len(COUNTERS))
        self.named = {}
        self.outbox = os.path.join(SCRATCH, "outbox.jsonl")
        open(self.outbox, "w", encoding="utf-8").close()
        self.coverage = {}
        self.assumptions = []
        self.level = "model_checking"
        self.rule = None

    # ---- counters, samples, violations: usable from any forked process -------------------------
    def add(self, name, n=1):
        with self.counts.get_lock():
            self.counts[COUNTERS.index(name)] += n

    def get(self, name):
        return self.counts[COUNTERS.index(name)]

    def _emit(self, doc):
        data = (json.dumps(doc, default=str) + "\n").encode()
        fd = os.open(self.outbox, os.O_WRONLY | os.O_APPEND)
        try:
            os.write(fd, data)
        finally:
            os.close(fd)

    def outcome(self, label):
        """Count one observed outcome class (vacuity check: what actually happened)."""
        self._emit({"o": label})

    def sample(self, doc):
        self._emit({"s": doc})

    def violation(self, sig, case, detail):
        self._emit({"v": sig, "case": case, "detail": str(detail)[:4000]})

    def expired(self):
        return time.monotonic() - self.t0 > self.budget

    # ---- exhaustive enumeration of independent cases --------------------------------------------
    def each(self, cases, fn, label=None, jobs=None, fork=False):
        """Run fn(case) for every case on all cores. fn raises Violated (or anything) to report.

        fn returns an outcome label (or None). A case is a JSON value. With `fork`, every case starts from the
        state the caller prepared; otherwise the cases of one worker follow each other.
        """
        cases = list(cases)
        if self.replaying:
            raise RuntimeError("each() is not used for replay")
        nxt = _mp.Value("q", 0)
        pids = []
        sys.stdout.flush()
        sys.stderr.flush()
        gc.collect()
        gc.freeze()
        for _ in range(min(jobs or JOBS, max(1, len(cases)))):
            pid = os.fork()
            if pid == 0:
                signal.signal(signal.SIGALRM, _alarm)
                isolate()
                while True:
                    with nxt.get_lock():
                        i = nxt.value
                        nxt.value += 1
                    if i >= len(cases):
                        break
                    if self.expired():
                        self.add("skipped")
                        continue
                    if not fork:
                        self.one(cases[i], fn, label)
                        continue
                    kid = os.fork()
                    if kid == 0:
                        self.one(cases[i], fn, label)
                        sys.stdout.flush()
                        sys.stderr.flush()
                        os._exit(0)
                    _, st = os.waitpid(kid, 0)
                    if st != 0:
                        self.violation("worker-died", cases[i], "an exploring process ended with status %s" % st)
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(0)
            pids.append(pid)
        for pid in pids:
            _, st = os.waitpid(pid, 0)
            if st != 0:
                self.violation("worker-died", {"label": label}, "an exploring process ended with status %s" % st)

    def one(self, case, fn, label=None):
        doc = {"kind": label, "case": case} if label else case
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(CASE_LIMIT)
        try:
            res = fn(case)
            signal.alarm(0)
            self.add("evaluations")
            if res is not None:
                self.outcome(res)
        except Violated as exc:
            signal.alarm(0)
            self.violation(exc.sig, doc, exc.detail)
        except Hang:
            self.violation("hang" + (":" + label if label else ""), doc, "no answer within %d s" % CASE_LIMIT)
        except BaseException as exc:  # pylint: disable=broad-except
            signal.alarm(0)
            self.violation(
                "exception:%s%s" % (type(exc).__name__, ":" + label if label else ""), doc, traceback.format_exc()
            )

    # ---- exhaustive depth-first search over histories, forking at every event ------------------
    def dfs(self, make_world, depth, plain_depth, label=None, visited=None):
        """Explore every event history of `make_world()` up to `depth`.

        world.events() -> list of JSON events, world.apply(ev) executes on the implementation and
        checks (raising Violated), world.canon() -> canonical state.  No two histories are merged
        up to `plain_depth` events; beyond that histories reaching the same canonical state with no
        more remaining depth are merged.
        """
        world = make_world()
        visited = visited or Visited()
        sem = _mp.Semaphore(JOBS - 1)
        gc.collect()
        gc.freeze()
        sys.stdout.flush()
        sys.stderr.flush()
        visited.enter(digest(world.canon()), depth)
        self.add("states")
        self._expand(world, [], depth, plain_depth, visited, sem, label)

    def _expand(self, world, hist, depth, plain_depth, visited, sem, label):
        pending = []
        for ev in world.events(len(hist)):
            if self.expired():
                self.add("truncated")
                break
            par = sem.acquire(block=False)
            pid = os.fork()
            if pid == 0:
                code = 0
                here = None
                try:
                    if par:
                        here = isolate()
                    signal.signal(signal.SIGALRM, _alarm)
                    self._visit(world, hist + [ev], depth, plain_depth, visited, sem, label)
                except BaseException:  # pylint: disable=broad-except
                    traceback.print_exc()
                    code = 3
                finally:
                    if par:
                        sem.release()
                    if here:
                        os.chdir(SCRATCH)
                        shutil.rmtree(here, ignore_errors=True)
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            if par:
                pending.append(pid)
            else:
                self._reap(pid, hist, ev)
        for pid in pending:
            self._reap(pid, hist, None)

    def _reap(self, pid, hist, ev):
        _, st = os.waitpid(pid, 0)
        if st != 0:
            self.violation("worker-died", {"history": hist, "event": ev}, "an exploring process ended with %s" % st)

    def step(self, world, ev):
        """Apply one event and turn every failure into Violated."""
        signal.alarm(CASE_LIMIT)
        try:
            return world.apply(ev)
        except Violated:
            raise
        except Hang as exc:
            raise Violated("hang:%s" % _evname(ev), "no answer within %d s" % CASE_LIMIT) from exc
        except Exception as exc:
            raise Violated("exception:%s:%s" % (type(exc).__name__, _evname(ev)), traceback.format_exc()) from exc
        finally:
            signal.alarm(0)

    def _visit(self, world, hist, depth, plain_depth, visited, sem, label):
        doc = {"kind": label, "history": hist}
        try:
            res = self.step(world, hist[-1])
        except Violated as exc:
            self.add("transitions")
            self.add("traces")
            self.violation(exc.sig, doc, exc.detail)
            return
        self.add("transitions")
        if res is not None:
            self.outcome(res)
        remaining = depth - len(hist)
        new, explore = visited.enter(digest(world.canon()), remaining)
        if new:
            self.add("states")
        if remaining <= 0 or getattr(world, "dead", False):
            self.add("traces")
            return
        if not explore and len(hist) > plain_depth:
            self.add("pruned")
            self.add("traces")
            return
        self._expand(world, hist, depth, plain_depth, visited, sem, label)

    def replay_history(self, world, hist):
        signal.signal(signal.SIGALRM, _alarm)
        for i, ev in enumerate(hist):
            print("step", i + 1, json.dumps(ev))
            try:
                print("   ->", self.step(world, ev))
            except Violated as exc:
                self.violation(exc.sig, {"history": hist[: i + 1]}, exc.detail)
                return

    # ---- result --------------------------------------------------------------------------------
    def finish(self):
        outcomes, samples, viols = {}, [], {}
        with open(self.outbox, encoding="utf-8") as f:
            for line in f:
                try:
                    doc = json.loads(line)
                except ValueError:
                    continue
                if "o" in doc:
                    outcomes[doc["o"]] = outcomes.get(doc["o"], 0) + 1
                elif "s" in doc:
                    if len(samples) < 12:
                        samples.append(doc["s"])
                elif "v" in doc:
                    key = doc["v"]
                    size = len(json.dumps(doc["case"]))
                    if key not in viols or (size, line) < (viols[key][0], viols[key][1]):
                        viols[key] = (size, line, doc)
        known = {} if os.environ.get("MC_NO_KNOWN") else self._known()
        bad = 0
        os.makedirs(os.path.join(EVIDENCE, "replay"), exist_ok=True)
        for name in os.listdir(os.path.join(EVIDENCE, "replay")):
            if name.startswith(self.prop + "-") and not self.replaying:
                os.unlink(os.path.join(EVIDENCE, "replay", name))
        suppressed = []
        for key in sorted(viols, key=lambda k: viols[k][:2]):
            doc = viols[key][2]
            if key in known:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, known[key]))
                suppressed.append(key)
                continue
            bad += 1
            name = "%s-%s.json" % (self.prop, hashlib.blake2b(key.encode(), digest_size=5).hexdigest())
            path = os.path.join(EVIDENCE, "replay", name)
            with open(path, "w", encoding="utf-8") as f:
                json.dump({"property": self.prop, "signature": key, "case": doc["case"], "detail": doc["detail"]}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  %s" % key)
            print("  " + doc["detail"].strip().replace("\n", "\n  ")[-1500:])
        cov = dict(self.coverage)
        cov.setdefault("states", self.get("states") or len(outcomes))
        cov.setdefault("transitions", self.get("transitions") or self.get("evaluations"))
        cov.setdefault("traces_validated_against_impl", self.get("traces") or self.get("evaluations"))
        if self.get("evaluations"):
            cov.setdefault("evaluations", self.get("evaluations"))
        cov["outcomes"] = dict(sorted(outcomes.items(), key=lambda kv: -kv[1])[:400])
        cov["distinct_outcomes"] = len(outcomes)
        cov["merged_histories"] = self.get("pruned")
        capped = self.get("truncated") + self.get("skipped")
        cov["capped"] = capped
        cov["exhaustive"] = capped == 0
        cov["samples"] = samples or [{"note": "no sample recorded"}]
        if self.rule:
            cov["rule"] = self.rule
        if not self.replaying:
            evidence = {
                "property": self.prop,
                "tier": self.tier,
                "seed": self.seed,
                "level": self.level,
                "coverage": cov,
                "assumptions": self.assumptions,
                "wall_s": round(time.monotonic() - self.t0, 2),
                "violations": bad,
            }
            if suppressed:
                evidence["coverage"]["known_findings_seen"] = suppressed
            tmp = os.path.join(EVIDENCE, self.prop + ".json.tmp")
            with open(tmp, "w", encoding="utf-8") as f:
                json.dump(evidence, f, indent=1)
            os.replace(tmp, os.path.join(EVIDENCE, self.prop + ".json"))
        print(
            "%s %s: states=%s transitions=%s evaluations=%s outcomes=%d capped=%d violations=%d known=%d %.1fs"
            % (
                self.prop,
                self.tier,
                cov["states"],
                cov["transitions"],
                self.get("evaluations"),
                len(outcomes),
                capped,
                bad,
                len(suppressed),
                time.monotonic() - self.t0,
            )
        )
        return 1 if bad else 0

    def _known(self):
        res = {}
        path = os.path.join(HOME, "known_findings.txt")
        if not os.path.exists(path):
            return res
        with open(path, encoding="utf-8") as f:
            for line in f:
                line = line.strip()
                if not line.startswith("property=%s " % self.prop):
                    continue
                head, _, desc = line.partition(" :: ")
                key = head.split(" key=", 1)[1].strip()
                res[key] = desc.strip()
        return res


def _evname(ev):
    return ev[0] if isinstance(ev, (list, tuple)) and ev else str(ev)
