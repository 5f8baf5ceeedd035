"""What every check shares: seed/tier, evidence, known findings, violation reports, parallel driving."""
from __future__ import annotations

import gc
import hashlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.cov = {}
        self.samples = []
        self.viol = []
        self.known = []
        self.counts = {"states": 0, "transitions": 0, "traces": 0}
        path = os.path.join(VERIF, "known_findings.json")
        self.findings = []
        if os.path.exists(path):
            self.findings = [f for f in json.load(open(path)).get("findings", []) if f.get("property") == pid]

    def rng(self, salt=""):
        return random.Random("%s/%s/%s" % (self.pid, self.seed, salt))

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def add_stats(self, st):
        self.counts["states"] += st.get("states", 0)
        self.counts["transitions"] += st.get("transitions", 0)

    def violation(self, what, replay, key=None):
        key = key or what
        for f in self.findings:
            if f["key"] == key:
                if key not in [k for k, _ in self.known]:
                    self.known.append((key, f["what"]))
                return
        self.viol.append((what, replay))

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def finish(self):
        cov = dict(self.cov)
        if self.level == "model_checking":
            cov.setdefault("states", self.counts["states"])
            cov.setdefault("transitions", self.counts["transitions"])
            cov.setdefault("traces_validated_against_impl", self.counts["traces"])
        cov["samples"] = self.samples or ["(none)"]
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
            "wall_s": round(time.time() - self.t0, 2),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
            f.write("\n")
        for key, what in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        if self.viol:
            rd = os.path.join(VERIF, "replays", self.pid)
            os.makedirs(rd, exist_ok=True)
            for what, replay in self.viol[:10]:
                body = json.dumps({"property": self.pid, "what": what, "replay": replay}, indent=1, default=repr)
                p = os.path.join(rd, hashlib.sha1(body.encode()).hexdigest()[:12] + ".json")
                with open(p, "w") as f:
                    f.write(body)
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
                print("  " + what[:600].replace("\n", "\n  "))
            if len(self.viol) > 10:
                print("  ... and %d more" % (len(self.viol) - 10))
            sys.stdout.flush()
            return 1
        print("OK property=%s wall=%.1fs %s" % (self.pid, time.time() - self.t0, {
            k: v for k, v in cov.items() if isinstance(v, (int, float))}))
        return 0


def main(fn, pid, level="model_checking"):
    ck = Check(pid, level)
    try:
        fn(ck)
        rc = ck.finish()
    except Exception:
        traceback.print_exc()
        if ck.viol:
            sys.exit(ck.finish())
        sys.exit(2)
    sys.stdout.flush()
    sys.exit(rc)


_FN = None


class Broken:
    """The driver could not make sense of what the server did with this item."""

    def __init__(self, item, tb):
        self.item, self.tb = item, tb


class Stuck(BaseException):
    """Raised, again and again, into an item that has used up its CPU time."""


LIMIT = 150.0  # seconds of CPU time for an item


def _stuck(*_):
    raise Stuck("no end after %d s of CPU time" % LIMIT)


def _one(fn, x):
    signal.signal(signal.SIGPROF, _stuck)
    try:
        try:
            signal.setitimer(signal.ITIMER_PROF, LIMIT, 1.0)
            return fn(x)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except (Exception, Stuck) as e:
        return Broken(repr(x)[:2000], "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]))


def _call(xs):
    return [_one(_FN, x) for x in xs]


def pmap(fn, items, procs=8, chunk=None, timeout=420):
    """Parallel map over forked workers, preserving order.  Past the timeout only the results so far are returned."""
    global _FN
    items = list(items)
    if len(items) < 8 or procs == 1:
        return [_one(fn, x) for x in items]
    _FN = fn
    ctx = mp.get_context("fork")
    gc.freeze()  # the workers needn't look through what they inherit
    out = []
    end = time.time() + timeout
    with ctx.Pool(procs) as pool:
        n = chunk or max(1, min(50, len(items) // (procs * 8)))
        parts = [items[j: j + n] for j in range(0, len(items), n)]
        it = pool.imap(_call, parts, chunksize=1)
        try:
            for _ in parts:
                out += it.next(max(0.01, end - time.time()))
                if isinstance(out[-1], Broken) and "Stuck" in out[-1].tb:
                    end = min(end, time.time() + 20)  # the others will hardly fare better
        except mp.TimeoutError:
            print("pmap: %d of %d items in %ds" % (len(out), len(items), timeout), flush=True)
            if not out:
                raise
        pool.terminate()
    return out


def drive(ck, fn, items, judge, first=200, limit=None):
    """Run and judge the items in two waves, so that a broken tree is reported without driving it any further.

    judge(cases) reports its own violations.  limit: seconds of CPU time for an item."""
    global LIMIT
    LIMIT = limit or (1500.0 if ck.thorough else 150.0)
    items = list(items)
    n = 0
    for part in (items[:first], items[first:]):
        if part and not ck.viol:
            cases = pmap(fn, part, timeout=max(60, 480 - (time.time() - ck.t0)) if not ck.thorough else 3000)
            n += len(cases)
            broken = [c for c in cases if isinstance(c, Broken)]
            for b in broken[:5]:
                ck.violation("the conversation breaks down: " + b.tb.split("\n")[0], {"item": b.item, "traceback": b.tb})
            judge([c for c in cases if not isinstance(c, Broken)])
    return n
