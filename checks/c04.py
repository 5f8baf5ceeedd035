"""C04: the framing model (spec/FramingMC.tla) is explored exhaustively with small packets; its segmentations, and every 1- and
2-cut segmentation of whole conversations, plain and TLS, are replayed on the real server; payload sizes around the limits."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import tlc  # noqa: E402
from harness.runner import main, drive  # noqa: E402

MAXP = 0xFFFFFF
REFS = {}


def run(job):
    from harness import framedrv as F
    kind = job[0]
    if kind == "rows":
        return F.serve_rows(*job[1:])
    if kind == "name":
        return F.serve_err(*job[1:])
    if kind == "direct":
        try:
            return F.stream_direct(*job[1:])
        except (TypeError, AttributeError, ImportError):
            return None  # the class is not what it was: its public behaviour is covered by the other cases
    if kind == "client":
        return F.client_payload(*job[1:])
    _, key, segs, together, tls, what = job
    ref = REFS[key]
    if not tls:
        data = b"".join(ref["sent"])
        pos, out = 0, []
        for c in sorted(set(x for x in segs if 0 < x < len(data))) + [len(data)]:
            out.append(data[pos:c])
            pos = c
        segs = out
    got = F.replay(ref, segs, together, tls)
    small = not tls and len(segs) < 12 and sum(map(len, ref["sent"])) < 700
    return {"kind": "conv", "ref": ref["obs"], "got": got, "what": what, "small": small,
            "segs": [list(s) for s in segs] if small else [], "payloads": [list(p[4:]) for p in ref["sent"]] if small else []}


def slim(c):
    if c["kind"] == "conv" and c["got"] == c["ref"]:
        # equal conversations: keep the judge's input small
        c = dict(c, ref={"packets": [len(c["ref"]["packets"])], "log": [], "closed": False},
                 got={"packets": [len(c["got"]["packets"])], "log": [], "closed": False, "left": c["got"]["left"]})
    return c


def check(ck):
    from harness import framedrv as F
    rng = ck.rng()
    for cfg in (None, "FramingMC_tls"):
        ck.add_stats(tlc.model_check("FramingMC", cfg, workers=8))
    bad = tlc.model_check("FramingMC", "FramingMC_drop", workers=4, expect_violation=True)
    assert "Invariant Lossless is violated" in bad["out"], "the model misses dropped TLS bytes"
    r = tlc.model_check("FramingMC", "FramingMC_plans", workers=8)
    ck.add_stats(r)
    plans = sorted(tlc.printed(r["out"], "PLAN"))
    ck.log("%d segmentations from the model" % len(plans))
    for kind in range(3):
        for v in range(ck.pick(1, 3)):
            REFS["p", kind, v] = F.reference(kind, rng.random())
    for kind in range(3):
        REFS["t", kind, 0] = F.reference(kind, rng.random(), "1.3" if kind else "1.2")
    for k, ref in sorted(REFS.items()):
        if ref["obs"]["closed"] or ref["obs"]["left"]:
            ck.violation("the lockstep conversation breaks off", {"ref": ref["obs"], "conversation": k})
            return
    jobs = []
    # model segmentations of every two consecutive packets
    keys = [k for k in sorted(REFS) if k[0] == "p"]
    pairs = [(k, i) for k in keys for i in range(len(REFS[k]["sent"]) - 1)]
    for k, i in pairs:
        sent = REFS[k]["sent"]
        for p in rng.sample(plans, ck.pick(60, len(plans))):
            starts = [sum(map(len, sent[:j])) for j in range(len(sent))]
            cuts = [] if rng.random() < 0.3 else list(starts)
            lone = rng.random() < 0.5
            cuts = [s for s in cuts if s not in (starts[i + 1],)]
            for c in p:
                j, off = (i, c) if c <= 6 else (i + 1, c - 6)
                n = len(sent[j])
                at = {5: 4 + rng.randrange(1, max(2, n - 4)), 6: n}.get(off, off)
                cuts.append(starts[j] + min(at, n))
            jobs.append(("conv", k, cuts, lone, None, {"conversation": k, "pair": i, "plan": p, "together": lone}))
    # every single cut, and cuts inside each header, of whole conversations; everything at once; byte at a time
    for k in keys:
        data = b"".join(REFS[k]["sent"])
        n = len(data)
        for c in range(0, n):
            jobs.append(("conv", k, [c], c % 2 == 0, None, {"conversation": k, "cut": c}))
        starts = [sum(map(len, REFS[k]["sent"][:j])) for j in range(len(REFS[k]["sent"]))]
        for together in (False, True):
            jobs.append(("conv", k, list(range(n)), together, None, {"conversation": k, "cuts": "every byte", "together": together}))
            jobs.append(("conv", k, [x for s in starts for x in (s + 1, s + 4)], together, None, {"conversation": k, "cuts": "headers"}))
        for _ in range(ck.pick(150, 4000)):
            cs = sorted(rng.randrange(n) for _ in range(rng.choice([2, 2, 3, 5, 20])))
            jobs.append(("conv", k, cs, rng.random() < 0.5, None, {"conversation": k, "cuts": cs}))
    # TLS
    for k in [k for k in sorted(REFS) if k[0] == "t"]:
        tls = "1.2" if k[1] == 0 else "1.3"
        reqlen = len(REFS[k]["sent"][0])
        cuts = list(range(0, reqlen + 12)) + sorted(rng.sample(range(reqlen + 12, 500), ck.pick(10, 200)))
        for c in cuts:
            for mode in ("flight", "separate", "mixed", "records")[: ck.pick(2, 4)] if c % 3 else ("flight", "mixed", "records"):
                jobs.append(("conv", k, {"cuts": [c], "mode": mode, "seed": rng.randrange(1 << 30)}, rng.random() < 0.5, tls,
                             {"conversation": k, "tls cut": c, "mode": mode}))
        for _ in range(ck.pick(15, 200)):
            cs = sorted(rng.randrange(1, 300) for _ in range(rng.choice([2, 2, 3, 9])))
            mode = rng.choice(["flight", "mixed", "records"])
            jobs.append(("conv", k, {"cuts": cs, "mode": mode, "seed": rng.randrange(1 << 30)}, rng.random() < 0.5, tls,
                         {"conversation": k, "tls cuts": cs, "mode": mode}))
        jobs.append(("conv", k, {"cuts": list(range(400)), "mode": "bytes", "seed": 1}, False, tls, {"conversation": k, "tls": "every byte"}))
    # payload sizes
    small = []
    for a in range(1, ck.pick(700, 3000), 7):
        small.append(("rows", list(range(a, a + 7)), a, rng.choice([None, None, [1, 2, 3, 7], [100, 1000]]), a % 2 == 0))
    for base in (1 << 15, 1 << 16, 1 << 17):
        for d in (-9, -5, -4, -3, -2, -1, 0, 1, 2, 5):
            small.append(("rows", [5, base + d, 7, base + d, 2, 40000], d, rng.choice([None, [1000, 33333], [65536]]), d % 2 == 0))
    for _ in range(ck.pick(30, 600)):
        sz = [rng.choice([0, 1, 2, 50, 250, 251, 252, 255, 256, 32760, 32764, 32768, 65535, 65536, 70000]) for _ in range(9)]
        small.append(("direct", sz, [rng.random() < 0.4 for _ in sz], rng.randrange(1000)))
    small += [("name", n, n) for n in (0, 1, 100, 126, 250, 251, 40000)]
    small += [("client", n, how, n) for n in list(range(1, 40)) + [250, 251, 252, 255, 256, 257, 65535, 65536, 65537, 131072, 300000]
              for how in ("whole", "cuts", "chunks")]
    small += [("client", n, how, n) for n in (7, 8, 300, 65536) for how in ("long", "longcuts")]
    big = [("rows", [MAXP + d, 3], 1, None, False) for d in (-1, 0, 1)] + [("rows", [2 * MAXP, 5], 1, [1 << 20, 5 << 20], True)]
    big += [("rows", [9, 2 * MAXP + 1, MAXP], 1, None, True)]
    big += [("direct", [MAXP, 0, 2 * MAXP, MAXP - 1, MAXP + 1], [True, False, False, False, True], 3)]
    big += [("client", MAXP + d, how, 5) for d, how in ((-1, "whole"), (0, "cuts"), (1, "cuts"), (0, "chunks"), (-1, "cuts"), (2, "longcuts"))]
    big += [("client", 2 * MAXP, "cuts", 5), ("client", 2 * MAXP + 7, "chunks", 5)]
    big += [("client", 3 * MAXP + rng.choice([0, 1]), "cuts", 6), ("rows", [3 * MAXP + rng.choice([-5, 0, 1])], 1, [1 << 22], False)]
    if ck.thorough:
        big += [("rows", [3 * MAXP + d], 1, [1 << 22], False) for d in (-1, 0, 1)] + [("client", 3 * MAXP + d, "cuts", 6) for d in (-1, 0, 1)]
    jobs += small
    rng.shuffle(jobs)
    kinds = {}

    def judge(cases):
        cases = [c for c in cases if c]
        verdicts, st = tlc.judge("Framing", [{k: v for k, v in slim(c).items() if k != "what"} for c in cases])
        ck.add_stats(st)
        ck.counts["traces"] += len(cases)
        for k, clause in sorted(verdicts.items()):
            ck.violation(clause, cases[k])
        for c in cases:
            kinds[c["kind"]] = kinds.get(c["kind"], 0) + 1
        for c in rng.sample(cases, min(2, len(cases))):
            ck.sample(c["what"])

    drive(ck, run, jobs, judge)
    ck.log("conversations done")
    if not ck.viol:
        drive(ck, run, big, judge, first=len(big))
    ck.cov["cases"] = kinds


if __name__ == "__main__":
    main(check, "C04")
