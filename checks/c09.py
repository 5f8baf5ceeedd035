"""C09: kills at every event-loop callback of conversations that cover every command, and the pairs of kills of the schedules that TLC
enumerates (spec/KillMC.tla), on the real server; spec/Kill.tla judges what the target, the issuer and the others see."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import tlc  # noqa: E402
from harness.runner import main, drive, pmap, Broken  # noqa: E402


def run(x):
    from harness import scheddrv
    return scheddrv.job(*x)


def measure(x):
    from harness import scheddrv
    return scheddrv.measure(*x)


def place(plan, mark, ticks):
    """Ticks of the kills of a model schedule: its 'run' steps spread over the ticks of the command."""
    runs, cur = [0], 0
    for s in plan:
        if s == "cmd":
            runs.append(0)
        elif s == "run":
            runs[-1] += 1
    out = []
    k, j = 0, 0
    for s in plan:
        if s == "cmd":
            k, j = k + 1, 0
        elif s == "run":
            j += 1
        else:
            a = mark[k - 1] if k else 0
            b = mark[k] if k < len(mark) else ticks
            out.append((a + round((b - a) * (j + 0.5) / (runs[k] + 1)), s))
    return out


def check(ck):
    from harness.scheddrv import commands
    rng = ck.rng()
    r = tlc.model_check("KillMC", workers=8)
    ck.add_stats(r)
    plans = sorted(tlc.printed(r["out"], "PLAN"), key=json.dumps)
    ck.log("%d schedules from the model" % len(plans))
    ck.add_stats(tlc.model_check("KillMC", "KillMC_deep", workers=8))
    names = list(commands())
    single = [(n,) for n in names]
    pairs = [(rng.choice(names), rng.choice(names)) for _ in range(60)]
    base = pmap(measure, [(n, d) for n in single for d in (True, False)] + [(n, rng.random() < 0.5) for n in pairs])
    bad = [b for b in base if isinstance(b, Broken)]
    for b in bad:
        ck.violation("the conversation breaks down: " + b.tb.split("\n")[0], {"item": b.item, "traceback": b.tb})
    base = [b for b in base if not isinstance(b, Broken)]
    spans = {}

    def judge(cases):
        verdicts, st = tlc.judge("Kill", [{k: v for k, v in c.items() if k != "what"} for c in cases])
        ck.add_stats(st)
        ck.counts["traces"] += len(cases)
        for k, clause in sorted(verdicts.items()):
            ck.violation(clause, cases[k]["what"])
        for c in cases:
            for e in c["events"]:
                if e["e"] == "kill":
                    spans[e["kind"]] = spans.get(e["kind"], 0) + 1
        for c in rng.sample(cases, min(2, len(cases))):
            ck.sample({**c["what"], "events": [e["e"] if e["e"] != "cmd" else e["kind"] for e in c["events"]]})

    judge([b[4] for b in base])  # without kills
    if ck.viol:
        return
    jobs = []
    places = 0
    for name, dep, mark, ticks, _ in base:
        if len(name) > 1:
            continue
        for t in range(ticks + 1):
            for kind in ("QUERY", "CONNECTION"):
                for source in ("api", "stmt"):
                    places += 1
                    p = 1.0 if ck.thorough or source == "api" and dep else 0.8
                    if t <= mark[2] and rng.random() < 0.8 and len(jobs) > 400 and not ck.thorough:
                        continue  # the handshake is the same every time
                    if rng.random() < p:
                        jobs.append((name, [(t, kind, source)], rng.randrange(1 << 30), dep))
    # two kills, as in the model's schedules; three; and kills aimed at nobody
    two = [b for b in base if len(b[0]) > 1]
    for plan in rng.sample(plans, min(len(plans), ck.pick(2552, 2552))):
        for _ in range(ck.pick(1, 8)):
            name, dep, mark, ticks, _ = rng.choice(two)
            k2 = mark[2: 4] if len(mark) > 3 else mark
            ks = [(t, kind, rng.choice(["api", "api", "stmt"])) for t, kind in place(plan, k2, ticks)]
            jobs.append((name, ks, rng.randrange(1 << 30), dep))
    for _ in range(ck.pick(6000, 80000)):
        name, dep, mark, ticks, _ = rng.choice(base)
        t = rng.randrange(mark[1], ticks + 1)
        ks = []
        for _ in range(rng.choice([2, 2, 2, 3])):
            ks.append((t, rng.choice(["QUERY", "QUERY", "CONNECTION"]), rng.choice(["api", "api", "stmt"]), rng.random() < 0.95))
            t += rng.choice([0, 1, 1, 2, 3, 5, rng.randrange(20)])
        jobs.append((name, ks, rng.randrange(1 << 30), dep))
    rng.shuffle(jobs)
    ck.log("%d placements of a single kill, %d runs" % (places, len(jobs)))
    ck.cov["placements"] = places
    drive(ck, run, jobs, judge, first=400)
    ck.cov["kills"] = spans


if __name__ == "__main__":
    main(check, "C09")
