"""C08: programs of two to four connections run alone and interleaved as in the schedules that TLC enumerates (spec/IsoMC.tla), on the real server, every run
in a process of its own; spec/Iso.tla compares the transcripts."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import tlc  # noqa: E402
from harness.runner import main, drive  # noqa: E402


def run(x):
    from harness import isodrv
    return isodrv.job(x)


def check(ck):
    from harness import isodrv  # noqa: F401  (loaded before the workers fork)
    rng = ck.rng()
    r = tlc.model_check("IsoMC", workers=8)
    ck.add_stats(r)
    plans = sorted(tlc.printed(r["out"], "PLAN"), key=json.dumps)
    r3 = tlc.model_check("IsoMC", "IsoMC_three", workers=8)
    ck.add_stats(r3)
    plans3 = sorted(tlc.printed(r3["out"], "PLAN"), key=json.dumps)
    ck.log("%d schedules of two connections, %d of three" % (len(plans), len(plans3)))
    steps = {"compared": 0}

    def judge(cases):
        verdicts, st = tlc.judge("Iso", [{"conns": c["conns"]} for c in cases])
        ck.add_stats(st)
        ck.counts["traces"] += len(cases)
        for k, clause in sorted(verdicts.items()):
            ck.violation(clause, cases[k]["what"])
        steps["compared"] += sum(len(x) for c in cases for x in c["conns"])
        for c in rng.sample(cases, min(2, len(cases))):
            ck.sample({"steps": [[s["what"] for s in x][:20] for x in c["conns"]], "plan": c["what"]["plan"]})

    jobs = []
    for k in range(ck.pick(1600, 60000)):
        n = rng.choice([2, 2, 2, 3, 3, 4])
        if k % 12 == 0:
            plan = "sequential"
        elif n == 2:
            plan = rng.choice(plans)
        else:
            plan = sum((rng.choice(plans3) for _ in range(2)), [])
            if n == 4:
                plan = plan + [[4 if c == 1 else c, a] for c, a in rng.choice(plans3)]
        jobs.append(dict(seeds=[rng.randrange(1 << 30) for _ in range(n)], plan=plan, seed=rng.randrange(1 << 30), same=rng.random() < 0.4))
    drive(ck, run, jobs, judge, first=160)
    ck.cov["steps_compared"] = steps["compared"]


if __name__ == "__main__":
    main(check, "C08")
