"""C13: histories of database selections and statement lists enumerated by TLC on the dispatcher (spec/DispatchMC.tla) are sent in
many spellings; spec/Dispatch.tla judges which statements reached the application, with what, and the answers."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import tlc  # noqa: E402
from harness.runner import main, drive  # noqa: E402


def run(x):
    from harness import dispdrv
    return dispdrv.run(*x)


def check(ck):
    rng = ck.rng()
    r = tlc.model_check("DispatchMC", workers=8)
    ck.add_stats(r)
    ck.add_stats(tlc.model_check("DispatchMC", "DispatchMC_deep", workers=8))
    plans = sorted(tlc.printed(r["out"], "PLAN"), key=json.dumps)
    ck.log("%d histories from the model" % len(plans))
    short = [p for p in plans if len(p["text"]) < 3]
    jobs = [(p, rng.randrange(1 << 30)) for p in short for _ in range(ck.pick(1, 12))]
    jobs += [(p, rng.randrange(1 << 30)) for p in rng.sample(plans, ck.pick(1500, len(plans)))]
    pool = sorted({json.dumps(s) for p in plans for s in p["text"]})
    pool = [json.loads(s) for s in pool]
    for _ in range(ck.pick(250, 4000)):
        p = dict(rng.choice(plans))
        p["text"] = [rng.choice(pool) for _ in range(rng.choice([1, 2, 4, 6, 9]))]
        p["pool"] = [[rng.choice(pool) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(6)]
        p["more"] = rng.choice([2, 5, 8])
        jobs.append((p, rng.randrange(1 << 30)))
    rng.shuffle(jobs)
    n = {"texts": 0, "statements": {}, "application calls": 0}

    def judge(cases):
        verdicts, st = tlc.judge("Dispatch", [{k: v for k, v in c.items() if k != "what"} for c in cases])
        ck.add_stats(st)
        ck.counts["traces"] += len(cases)
        for k, clause in sorted(verdicts.items()):
            ck.violation(clause, cases[k])
        for c in cases:
            for s in c["steps"]:
                n["texts"] += s["cmd"] in ("query", "exec")
                n["application calls"] += len(s["calls"])
                for x in s["stmts"]:
                    n["statements"][x["k"]] = n["statements"].get(x["k"], 0) + 1
        for c in rng.sample(cases, min(2, len(cases))):
            ck.sample({"login": c["login"], "texts": [s["sql"] for s in c["steps"]][:4]})

    drive(ck, run, jobs, judge)
    ck.cov["commands"] = n


if __name__ == "__main__":
    main(check, "C13")
