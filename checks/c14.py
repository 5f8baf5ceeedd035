"""C14: histories of SET lists and SET_VAR hints enumerated by TLC on the store (spec/VarsMC.tla), with concrete variables, values and
spellings and mixed with SET NAMES, transactions and reads, are replayed; spec/Vars.tla judges every read."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import tlc  # noqa: E402
from harness.runner import main, drive  # noqa: E402


def run(x):
    from harness import vardrv
    return vardrv.run(*x)


def check(ck):
    rng = ck.rng()
    r = tlc.model_check("VarsMC", workers=8)
    ck.add_stats(r)
    plans = sorted(tlc.printed(r["out"], "PLAN"), key=json.dumps)
    ck.log("%d histories from the model" % len(plans))
    jobs = [(p, rng.randrange(1 << 30)) for p in rng.sample(plans, ck.pick(2200, len(plans)))]
    for _ in range(ck.pick(150, 3000)):
        jobs.append((sum((rng.choice(plans) for _ in range(rng.choice([3, 6, 10]))), []), rng.randrange(1 << 30)))
    rng.shuffle(jobs)
    n = {}

    def judge(cases):
        verdicts, st = tlc.judge("Vars", [{k: v for k, v in c.items() if k != "what"} for c in cases])
        ck.add_stats(st)
        ck.counts["traces"] += len(cases)
        for k, clause in sorted(verdicts.items()):
            ck.violation(clause, cases[k])
        for c in cases:
            for s in c["steps"]:
                key = s["op"] + "/" + s["out"].split(" ")[0]
                n[key] = n.get(key, 0) + 1
        for c in rng.sample(cases, min(2, len(cases))):
            ck.sample([(s["sql"], s["out"]) for s in c["steps"]][:12])

    drive(ck, run, jobs, judge)
    ck.cov["statements"] = dict(sorted(n.items()))


if __name__ == "__main__":
    main(check, "C14")
