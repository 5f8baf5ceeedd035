"""C05: results enumerated by TLC (spec/ResultsMC.tla: NULL patterns, named/typed columns) and larger random ones are returned by
the application with known values; spec/Results.tla decodes the packets as a client does and compares."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import tlc  # noqa: E402
from harness.runner import main, drive  # noqa: E402


def run(x):
    from harness.resdrv import job
    return job(*x)


def check(ck):
    rng = ck.rng()
    r = tlc.model_check("ResultsMC", workers=8)
    ck.add_stats(r)
    plans = sorted(tlc.printed(r["out"], "PLAN"), key=json.dumps)
    ck.log("%d result shapes from the model" % len(plans))
    few = [p for p in plans if len(p["named"]) < 3]
    jobs = [(p, rng.randrange(1 << 30)) for p in few for _ in range(ck.pick(2, 30))]
    jobs += [(p, rng.randrange(1 << 30)) for p in rng.sample(plans, ck.pick(1800, len(plans)))]
    for _ in range(ck.pick(1000, 8000)):
        n = rng.choice([1, 2, 5, 6, 7, 8, 9, 13, 14, 15, 16, 17, 22, 23, 30])
        m = rng.choice([0, 1, 2, 5, 9])
        q = rng.choice([0.1, 0.5, 0.8])
        jobs.append(({"named": [rng.random() < 0.6 for _ in range(n)], "src": [[rng.random() < q for _ in range(n)] for _ in range(m)]},
                     rng.randrange(1 << 30)))
    for n in (250, 251, 260):  # many columns
        jobs.append(({"named": [rng.random() < 0.6 for _ in range(n)], "src": [[rng.random() < 0.5 for _ in range(n)] for _ in range(3)]},
                     rng.randrange(1 << 30)))
    for m in (40, 300, 700):  # late first values
        jobs.append(({"named": [True, True, False], "src": [[k < m // 2, k < m - 3, k % 3 == 0] for k in range(m)]}, rng.randrange(1 << 30)))
    for m in [10003, 20011] + ck.pick([], [33333, 65537, 131075]):  # long results
        jobs.append(({"named": [rng.random() < 0.5], "src": [[k % 7 == 3] for k in range(m)]}, rng.randrange(1 << 30)))
    rng.shuffle(jobs)
    cells = {}

    def judge(groups):
        cases = [c for g in groups for c in g]
        verdicts, st = tlc.judge("Results", [{k: v for k, v in c.items() if k != "what"} for c in cases])
        ck.add_stats(st)
        ck.counts["traces"] += len(cases)
        for k, clause in sorted(verdicts.items()):
            ck.violation(clause, cases[k])
        for c in cases:
            for row in c["rows"]:
                for j, v in enumerate(row):
                    key = c["proto"] + "/" + v["k"]
                    cells[key] = cells.get(key, 0) + 1
        for c in rng.sample(cases, min(2, len(cases))):
            ck.sample({"proto": c["proto"], **c["what"]})

    drive(ck, run, jobs, judge)
    ck.cov["cells"] = dict(sorted(cells.items()))


if __name__ == "__main__":
    main(check, "C05")
