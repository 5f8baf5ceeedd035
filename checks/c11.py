"""C11: cursor programs enumerated by TLC (spec/CursorMC.tla: every program over two statements; every sequence of fetch sizes over
every result of up to 8 rows) and longer ones run on the real server; spec/Cursor.tla judges each conversation."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import tlc  # noqa: E402
from harness.runner import main, drive  # noqa: E402


def run(x):
    from harness import cursordrv
    return cursordrv.run(*x)


def check(ck):
    from harness.cursordrv import op, long_program, big_program, huge_program
    rng = ck.rng()
    r = tlc.model_check("CursorMC", "CursorMC_deep" if ck.thorough else None, workers=8)
    ck.add_stats(r)
    progs = sorted(tlc.printed(r["out"], "PLAN"), key=json.dumps)
    r = tlc.model_check("CursorMC", "CursorMC_sizes", workers=8)
    ck.add_stats(r)
    sizes = sorted(tlc.printed(r["out"], "PLAN"), key=json.dumps)
    ck.log("%d programs, %d fetch sequences from the model" % (len(progs), len(sizes)))
    ck.cov["programs"], ck.cov["fetch_sequences"] = len(progs), len(sizes)
    if ck.thorough:
        progs = rng.sample(progs, min(len(progs), 120000))
    rng.shuffle(progs)
    rng.shuffle(sizes)
    both = [op("prepare", 1), op("prepare", 2)]
    jobs = []
    for j in range(0, len(progs), 8):  # several programs on one connection
        jobs.append((sum((both + p for p in progs[j: j + 8]), []), rng.randrange(1 << 30)))
    for j in range(0, len(sizes), 6):
        p = []
        for q in sizes[j: j + 6]:
            p += [op("prepare", 1)] * (not p or rng.random() < 0.5) + q + [op("fetch", 1, k=rng.choice([1, 2, 9]))]
        jobs.append((p, rng.randrange(1 << 30)))
    jobs += [(long_program(rng), rng.randrange(1 << 30)) for _ in range(ck.pick(800, 10000))]
    jobs += [(big_program(rng), rng.randrange(1 << 30)) for _ in range(ck.pick(16, 200))]
    jobs += [(huge_program(rng), rng.randrange(1 << 30)) for _ in range(ck.pick(1, 8))]
    rng.shuffle(jobs)
    ops = {}

    def judge(cases):
        verdicts, st = tlc.judge("Cursor", [{k: v for k, v in c.items() if k != "what"} for c in cases])
        ck.add_stats(st)
        ck.counts["traces"] += len(cases)
        for k, clause in sorted(verdicts.items()):
            ck.violation(clause, cases[k]["what"])
        for c in cases:
            for x in c["steps"]:
                ops[x["op"]] = ops.get(x["op"], 0) + 1
        for c in rng.sample(cases, min(2, len(cases))):
            ck.sample({"prog": c["what"]["prog"][:12], "packets": [len(x["pk"]) for x in c["steps"][:12]]})

    drive(ck, run, jobs, judge)
    ck.cov["commands"] = ops


if __name__ == "__main__":
    main(check, "C11")
