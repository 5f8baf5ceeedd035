"""C18: histories of connections enumerated by TLC (spec/ConnsMC.tla) on the registry and the server with all but three ids occupied,
and long histories across wrap-arounds; spec/Conns.tla judges the ids, the refusals and whom KILL ends."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import tlc  # noqa: E402
from harness.runner import main, drive  # noqa: E402


def run(x):
    from harness import conndrv
    return getattr(conndrv, x[0])(*x[1:])


def check(ck):
    rng = ck.rng()
    r = tlc.model_check("ConnsMC", "ConnsMC_deep" if ck.thorough else None, workers=8)
    ck.add_stats(r)
    hists = [json.loads(p) for p in sorted({json.dumps(p) for p in tlc.printed(r["out"], "PLAN")})]
    ck.log("%d histories from the model" % len(hists))
    rng.shuffle(hists)
    ck.cov["histories"] = len(hists)
    jobs = []
    n = 40
    for server in (False, True):
        hs = hists if not ck.thorough else rng.sample(hists, min(len(hists), 20000))
        for j in range(0, len(hs), n):
            jobs.append(("plans", hs[j: j + n], rng.randrange(1 << 30), server))
    jobs += [("long", rng.randrange(1 << 30), k % 2 == 0) for k in range(ck.pick(40, 800))]
    rng.shuffle(jobs)
    ops = {}

    def judge(cases):
        verdicts, st = tlc.judge("Conns", [{k: v for k, v in c.items() if k != "what"} for c in cases], min_shard=4)
        ck.add_stats(st)
        ck.counts["traces"] += len(cases)
        for k, clause in sorted(verdicts.items()):
            ck.violation(clause, {"what": cases[k]["what"], "steps": [x for x in cases[k]["steps"] if len(str(x)) < 300][:200]})
        for c in cases:
            for x in c["steps"]:
                ops[x["op"]] = ops.get(x["op"], 0) + 1
        for c in rng.sample(cases, min(2, len(cases))):
            ck.sample({"what": str(c["what"])[:300], "steps": [x for x in c["steps"] if len(str(x)) < 200][:10]})

    drive(ck, run, jobs, judge, first=40, limit=ck.pick(45, 600))
    ck.cov["steps"] = ops


if __name__ == "__main__":
    main(check, "C18")
