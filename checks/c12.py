"""C12: results of any size to clients that stop and resume reading, with commands of others arriving at any row, in the schedules that TLC enumerates
(spec/StreamMC.tla), on the real server; spec/Stream.tla judges the numbers of rows pulled."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import tlc  # noqa: E402
from harness.runner import main, drive  # noqa: E402

NULLS = "a result whose column is declared by name only and stays NULL is read ahead without bound, to find the column's type"


def run(plan):
    from harness import streamdrv
    return streamdrv.run(plan)


def check(ck):
    rng = ck.rng()
    r = tlc.model_check("StreamMC", workers=8)
    ck.add_stats(r)
    plans = sorted({json.dumps(p) for p in tlc.printed(r["out"], "PLAN")})
    ck.add_stats(tlc.model_check("StreamMC", "StreamMC_live", workers=8))
    ck.log("%d schedules from the model" % len(plans))
    kinds, most = {}, {"ahead_rows": 0, "wait_rows": 0}

    def judge(cases):
        # the finding must not hide that others are not served
        cases = cases + [{**c, "samples": []} for c in cases if c["what"].get("known")]
        verdicts, st = tlc.judge("Stream", [{k: v for k, v in c.items() if k != "what"} for c in cases])
        ck.add_stats(st)
        ck.counts["traces"] += len(cases)
        for k, clause in sorted(verdicts.items()):
            what = cases[k]["what"]
            key = NULLS if what.get("known") and "rows are pulled when the socket" in clause else None
            ck.violation("%s result: %s" % (what["kind"], clause), what, key)
        for c in cases:
            w = c["what"]
            kinds[w["kind"]] = kinds.get(w["kind"], 0) + 1
            if not w.get("known"):
                most["ahead_rows"] = max([most["ahead_rows"]] + [s["pulled"] - s["handed"] for s in c["samples"]])
            if c["waits"]:
                most["wait_rows"] = max([most["wait_rows"]] + c["waits"])
        for c in rng.sample(cases, min(2, len(cases))):
            ck.sample({**c["what"], "samples (pulled, handed)": [(s["pulled"], s["handed"]) for s in c["samples"]][:8], "waits": c["waits"]})

    jobs = []
    for k in range(ck.pick(1500, 30000)):
        env = json.loads(plans[rng.randrange(len(plans))])
        env = [[e, "stalled" if w == "stalled" else w] for e, w in env]
        for _ in range(rng.choice([0, 0, 0, 1])):
            env.insert(rng.randrange(len(env) + 1), ["all", rng.choice(["stalled", "run"])])
        if k % 10 == 0:  # a client that reads everything: only the others suffer
            env = [["arrive", rng.choice(["run", "yield"])] for _ in range(rng.choice([1, 2, 4]))]
        kind = rng.choice(["text", "text", "binary", "cursor"])
        w = rng.choice([1, 1, 3, 10, 40, 200, 255, 1000, 5000, 70000])
        cols = rng.choice([1, 1, 1, 2, 5]) if w < 1000 else 1
        n = rng.choice([None, None, None, 0, 1, 2, 100, 9999, 10000, 10001, 30000])
        if n and n * w * cols > 30_000_000:
            n = 300
        jobs.append(dict(kind=kind, source=rng.choice(["gen", "iter", "agen", "aiter"]), w=w, cols=cols, n=n, typed=rng.random() < 0.6,
                         nulls=rng.choice([0, 0, 0, 1, 50]), fetch=rng.choice([1, 7, 1000, 9999, 10001, 25000, 60000, 1 << 31]), dep=rng.random() < 0.7,
                         window=None if k % 10 == 0 else rng.choice([0, 0, 1, 500, 40000, None]), env=env, seed=rng.randrange(1 << 30)))
        if jobs[-1]["fetch"] < 500 and n and n > 3000:
            jobs[-1]["n"] = rng.randrange(300)
    # columns declared by name that stay NULL: others must still be served (and see NULLS)
    for kind in ("text", "binary", "cursor"):
        for source in ("gen", "agen"):
            jobs.insert(0, dict(kind=kind, source=source, w=1, cols=1, n=None, typed=False, nulls=1 << 20, fetch=100, dep=True, window=0, known=True,
                                env=[["arrive", "run"], ["arrive", "yield"]], seed=rng.randrange(1 << 30)))
            # declared types: NULL is a value like another
            jobs.insert(0, dict(kind=kind, source=source, w=1, cols=1, n=None, typed=True, nulls=1 << 20, fetch=100, dep=True, window=0,
                                env=[["much", "stalled"], ["arrive", "run"]], seed=rng.randrange(1 << 30)))
    ck.log("%d runs" % len(jobs))
    drive(ck, run, jobs, judge, first=200)
    ck.cov["kinds"] = kinds
    ck.cov.update(most)


if __name__ == "__main__":
    main(check, "C12")
