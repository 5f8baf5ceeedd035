"""C17: parameter blocks enumerated by TLC (spec/AttrsMC.tla) and larger random ones are sent; spec/Attrs.tla parses the very bytes
and compares with what the application received."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import tlc  # noqa: E402
from harness.runner import main, drive  # noqa: E402


def run(x):
    from harness import attrdrv
    return attrdrv.run(*x)


def check(ck):
    rng = ck.rng()
    r = tlc.model_check("AttrsMC", workers=8)
    ck.add_stats(r)
    plans = sorted(tlc.printed(r["out"], "PLAN"), key=json.dumps)
    ck.log("%d blocks from the model" % len(plans))
    jobs = [(p, rng.randrange(1 << 30)) for p in rng.sample(plans, ck.pick(2200, len(plans)))]
    noqa = [p for p in plans if not p["qa"]]
    jobs += [(p, rng.randrange(1 << 30)) for p in noqa for _ in range(ck.pick(2, 10))]
    for _ in range(ck.pick(500, 8000)):
        n = rng.choice([5, 6, 7, 8, 9, 15, 16, 17, 24, 63, 64, 65] + [250, 251, 252, 300] * (rng.random() < 0.1))
        cmd = rng.choice(["query", "exec"])
        np_ = 0 if cmd == "query" else rng.choice([0, 1, 7, 8, 9, n])
        items = [rng.choice(["str", "tiny", "utiny", "null", "long", "float"]) for _ in range(max(n, np_))]
        jobs.append(({"cmd": cmd, "qa": True, "np": np_, "flag": cmd == "exec" and rng.random() < 0.7, "items": items}, rng.randrange(1 << 30)))
    for j, (p, s) in enumerate(jobs):  # without placeholders the flag alone announces the attributes
        if p["cmd"] == "exec" and p["np"] == 0 and p["items"] and not p["flag"]:
            jobs[j] = (dict(p, flag=True), s)
    rng.shuffle(jobs)
    n = {"query": 0, "exec": 0, "attributes": 0}

    def judge(groups):
        cases = [c for g in groups for c in g]
        verdicts, st = tlc.judge("Attrs", [{k: v for k, v in c.items() if k != "what"} for c in cases])
        ck.add_stats(st)
        ck.counts["traces"] += len(cases)
        for k, clause in sorted(verdicts.items()):
            ck.violation(clause, cases[k])
        for c in cases:
            n[c["cmd"]] += 1
            n["attributes"] += sum(len(x["attrs"]) for x in c["calls"])
        for c in rng.sample(cases, min(2, len(cases))):
            ck.sample({"payload": bytes(c["payload"])[:200].hex(), "calls": [{"sql": bytes(x["sql"]).decode("utf-8", "replace")[:200], "attrs": len(x["attrs"])} for x in c["calls"]]})

    drive(ck, run, jobs, judge)
    ck.cov["commands"] = n


if __name__ == "__main__":
    main(check, "C17")
