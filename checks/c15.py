"""C15: histories of character-set switches and commands enumerated by TLC (spec/TextMC.tla), pipelined ones included, are replayed in
every character set; spec/Text.tla follows the sets in force and judges every text that crossed the wire."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import tlc  # noqa: E402
from harness.runner import main, drive  # noqa: E402


def run(x):
    from harness import textdrv
    return textdrv.run(*x)


def check(ck):
    rng = ck.rng()
    r = tlc.model_check("TextMC", workers=8)
    ck.add_stats(r)
    plans = sorted(tlc.printed(r["out"], "PLAN"), key=json.dumps)
    ck.log("%d histories from the model" % len(plans))
    jobs = [(p, rng.randrange(1 << 30)) for p in rng.sample(plans, ck.pick(5000, len(plans)))]
    for _ in range(ck.pick(150, 3000)):
        p = list(rng.choice(plans))
        for _ in range(rng.choice([2, 4, 8])):
            p += rng.choice(plans)[1:]
        jobs.append((p, rng.randrange(1 << 30)))
    jobs += [("id", k) for k in range(220)] + [("set", k) for k in range(34 * ck.pick(8, 100))]
    rng.shuffle(jobs)
    n = {}

    def judge(cases):
        verdicts, st = tlc.judge("Text", [{k: v for k, v in c.items() if k != "what"} for c in cases])
        ck.add_stats(st)
        ck.counts["traces"] += len(cases)
        for k, clause in sorted(verdicts.items()):
            ck.violation(clause, cases[k])
        for c in cases:
            for s in c["steps"]:
                for t in s["texts"]:
                    n[t["what"]] = n.get(t["what"], 0) + 1
        for c in rng.sample(cases, min(2, len(cases))):
            ck.sample({"sets": c["what"]["sets"], "steps": [(s["op"], s["cs"], [(t["what"], "".join(map(chr, t["got"])) if t["gov"] == "client" and -1 not in t["got"] else bytes(t["got"] if t["gov"] != "client" else []).hex()) for t in s["texts"]]) for s in c["steps"]][:6]})

    drive(ck, run, jobs, judge)
    ck.cov["texts"] = dict(sorted(n.items()))


if __name__ == "__main__":
    main(check, "C15")
