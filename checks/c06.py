"""C06: templates enumerated by TLC over a nasty alphabet (spec/BindingMC.tla) and generated ones are prepared and executed with
nasty values, and histories of long data (spec/LongMC.tla) replayed; spec/Binding.tla relates the text the application receives to the prepared text and the values."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import tlc  # noqa: E402
from harness.runner import main, drive  # noqa: E402


def run(x):
    from harness import binddrv
    return binddrv.run(*x)


def check(ck):
    from harness.binddrv import template, SEG
    rng = ck.rng()
    r = tlc.model_check("BindingMC", "BindingMC_deep" if ck.thorough else None, workers=8)
    ck.add_stats(r)
    plans = sorted(tlc.printed(r["out"], "PLAN"), key=json.dumps)
    ck.log("%d templates from the model" % len(plans))
    jobs = [("".join(map(chr, p)), rng.randrange(1 << 30), 2, False) for p in (plans if not ck.thorough else rng.sample(plans, min(len(plans), 40000)))]
    jobs += [(template(rng), rng.randrange(1 << 30), 3, rng.random() < 0.5) for _ in range(ck.pick(2500, 30000))]
    for n in (7, 8, 9, 15, 16, 17, 63, 64, 65, 250, 251, 300):
        jobs.append(("SELECT " + ",".join("?" * n), rng.randrange(1 << 30), 2, True))
    for s in SEG:  # every context, before and after
        for f in ("?%s", "%s?", "?%s?", "SELECT ?%s?,?"):
            t = f % s
            if "\\" not in s.strip("'") or s[:1] in "'\"":
                if t.count("--") == t.count("-- ") and not s.strip() == "\\":
                    jobs.append((t, rng.randrange(1 << 30), 3, False))
    r = tlc.model_check("LongMC", "LongMC_deep" if ck.thorough else None, workers=8)
    ck.add_stats(r)
    plans = sorted(tlc.printed(r["out"], "PLAN"), key=json.dumps)
    ck.log("%d histories of long data from the model" % len(plans))
    jobs += [(p, rng.randrange(1 << 30)) for p in rng.sample(plans, ck.pick(1500, len(plans)))]
    rng.shuffle(jobs)
    kinds = {}

    def judge(cases):
        verdicts, st = tlc.judge("Binding", [{k: v for k, v in c.items() if k != "what"} for c in cases])
        ck.add_stats(st)
        ck.counts["traces"] += len(cases)
        for k, clause in sorted(verdicts.items()):
            ck.violation(clause, cases[k]["what"])
        for c in cases:
            for e in c["execs"]:
                for v in e["vals"]:
                    kinds[v["k"]] = kinds.get(v["k"], 0) + 1
        for c in rng.sample(cases, min(2, len(cases))):
            ck.sample(c["what"])

    drive(ck, run, jobs, judge)
    ck.cov["values"] = kinds


if __name__ == "__main__":
    main(check, "C06")
