"""C16: schemas, commands and patterns enumerated by TLC on the relational catalog (spec/CatalogMC.tla), all LIKE patterns of the bounds
and random larger schemas are put to the library; spec/Catalog.tla says from the mapping what the rows have to be."""
import itertools
import json
import os
import sys
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import tlc  # noqa: E402
from harness.runner import main, drive  # noqa: E402


BASE = None


def run(x):
    from harness import catdrv
    return catdrv.run(*x, BASE)


def check(ck):
    global BASE
    rng = ck.rng()
    with ThreadPoolExecutor() as pool:
        deep = pool.submit(tlc.model_check, "CatalogMC", "CatalogMC_deeper" if ck.thorough else "CatalogMC_deep", workers=5)
        r = tlc.model_check("CatalogMC", workers=3)
        ck.add_stats(r)
        ck.add_stats(deep.result())
    schemas = sorted(tlc.printed(r["out"], "SCHEMA"), key=json.dumps)
    plans = sorted(tlc.printed(r["out"], "PLAN"), key=json.dumps)
    ck.log("%d schemas, %d queries from the model" % (len(schemas), len(plans)))
    from harness import catdrv
    from harness.runner import pmap
    BASE = pmap(_base, range(1))[0]
    if not isinstance(BASE, tuple):
        ck.violation("the built-in catalog cannot be listed: " + BASE.tb.split("\n")[0], {"traceback": BASE.tb})
        return
    jobs = [("schema", s, rng.sample(plans, 5), rng.randrange(1 << 30)) for s in rng.sample(schemas, min(len(schemas), ck.pick(600, 20000)))]
    pats = [list(p) for n in range(ck.pick(4, 5)) for p in itertools.product([97, 98, 95, 37], repeat=n)]
    for level in ("dbs", "tabs", "cols"):
        ps = pats + [[rng.choice([97, 98, 95, 37]) for _ in range(rng.choice([4, 5, 6]))] for _ in range(ck.pick(80, 1500))]
        rng.shuffle(ps)
        jobs += [("like", level, ps[i:i + 20], rng.randrange(1 << 30)) for i in range(0, len(ps), 20)]
    jobs += [("vars", rng.randrange(1 << 30)) for _ in range(ck.pick(20, 300))]
    jobs += [("rand", rng.randrange(1 << 30)) for _ in range(ck.pick(450, 8000))]
    jobs += [("kw", word) for word in sorted(catdrv.KEYWORDS)]
    rng.shuffle(jobs)
    n = {}

    def judge(groups):
        cases = [c for g in groups for c in g]
        ck.log("driven")
        verdicts, st = tlc.judge("Catalog", [{k: v for k, v in c.items() if k != "what"} for c in cases])
        ck.log("judged")
        ck.add_stats(st)
        ck.counts["traces"] += len(cases)
        for k, clause in sorted(verdicts.items()):
            ck.violation(clause, cases[k], clause if clause.startswith("kw") else None)
        for c in cases:
            for q in c["queries"]:
                n[q["op"]] = n.get(q["op"], 0) + 1
        for c in rng.sample(cases, min(2, len(cases))):
            ck.sample({"schema": repr(c["what"]["mapping"])[:300], "current": c["what"]["cur"], "commands": c["what"]["sql"][:5], "rows": [len(q["rows"]) for q in c["queries"]][:5]})

    drive(ck, run, jobs, judge)
    ck.cov["queries"] = dict(sorted(n.items()))


def _base(_):
    from harness import catdrv
    return catdrv.baseline()


if __name__ == "__main__":
    main(check, "C16")
