"""C07: every injection of spec/HostileMC.tla (position of the session x packet x field x mutation, enumerated by TLC), made concrete
(every truncation offset, every code, several seeds), alone and in chains; spec/Hostile.tla judges work, answer and aftermath."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import tlc  # noqa: E402
from harness.runner import main, drive  # noqa: E402


def run(x):
    from harness import hostdrv
    return hostdrv.job(x)


def check(ck):
    from harness import hostdrv
    rng = ck.rng()
    r = tlc.model_check("HostileMC", workers=8)
    ck.add_stats(r)
    plans = [json.loads(p) for p in sorted({json.dumps(p, sort_keys=True) for p in tlc.printed(r["out"], "PLAN")})]
    layouts = tlc.printed(r["out"], "LAYOUTS")[0]
    ck.log("%d injections from the model" % len(plans))
    singles = []
    for x in plans:
        lay = layouts[x["tpl"]]
        ss = hostdrv.subs(lay, x, rng, ck.thorough)
        if ss is None:
            ss = range(hostdrv.length(lay))
        singles += [(lay, x, s) for s in ss]
    rng.shuffle(singles)
    byp = {}
    for s in singles:
        byp.setdefault(s[1]["pos"], []).append(s)
    scen = [[s] for s in singles]
    for _ in range(ck.pick(2500, 40000)):
        p = rng.choice(hostdrv.COMMAND)
        scen.append([rng.choice(byp[p]) for _ in range(rng.randrange(2, 7))])
    rng.shuffle(scen)
    scen = [(s, rng.random() < 0.25) for s in scen]
    jobs = []
    for tls in (False, True):
        for raw in (False, True):
            mine = [s for s, w in scen if (s[0][1]["pos"] in ("newtls", "tls")) == tls and w == raw]
            jobs += [(raw, tls, rng.randrange(1 << 30), mine[j: j + 12]) for j in range(0, len(mine), 12)]
    rng.shuffle(jobs)
    muts = {}

    def judge(batches):
        cases = [c for b in batches for c in b]
        verdicts, st = tlc.judge("Hostile", [{k: v for k, v in c.items() if k != "hex"} for c in cases])
        ck.add_stats(st)
        ck.counts["traces"] += len(cases)
        for k, clause in sorted(verdicts.items()):
            c = cases[k]
            ck.violation(clause, {"sent": c["hex"], "steps": [{a: b for a, b in s.items() if a != "pk"} for s in c["steps"]],
                                  "witness": c["witness"], "fresh": c["fresh"], "pos": [c["pos"], c["tpl"], c["mut"]], "left": c["left"], "tasks": c["tasks"]})
        for c in cases:
            for s in c["steps"]:
                muts[s["mut"]] = muts.get(s["mut"], 0) + 1
        ck.cov["max_cpu_ms"] = max([ck.cov.get("max_cpu_ms", 0)] + [s["cpu"] for c in cases for s in c["steps"]])
        ck.cov["max_mem_mb"] = max([ck.cov.get("max_mem_mb", 0)] + [s["mem"] for c in cases for s in c["steps"]])
        for c in rng.sample(cases, min(2, len(cases))):
            ck.sample({"sent": c["hex"], "steps": [[s["pos"], s["tpl"], s["mut"], s["n_pk"], s["closed"]] for s in c["steps"]]})

    drive(ck, run, jobs, judge, first=64)
    ck.cov["injections"] = len(singles)
    ck.cov["mutations"] = muts


if __name__ == "__main__":
    main(check, "C07")
