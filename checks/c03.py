"""C03: programs of commands enumerated by TLC (spec/LockstepMC.tla) and longer random ones are run on the real server
under every capability subset; the bytes of every response drive the client automaton of spec/Lockstep.tla."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import tlc  # noqa: E402
from harness.runner import main, drive  # noqa: E402


def run(x):
    from harness.cmddrv import Prog
    plan, seed, big, tail = x
    p = Prog(seed, plan["dep"], big)
    try:
        for c in plan["prog"]:
            p.run(c)
        if tail:
            p.run({"kind": "ping", "o": {"o": "ok", "n": 0, "m": 0}})
            if tail > 1:
                p.run({"kind": tail == 2 and "quit" or "change_user_denied", "o": {"o": "none", "n": 0, "m": 0}})
        c = p.case()
        c["plan"] = plan
        c["seed"] = seed
        return c
    finally:
        p.w.close()


def check(ck):
    rng = ck.rng()
    r = tlc.model_check("LockstepMC", "LockstepMC_deep" if ck.thorough else None, workers=8)
    ck.add_stats(r)
    plans = tlc.printed(r["out"], "PLAN")
    plans.sort(key=json.dumps)
    ck.log("%d programs from the model" % len(plans))
    rng.shuffle(plans)
    # every command of the model appears in short programs; longer ones are concatenations of model programs
    n = ck.pick(6000, 60000)
    deep = [p for p in plans if any(c["kind"] in ("execute", "cursor", "fetch") for c in p["prog"])]
    fetch = [p for p in plans if any(c["kind"] == "fetch" and c["o"]["o"] == "any" for c in p["prog"])]
    mixed = (plans[: n // 3] + deep[: n // 3] + fetch)[:n]
    jobs = [(p, rng.randrange(1 << 30), k % 8 == 0, rng.choice([1, 1, 1, 2, 3])) for k, p in enumerate(mixed)]
    for k in range(ck.pick(400, 6000)):
        dep = k % 2 == 0
        parts = [p for p in rng.sample(plans, 8) + rng.sample(deep, 6) if p["dep"] == dep]
        prog = []
        for p in parts:
            # statements of different parts are independent: each part prepares its own
            prog += p["prog"]
        jobs.append(({"dep": dep, "prog": prog}, rng.randrange(1 << 30), k % 10 == 0, 2))
    rng.shuffle(jobs)
    seen = {}

    def judge(cases):
        for c in cases:
            if not c.pop("login"):
                ck.violation("login with negotiated capabilities failed", c["plan"])
        verdicts, st = tlc.judge("Lockstep", [{"dep": c["dep"], "cmds": c["cmds"]} for c in cases])
        ck.add_stats(st)
        ck.counts["traces"] += len(cases)
        for k, clause in sorted(verdicts.items()):
            ck.violation(clause, cases[k])
        for c in cases:
            for m in c["cmds"]:
                seen.setdefault(m["kind"] + "/" + m["o"]["o"], [0, 0])
                s = seen[m["kind"] + "/" + m["o"]["o"]]
                s[0] += 1
                s[1] = max(s[1], len(m["pk"]))
        for c in rng.sample(cases, min(2, len(cases))):
            ck.sample({"dep": c["dep"], "cmds": [(m["kind"], m["o"], len(m["pk"])) for m in c["cmds"]]})

    drive(ck, run, jobs, judge)
    ck.cov["commands"] = {k: {"count": v[0], "longest_response_packets": v[1]} for k, v in sorted(seen.items())}


if __name__ == "__main__":
    main(check, "C03")
