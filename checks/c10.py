"""C10: reference conversations ended in every way at every point (each client byte, each event-loop callback, each socket write, each call of the
application), singly and in the pairs whose schedules TLC enumerates (spec/LifeMC.tla); spec/Life.tla judges the session's call log and
what is left of the connection."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import tlc  # noqa: E402
from harness.runner import main, drive, pmap, Broken  # noqa: E402


def run(plan):
    from harness import lifedrv
    return lifedrv.run(plan)


def check(ck):
    from harness.lifedrv import LOGIN, RAW, AEXC, WEXC
    rng = ck.rng()
    r = tlc.model_check("LifeMC", workers=8)
    ck.add_stats(r)
    plans = sorted(tlc.printed(r["out"], "PLAN"), key=json.dumps)
    ck.log("%d schedules from the model" % len(plans))
    ends = {}

    def judge(cases):
        verdicts, st = tlc.judge("Life", [{k: v for k, v in c.items() if k not in ("what", "meta")} for c in cases])
        ck.add_stats(st)
        ck.counts["traces"] += len(cases)
        for k, clause in sorted(verdicts.items()):
            ck.violation(clause, cases[k]["what"])
        for c in cases:
            e = c["end"].split(",")[0].split(" ")[0]
            ends[e] = ends.get(e, 0) + 1
        for c in rng.sample(cases, min(2, len(cases))):
            ck.sample({**c["what"], "log": ["%s %s" % (x["call"], x["ev"]) for x in c["log"]][:60]})

    # conversations: the rich one (everything in the property's reference conversation), and short random ones
    convs = []
    for login in LOGIN:
        for dep in (True, False):
            convs.append(dict(rich=True, login=login, dep=dep, seed=rng.randrange(1 << 30)))
    for _ in range(ck.pick(30, 150)):
        convs.append(dict(rich=False, login=rng.choice(["plain", "plain", "switch", "db"]), dep=rng.random() < 0.5, seed=rng.randrange(1 << 30),
                          async_factory=rng.random() < 0.5))
    base = pmap(run, convs)
    for b in base:
        if isinstance(b, Broken):
            ck.violation("the conversation breaks down: " + b.tb.split("\n")[0], {"item": b.item, "traceback": b.tb})
    base = [b for b in base if not isinstance(b, Broken)]
    judge(base)
    if ck.viol:
        return
    jobs = []
    hows = ["eof", "reset", "half"]
    full = {"rich": 0}
    for b in base:
        conv, m = b["what"]["plan"], b["meta"]
        rich = conv["rich"]
        every = ck.thorough or rich and conv["login"] == "plain" and conv["dep"] or not rich
        keep = 1.0 if every else 0.12
        # the client leaves after every byte of its stream
        for n in range(m["bytes"] + 1):
            for how in hows:
                if rng.random() < keep * (1.0 if rich else 0.3):
                    jobs.append({**conv, "cut": (n, how), "wait_cut": rng.choice([0, 0, 0, 1, 2, 5])})
            if rich and rng.random() < keep * 0.3:
                jobs.append({**conv, "cut": (n, rng.choice(hows)), "bulk": True, "wait_cut": rng.choice([0, 0, 1, 3, 10, 40])})
        # between any two callbacks of the event loop: the client leaves, a kill, a write that fails from now on
        for t in range(m["ticks"] + 1):
            for f in hows + ["kill", "killq", "write", "raise"]:
                if rng.random() < keep:
                    jobs.append({**conv, "at": [(t, f)]})
        # every write fails
        for n in range(1, m["writes"] + 1):
            for e in range(len(WEXC)):
                if rng.random() < keep:
                    jobs.append({**conv, "write": (n, e)})
        # every call of the application fails, at each invocation; also after it has been pending
        calls = dict(m["counts"])
        calls.setdefault("rows", 10 if "rows" not in calls else calls["rows"])
        calls.setdefault("rows_end", 4)
        for name, k in calls.items():
            for j in range(1, k + 1):
                for e in range(len(AEXC)):
                    if rng.random() < keep * (1.0 if rich else 0.5):
                        jobs.append({**conv, "raise": [(name, j, e)], "async_factory": rng.random() < 0.5,
                                     "slow": [name] if rng.random() < 0.5 and name not in ("get_default_plugin", "rows", "rows_end") else []})
        for name in RAW:
            jobs.append({**conv, "raw": [(name, rng.randrange(12))]})
    single = len(jobs)
    good = [b for b in base if b["what"]["plan"]["login"] in ("plain", "switch", "db")]
    slowable = ["factory", "get_user", "init", "query", "use", "schema", "reset", "close"]
    # pairs: the model's schedules (their steps spread over the conversation), and random ones, with calls of the application pending
    picked = [p for p in plans for _ in range(ck.pick(4, 40))]
    for p in picked:
        b = rng.choice(good)
        conv, m = b["what"]["plan"], b["meta"]
        steps = max(1, p.count("step"))
        at, j = [], 0
        for s in p:
            if s == "step":
                j += 1
            else:
                t = max(0, round(m["ticks"] * j / steps) + rng.choice([-2, -1, 0, 0, 0, 1, 2]))
                at.append((t, {"raise": "raise", "kill": "kill", "gone": rng.choice(hows + ["write"])}[s]))
        jobs.append({**conv, "at": at, "slow": rng.sample(slowable, rng.choice([0, 1, 3]))})
    for _ in range(ck.pick(4000, 60000)):
        b = rng.choice(good)
        conv, m = b["what"]["plan"], b["meta"]
        p = {**conv, "slow": rng.sample(slowable, rng.choice([0, 1, 2, 8])), "async_factory": rng.random() < 0.5}
        t = rng.randrange(m["ticks"] + 1)
        at = []
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            at.append((t, rng.choice(hows + ["kill", "kill", "killq", "write", "raise"])))
            t += rng.choice([0, 1, 1, 2, 3, 5, rng.randrange(30)])
        p["at"] = at
        if rng.random() < 0.4:
            name = rng.choice(list(m["counts"]) + ["rows", "close"])
            p["raise"] = [(name, rng.randrange(1, m["counts"].get(name, 3) + 1), rng.randrange(len(AEXC)))]
        if rng.random() < 0.2:
            p["write"] = (rng.randrange(1, m["writes"] + 2), rng.randrange(len(WEXC)))
        jobs.append(p)
    rng.shuffle(jobs)
    cap = ck.pick(26000, 400000)
    ck.log("%d single faults, %d runs" % (single, len(jobs)))
    jobs = jobs[:cap]
    drive(ck, run, jobs, judge, first=400)
    ck.cov["ends"] = ends


if __name__ == "__main__":
    main(check, "C10")
