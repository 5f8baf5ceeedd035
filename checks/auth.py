"""C01 and C02: exchanges enumerated by TLC from spec/AuthMC.tla are replayed on the real server; what it answered, what
the application saw and who it was told the user is are judged by the monitor of spec/Auth.tla."""
from __future__ import annotations

import json
import subprocess
import sys

from harness import tlc, wire
from harness.runner import drive, VERIF


def plans(ck):
    r = tlc.model_check("AuthMC", workers=8)
    ck.add_stats(r)
    ps = tlc.printed(r["out"], "PLAN")
    ps.sort(key=json.dumps)
    return ps


def run_plan(x):
    from harness.authdrv import Driver
    plan, seed, trailing, pipeline = x
    d = Driver(plan["c"], seed)
    try:
        case = d.replay(plan["plan"], trailing, pipeline)
        case["fresh"] = [list(n) for n in d.all_nonces]
        case["plan"] = plan
        return case
    finally:
        d.close()


def S(k, pw="-", nonce=1, mut="exact", **kw):
    return dict(k=k, pw=pw, nonce=nonce, mut=mut, **kw)


def routes(resp):
    """Every route by which a native-password response reaches the plugin."""
    N, C = "mysql_native_password", "mysql_clear_password"
    out = []
    for ci in (1, 2, 3, 4, 7, 8):
        for user in ("np", "n2", "nb", "nn", "dp"):
            g = S("garbage")
            for r in resp:
                r2 = dict(r, nonce=2 if r["nonce"] == 1 else r["nonce"])
                hs = lambda p, r: dict(t="hs", user=user, plugin=p, resp=r)
                cu = lambda p, r: dict(t="chuser", user=user, plugin=p, resp=r)
                ch = dict(t="resp", resp=r2)
                login = [dict(t="hs", user="np", plugin=N, resp=S("scr", "p1")), dict(t="resp", resp=S("scr", "p1", 2))]
                out.append(dict(c=ci, plan=[hs(N, r), ch], dead=False))
                out.append(dict(c=ci, plan=[hs(C, g), ch], dead=False))
                out.append(dict(c=ci, plan=login + [cu(N, r), ch], dead=False))
                out.append(dict(c=ci, plan=login + [cu(C, g), ch], dead=False))
    return out


def run_truncated(x):
    """A handshake response (or COM_CHANGE_USER) cut off inside its credentials never authenticates."""
    from harness.authdrv import Driver
    ci, phase, cut, seed, caps, extend = x
    d = Driver(ci, seed)
    try:
        d.caps = d.c.caps = caps
        d.open()
        good = wire.native_scramble(d.pw["p1"].encode(), d.hs)
        if phase == "chuser":
            for _ in range(2):
                if d.steps[-1]["out"] and d.steps[-1]["out"][-1]["k"] == "ok":
                    break
                t = "hs" if len(d.steps) == 1 else "resp"
                d.act(dict(t=t, user="np", plugin="mysql_native_password", resp=S("scr", "p1", 1 if t == "hs" else 2)))
            full = wire.change_user(b"np", good, b"db")
            d.seq = 0
        else:
            d.caps = caps
            full = wire.handshake_response(b"np", good, None, caps)
            d.seq = 1
        end = full.index(good) + len(good)
        raw = full[: int(cut * (end - 1))]
        if phase == "chuser":
            raw = raw or full[:1]
        d.c.conn.send(wire.packet(raw, d.seq))
        d.observe({"t": "badchuser" if phase == "chuser" else "badhs"})
        for c in d.commands()[:5]:
            d.c.conn.send(wire.packet(c, 0))
            d.observe({"t": "cmd"})
        from harness.authdrv import cfg_json
        return {"cfg": cfg_json(ci), "steps": d.steps, "fresh": [list(n) for n in d.all_nonces],
                "plan": {"truncated": phase, "cut": len(raw)}}
    finally:
        d.close()


def run_early(x):
    """Commands sent in place of, or before, the handshake response."""
    from harness.authdrv import Driver, cfg_json
    ci, k, seed = x
    d = Driver(ci, seed)
    try:
        d.open()
        cmds = d.commands()
        cmds = [c for c in cmds if len(c) < 30]
        for j in range(3):
            d.c.conn.send(wire.packet(cmds[(k + j) % len(cmds)], (j + 1) if seed % 2 else 0))
            d.observe({"t": "cmd"})
        return {"cfg": cfg_json(ci), "steps": d.steps, "fresh": [], "plan": {"early": k}}
    finally:
        d.close()


FRESH = r"""
import sys, random, json
sys.path.insert(0, %r)
from harness.authdrv import Driver
out = []
for k in range(%d):
    random.seed(7)
    d = Driver(1, k)
    d.open()
    d.conn(); d.open()
    out += [list(n) for n in d.all_nonces]
    d.close()
print(json.dumps(out))
"""


def check(ck, mine):
    rng = ck.rng()
    ps = plans(ck)
    ck.log("%d plans from the model" % len(ps))
    n = ck.pick(20000, len(ps))
    rng.shuffle(ps)
    short = [p for p in ps if len(p["plan"]) <= 2]
    rest = [p for p in ps if len(p["plan"]) > 2]
    ps = short[: n // 2] + rest[: n - len(short[: n // 2])]
    if mine == "C02":
        native = [S("scr", "p1", mut="flip", at=b) for b in range(160)] + \
                 [S("scr", "p1", mut="trunc", at=b) for b in range(1, 20)] + \
                 [S("scr", "p2"), S("scr", "px"), S("scr", "p1"), S("scr", "p1", 9), S("scr", "p1", mut="ext"), S("empty"),
                  S("scr", "p1", mut="zero"), S("scr", "p1", mut="hash"), S("scr", "p2", mut="flip"), S("scr", "-")]
        # proofs that begin or end in bytes that are easily lost or added
        native += [S("scr", "p1", tune=[pos, byte], mut=mut, **({"at": 19} if mut == "trunc" else {})) for byte in (0, 32, 10)
                   for pos, mut in ((19, "exact"), (0, "exact"), (10, "exact"), (19, "trunc"), (0, "behead"))]
        rs = routes(native)
        if not ck.thorough:
            rs = [r for r in rs if rng.random() < 0.6 or '"at"' not in json.dumps(r)]
        ps = ps[: ck.pick(12000, len(ps))] + rs
    jobs = []
    for k, p in enumerate(ps):
        last = p["plan"][-1]["resp"]
        pipe = mine == "C01" and p["dead"] and rng.random() < 0.3 and last["mut"] != "ext" and last["k"] not in ("empty", "eof")
        jobs.append((p, rng.randrange(1 << 30), rng.choice([2, 4, 17]) if mine == "C01" and rng.random() < 0.6 else 0, pipe))
    rng.shuffle(jobs)
    fresh = {}
    outcomes = {}

    def judge(cases, judged=None):
        for c in cases:
            for x in c.pop("fresh", []):
                fresh[tuple(x)] = fresh.get(tuple(x), 0) + 1
        judged = judged or [{k: v for k, v in c.items() if k != "plan"} for c in cases]
        verdicts, st = tlc.judge("Auth", judged)
        ck.add_stats(st)
        ck.counts["traces"] += len(judged)
        for k, clause in sorted(verdicts.items()):
            who = clause.split(":")[0]
            if mine in who or not who.startswith("C0"):
                ck.violation(clause, {"plan": cases[k].get("plan"), "steps": cases[k].get("steps", judged[k])})
        for c in cases:
            if "steps" in c:
                o = "/".join(x["k"] for s in c["steps"][1:3] for x in s["out"])
                outcomes[o] = outcomes.get(o, 0) + 1
        for c in rng.sample(cases, min(2, len(cases))):
            if "steps" in c:
                ck.sample({"plan": c["plan"], "out": [[o["k"] for o in s["out"]] for s in c["steps"]]})

    drive(ck, run_plan, jobs, judge)
    if mine == "C01":
        L, P, base = wire.CAP["PLUGIN_AUTH_LENENC"], wire.CAP["CONNECT_WITH_DB"], wire.BASE_CAPS
        cuts = [k / ck.pick(24, 60) for k in range(ck.pick(24, 60) + 1)]
        tr = [(ci, ph, c, rng.randrange(1 << 30), caps, 0) for ci in (1, 2, 3, 4, 5, 7, 8) for ph in ("hs", "chuser") for c in cuts
              for caps in (wire.DEF_CAPS, base, base | P, base | L | P)]
        drive(ck, run_truncated, tr, judge)
        drive(ck, run_early, [(ci, k, s) for ci in range(1, 10) for k in range(12) for s in range(2)], judge)
    ck.log("%d exchanges replayed" % sum(outcomes.values()))
    if mine == "C02":
        procs = [subprocess.run([sys.executable, "-c", FRESH % (VERIF, ck.pick(20, 200))], stdout=subprocess.PIPE, text=True,
                                check=True).stdout for _ in range(3)]
        ns = [x for p in procs for x in json.loads(p)]
        every = sorted(fresh)
        rep = [list(x) for x, m in fresh.items() if m > 1]
        judge([{"plan": "nonces of fresh processes"}, {"plan": "nonces of this run"}, {"plan": "nonces issued twice in this run"}],
              [{"nonces": ns}, {"nonces": [list(x) for x in every[:3000]]}, {"nonces": rep[:3] + rep[:3]}])
    ck.cov["outcomes"] = outcomes
    ck.cov["plans_of_model"] = len(ps)
