"""Cursor programs (spec/CursorMC.tla and longer ones) on the real server; records what each command is answered."""
from __future__ import annotations

import asyncio
import random

from . import wire
from .resdrv import make_source
from .wire import CAP, COM
from .world import World, RawSession
from mysql_mimic.results import ResultColumn, ResultSet
from mysql_mimic.types import ColumnType as CT

BIG = 1 << 30


class Boom(Exception):
    pass


def source(rows, fail, how, rng):
    """Rows, of which the fail-th (1-based, 0: none) is not given: the source raises."""
    if not fail and how in ("list", "tuple", "iter", "aiterable"):
        return make_source(rows, how)
    n = fail - 1 if fail else len(rows)
    if how in ("gen", "list", "tuple", "iter"):
        def g():
            yield from rows[:n]
            if fail:
                raise Boom("source")
        return g()
    every = rng.choice([1, 2, 5])

    async def ag():
        for i, r in enumerate(rows[:n]):
            if how == "susp" and i % every == 0:
                await asyncio.sleep(rng.choice([0, 0, 0.001]))
            yield r
        if fail:
            raise Boom("source")
    return ag()


def project(pk):
    return [{"b": list(p) if len(p) <= 120 else list(p[:10]), "len": len(p)} for _, p in pk]


def run(prog, seed, dep=None):
    """prog: list of ops {op, s, k, n, fail, cursor}."""
    rng = random.Random(seed)
    dep = rng.random() < 0.5 if dep is None else dep
    same = rng.random() < 0.4  # statements of the same text
    caps = wire.DEF_CAPS if dep else wire.DEF_CAPS & ~CAP["DEPRECATE_EOF"]
    cur = {}
    what = {"prog": [{k: v for k, v in o.items() if v or k == "op"} for o in prog], "seed": seed}

    async def on_query(sess, expr, sql, attrs):
        x = cur.get("x")
        if "other" in sql or x is None:
            return [(1,)], ["a"]
        if x["n"] == -2:
            raise Boom("no")
        if x["n"] == -1:
            return None
        rows = [(65536 * x["res"] + r, "x" * x["w"]) for r in range(1, x["n"] + 1)]
        if rng.random() < 0.5:
            cols = ["id", "pad"]
        else:
            cols = [ResultColumn("id", CT.LONGLONG), ResultColumn("pad", rng.choice([CT.VARCHAR, CT.BLOB, CT.STRING]))]
            if rng.random() < 0.3:
                return ResultSet(source(rows, x["fail"], x["how"], rng), cols)
        return source(rows, x["fail"], x["how"], rng), cols

    steps = []
    ids = {1: 77, 2: 4000000000, 3: 3000000000}
    with World(RawSession, on_query=on_query) as w:
        c = w.login(caps=caps)
        res = 0
        for o in prog:
            s = o["s"]
            sid = ids[s].to_bytes(4, "little")
            x = {"op": o["op"], "s": s, "k": min(o["k"], BIG), "n": o["n"], "fail": o["fail"], "cursor": o["cursor"], "w": 0, "res": 0,
                 "ok": True, "pk": []}
            if o["op"] == "prepare":
                p = c.prepare("SELECT %d" % (7 if same else s))
                x["ok"] = p.kind == "prepare"
                if x["ok"]:
                    ids[s] = p.stmt_id
            elif o["op"] == "exec":
                res += 1
                x["res"] = res
                big = o["n"] * 20000 < 400000
                x["w"] = o.get("w", rng.choice([0, 0, 1, 5, 250, 251, 300] + [20000, 70000] * big))
                x["how"] = o.get("how") or rng.choice(["list", "gen", "iter", "agen", "aiterable", "susp"])
                cur["x"] = x
                x["pk"] = project(c.rt(wire.com_stmt_execute(ids[s], c.caps, [], None, int(o["cursor"]))))
            elif o["op"] == "fetch":
                x["pk"] = project(c.rt(bytes([COM["STMT_FETCH"]]) + sid + o["k"].to_bytes(4, "little")))
            elif o["op"] == "reset":
                x["pk"] = project(c.rt(bytes([COM["STMT_RESET"]]) + sid))
            elif o["op"] == "close":
                x["pk"] = project(c.rt(bytes([COM["STMT_CLOSE"]]) + sid))
            else:
                x["op"] = "other"
                kind = rng.randrange(5)
                if kind == 0:
                    x["pk"] = project(c.rt(bytes([COM["PING"]])))
                elif kind == 1:
                    x["pk"] = project(c.query("SELECT other FROM t").pkts)
                elif kind == 2:
                    x["pk"] = project(c.prepare("SELECT other").pkts)
                elif kind == 3:
                    x["pk"] = project(c.rt(bytes([COM["INIT_DB"]]) + b"d"))
                else:  # another connection
                    d = w.login()
                    r = d.prepare("SELECT other")
                    x["pk"] = project(d.execute(r.stmt_id, cursor=1).pkts)
                    d.fetch(r.stmt_id, 5)
            x.pop("how", None)
            steps.append(x)
    return {"dep": dep, "steps": steps, "what": what}


def op(kind, s=1, k=0, n=0, fail=0, cursor=False, **kw):
    return dict({"op": kind, "s": s, "k": k, "n": n, "fail": fail, "cursor": cursor}, **kw)


def long_program(rng, length=None):
    prog = [op("prepare", 1), op("prepare", 2)]
    for _ in range(length or rng.choice([10, 20, 40])):
        s = rng.choice([1, 1, 2, 2, 3])
        kind = rng.choice(["exec"] * 2 + ["fetch"] * 7 + ["reset", "close", "prepare", "other"])
        if kind == "exec":
            n = rng.choice([-2, -1, 0, 1, 2, 3, 5, 8, 20, 60])
            prog.append(op("exec", s, n=n, fail=rng.randint(1, n) if n > 0 and rng.random() < 0.2 else 0, cursor=rng.random() < 0.8))
        elif kind == "fetch":
            prog.append(op("fetch", s, k=rng.choice([0, 1, 1, 2, 2, 3, 4, 7, 21, 300, (1 << 31) - 1, 1 << 31, (1 << 32) - 1])))
        elif kind == "prepare":
            if s != 3:
                prog.append(op("prepare", s))
        else:
            prog.append(op(kind, s))
    return prog


def big_program(rng):
    """Thousands of rows, cooperative batch boundaries, fetches of any size; two cursors interleaved."""
    n = [rng.choice([255, 256, 257, 1000, 4000, 10000, 10001, 10002, 12345]), rng.choice([0, 3, 999, 2500])]
    prog = [op("prepare", 1), op("prepare", 2)]
    how = rng.choice(["gen", "agen", "list", "susp"])
    w = rng.choice([0, 3, 40])
    prog += [op("exec", s, n=n[s - 1], cursor=True, how=how, w=w) for s in (1, 2)]
    pos = [0, 0]
    for _ in range(60):
        s = rng.choice([1, 1, 1, 2])
        k = rng.choice([1, 2, 100, 999, 1000, 5000, 9999, 10000, 10001, n[s - 1], max(0, n[s - 1] - pos[s - 1]), (1 << 32) - 1 if rng.random() < 0.3 else 7])
        prog.append(op("fetch", s, k=k))
        pos[s - 1] += k
        if all(p > m for p, m in zip(pos, n)):
            break
    return prog + [op("fetch", 1, k=3), op("fetch", 2, k=3)]


def huge_program(rng):
    """More rows in one fetch than fit in 16 bits."""
    n = rng.choice([65535, 65536, 65537, 70000])
    k = rng.choice([65535, 65536, n])
    return [op("prepare", 1), op("exec", 1, n=n, cursor=True, how="gen", w=0), op("fetch", 1, k=k), op("fetch", 1, k=rng.choice([1, 70000])),
            op("fetch", 1, k=1 << 20), op("fetch", 1, k=1), op("exec", 1, n=n, cursor=True, how="gen", w=0), op("fetch", 1, k=(1 << 32) - 1)]
