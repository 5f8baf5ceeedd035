"""One target connection driven one event-loop callback at a time, with kills and faults placed between any two callbacks."""
from __future__ import annotations

import asyncio
import random
import re

from . import wire
from .wire import CAP, COM
from .world import World, AppSession, Provider
from mysql_mimic.auth import User
from mysql_mimic.constants import KillKind
from mysql_mimic.errors import MysqlError
from mysql_mimic.results import ResultColumn, ResultSet
from mysql_mimic.types import ColumnType as CT

SCHEMA = {"d": {"f0": {}, "f2": {"c1": "INT", "c2": "VARCHAR(20)"}}}


class Boom(Exception):
    pass


def it(kind, o="ok", n=0, m=0, self_="", **kw):
    """A program item: kind for the client automaton, outcome, and what the application does."""
    return dict({"kind": kind, "o": {"o": o, "n": n, "m": m}, "self": self_}, **kw)


# What one command may be; each is preceded by login and followed by PINGs
def commands():
    W = 33000
    return {
        "ping": [it("ok", act="ping")],
        "debug": [it("ok", act="debug")],
        "unsupported": [it("ok", "err", act="unsupported")],
        "reset_connection": [it("ok", act="reset_connection")],
        "init_db": [it("ok", act="init_db")],
        "field_list": [it("field_list", "ok", 0, 2, act="field_list")],
        "change_user": [it("ok", act="change_user", pre=["sleep0"])],
        "change_user_gate": [it("ok", act="change_user", gate_user=True)],
        "none": [it("query", "none", act="query", pre=["sleep0"])],
        "none_gate": [it("query", "none", act="query", pre=["gate"])],
        "none_cleanup": [it("query", "none", act="query", pre=["gate"], cleanup=2)],
        "none_convert": [it("query", "none", act="query", pre=["gate"], convert=True)],
        "sync_rows": [it("query", "rs", 1, 3, act="query", how="gen")],
        "susp_rows": [it("query", "rs", 1, 4, act="query", how="susp", pre=["sleep0"])],
        "gate_rows": [it("query", "rs", 1, 3, act="query", how="gate")],
        "late_rows": [it("query", "rs", 1, 3, act="query", pre=["sleep"], how="gen")],
        "wide_rows": [it("query", "rs", 1, 4, act="query", how="gen", w=W, window=40)],
        "wide_susp": [it("query", "rs", 1, 3, act="query", how="susp", w=W, window=40000)],
        "named_rows": [it("query", "rs", 1, 3, act="query", how="gen", named=True, pre=["sleep0"])],
        "named_gate": [it("query", "rs", 1, 3, act="query", how="gate", named=True)],
        "named_wide": [it("query", "rs", 1, 4, act="query", how="susp", named=True, w=W, window=40)],
        "named_none": [it("query", "rs", 1, 0, act="query", how="gate", named=True, pre=["gate"])],
        "named_cursor": [it("prepare", "ok", 0, 0, act="prepare", sql="SELECT c FROM t"), it("cursor", "rs", 1, 5, act="execute", how="gate", named=True),
                         it("fetch", "any", act="fetch", k=2), it("fetch", "any", act="fetch", k=2, window=5), it("fetch", "any", act="fetch", k=9)],
        "slow_ok": [it("query", "none", act="query", window=3)],
        "slow_ping": [it("ok", act="ping", window=0)],
        "slow_rows": [it("query", "rs", 2, 3, act="query", how="gen", window=10)],
        "fail_gate": [it("query", "fail", act="query", pre=["gate"])],
        "fail_slow": [it("query", "fail", act="query", pre=["sleep0"], window=2)],
        "mid": [it("query", "mid", 1, 2, act="query", how="susp")],
        "bad_sql": [it("query", "err", act="text", sql="SELECT (")],
        "multi": [it("query", "rs", 1, 2, act="query", how="susp", pre=["sleep0"], text="SELECT a FROM t; SELECT c FROM t")],
        "builtin": [it("query", "rs", 1, 1, act="text", sql="SELECT @@version")],
        "set": [it("query", "none", act="text", sql="SET autocommit = 1")],
        "show": [it("query", "any", act="text", sql="SHOW TABLES FROM d")],
        "kill_other": [it("query", "okerr", act="text", sql="KILL 99999999")],
        "kill_self_query": [it("query", "okerr", act="text", sql="KILL QUERY {id}", self_="QUERY")],
        "kill_self_query2": [it("query", "rs", 1, 3, act="query", how="susp", text="KILL QUERY {id}; SELECT c FROM t", self_="QUERY")],
        "kill_self": [it("query", "okerr", act="text", sql="KILL {id}", self_="CONNECTION")],
        "kill_self_slow": [it("query", "okerr", act="text", sql="KILL CONNECTION {id}", self_="CONNECTION", window=2)],
        # kills that the application issues itself, in the middle of what it is killed for
        "kill_self_err": [it("query", "err", act="text", sql="KILL QUERY {id}; SHOW ENGINES", self_="QUERY")],
        "own_none": [it("query", "none", act="query", own="QUERY")],
        "own_fail": [it("query", "fail", act="query", own="QUERY")],
        "own_fail_slow": [it("query", "fail", act="query", own="QUERY", window=2)],
        "own_mysql_fail": [it("query", "fail", act="query", own="QUERY", pre=["sleep0"], mysql=True)],
        "own_conn_fail": [it("query", "fail", act="query", own="CONNECTION")],
        "own_conn_rows": [it("query", "rs", 1, 3, act="query", own="CONNECTION", how="gen")],
        "own_row": [it("query", "rs", 1, 4, act="query", how="gen", ownrow="QUERY")],
        "own_mid": [it("query", "mid", 1, 2, act="query", how="gen", ownrow="QUERY")],
        "own_mid_named": [it("query", "mid", 1, 2, act="query", how="susp", named=True, ownrow="QUERY")],
        "own_mid_wide": [it("query", "mid", 1, 3, act="query", how="gen", w=W, window=50, ownrow="QUERY")],
        "own_cursor": [it("prepare", "ok", 0, 0, act="prepare", sql="SELECT c FROM t"), it("cursor", "rs", 1, 4, act="execute", how="gen", ownrow="QUERY"),
                       it("fetch", "any", act="fetch", k=1), it("fetch", "any", act="fetch", k=9, window=5), it("fetch", "any", act="fetch", k=1)],
        "own_init_db": [it("ok", "err", act="init_db", own="QUERY", use=True)],
        "prepare": [it("prepare", "ok", 2, 0, act="prepare", sql="SELECT c FROM t WHERE a = ? AND b = ?")],
        "execute": [it("prepare", "ok", 0, 0, act="prepare", sql="SELECT c FROM t"), it("execute", "rs", 1, 3, act="execute", how="susp", pre=["sleep0"])],
        "execute_slow": [it("prepare", "ok", 0, 0, act="prepare", sql="SELECT c FROM t"),
                         it("execute", "rs", 2, 4, act="execute", how="gen", window=7)],
        "cursor": [it("prepare", "ok", 0, 0, act="prepare", sql="SELECT c FROM t"),
                   it("cursor", "rs", 1, 5, act="execute", how="susp", pre=["sleep0"]),
                   it("fetch", "any", act="fetch", k=2), it("fetch", "any", act="fetch", k=9, window=5), it("fetch", "any", act="fetch", k=1)],
        "cursor_wide": [it("prepare", "ok", 0, 0, act="prepare", sql="SELECT c FROM t"),
                        it("cursor", "rs", 1, 4, act="execute", how="gate", w=W), it("fetch", "any", act="fetch", k=9, window=100)],
        "long_data": [it("prepare", "ok", 1, 0, act="prepare", sql="SELECT c FROM t WHERE a = ?"),
                      it("none", act="long_data"), it("ok", act="stmt_reset"), it("none", act="stmt_close"), it("execute", "err", act="execute")],
    }


class Sched:
    def __init__(self, prog, seed=0, dep=True, killers=2, login=True, finish=True, provider=None, session_cls=AppSession,
                 session_factory=None):
        """prog: items of the target's conversation."""
        self.rng = random.Random(seed)
        self.dep = dep
        self.events = []
        self.gates = []
        self.item = None
        self.faulty = {}
        self.prog = list(prog)
        if finish:
            self.prog += [it("ok", act="ping"), it("query", "rs", 1, 2, act="query", how="gen")]
        if login:
            self.prog = [it("greet"), it("login", act="login")] + self.prog
        self.gone = False
        self.w = World(session_cls, on_query=self.on_query, schema_fn=lambda s: SCHEMA, session_factory=session_factory, provider=provider or Provider(
            {"u": lambda: User(name="u", auth_plugin="mysql_native_password")}))
        self.w.on_use = self.on_use
        self.provider = self.w.server.identity_provider
        caps = wire.DEF_CAPS if dep else wire.DEF_CAPS & ~CAP["DEPRECATE_EOF"]
        self.killers = [self.w.login() for _ in range(killers)]
        self.killer_use = 0
        self.killer_pk = []
        self.witness = self.w.login()
        self.base_tasks = len(self.w.loop.live_tasks())
        self.nsess = len(self.w.sessions)
        self.caps = caps
        self.before_connect()
        self.c = self.w.connect(caps)
        self.c.conn.transport.set_write_buffer_limits(high=0)
        self.started = False
        self.waiting = False   # a command whose response the client awaits (for driving only)
        self.closed_seen = False
        self.ticks = 0
        self.kill_no = 0
        self.sid = 0
        self.mark = []   # tick at which each item was sent
        self.quiet = 0
        if login:
            self.send(self.prog.pop(0))

    def before_connect(self):
        pass

    # the application
    async def gate(self):
        f = asyncio.get_running_loop().create_future()
        self.gates.append(f)
        try:
            await f
        finally:
            if f in self.gates:
                self.gates.remove(f)

    async def wait(self, how):
        if how == "gate":
            await self.gate()
        elif how == "sleep0":
            await asyncio.sleep(0)
        else:
            await asyncio.sleep(0.01)

    async def on_query(self, sess, expr, sql, attrs):
        x = self.item
        if x is None or (expr is not None and expr.sql().startswith("SELECT a FROM")):
            return None
        try:
            for p in x.get("pre", []):
                await self.wait(p)
        except asyncio.CancelledError:
            for _ in range(x.get("cleanup", 0)):
                await asyncio.sleep(0)
            if x.get("convert"):
                raise Boom("cleanup")
            raise
        o = x["o"]
        if x.get("own"):
            self.ownkill(x["own"])
        if o["o"] == "none":
            return None
        if o["o"] in ("fail", "err"):
            raise MysqlError("no") if x.get("mysql") else Boom("no")
        rows = [["x" * x.get("w", 3)] * o["n"] for _ in range(o["m"])]
        fail = o["o"] == "mid"
        how = x.get("how", "gen")
        if how == "gen":
            def g():
                for k, r in enumerate(rows):
                    if k == len(rows) - 1 and x.get("ownrow") and not fail:
                        self.ownkill(x["ownrow"])
                    yield r
                if fail and x.get("ownrow"):
                    self.ownkill(x["ownrow"])
                if fail:
                    raise Boom("mid")
            src = g()
        else:
            async def ag():
                for r in rows:
                    await self.wait("gate" if how == "gate" else "sleep0")
                    yield r
                if x.get("ownrow"):
                    self.ownkill(x["ownrow"])
                if fail:
                    raise Boom("mid")
            src = ag()
        names = ["c%d" % k for k in range(o["n"])]
        if x.get("named"):
            return src, names
        return ResultSet(src, [ResultColumn(n, CT.VARCHAR) for n in names])

    async def on_use(self, sess, database):
        if self.item and self.item.get("use"):
            self.ownkill(self.item["own"])
            raise MysqlError("no such database")

    def ownkill(self, kind):
        """A kill that comes from the application while it serves the target's command."""
        self.kill_no += 1
        self.events.append({"e": "kill", "n": self.kill_no, "kind": kind, "hit": True})
        co = self.w.control.kill(self.tid, KillKind[kind])
        try:
            co.send(None)
        except StopIteration:
            self.events.append({"e": "killed", "n": self.kill_no})
            return
        raise RuntimeError("kill suspends")

    # the client
    def payload(self, x):
        act = x["act"]
        sid = self.sid.to_bytes(4, "little")
        if act == "login":
            return wire.handshake_response(b"u", b"", None, self.caps)
        if act == "query":
            return wire.com_query(x.get("text", "SELECT c FROM t").format(id=self.tid).encode(), self.caps)
        if act == "text":
            return wire.com_query(x["sql"].format(id=self.tid).encode(), self.caps)
        if act == "prepare":
            return bytes([COM["STMT_PREPARE"]]) + x["sql"].encode()
        if act == "execute":
            return wire.com_stmt_execute(self.sid, self.caps, [], None, int(x["kind"] == "cursor"))
        if act == "fetch":
            return bytes([COM["STMT_FETCH"]]) + sid + x["k"].to_bytes(4, "little")
        if act == "stmt_reset":
            return bytes([COM["STMT_RESET"]]) + sid
        if act == "stmt_close":
            return bytes([COM["STMT_CLOSE"]]) + sid
        if act == "long_data":
            return bytes([COM["STMT_SEND_LONG_DATA"]]) + sid + b"\0\0abc"
        if act == "field_list":
            return bytes([COM["FIELD_LIST"]]) + b"f2\0"
        if act == "init_db":
            return bytes([COM["INIT_DB"]]) + b"d"
        if act == "change_user":
            return wire.change_user(b"u", b"", b"d", caps=self.caps)
        if act == "unsupported":
            return b"\x1d"
        return bytes([COM[act.upper()]])

    tid = 0

    def send(self, x):
        self.item = x
        self.mark.append(self.ticks)
        self.c.conn.open_window(x.get("window"))
        self.events.append({"e": "cmd", "kind": x["kind"], "o": x["o"], "stmt": str(self.sid), "self": x["self"]})
        if x["act" if "act" in x else "kind"] == "raw":
            self.c.conn.send(x["raw"])
        elif x["kind"] != "greet":
            self.c.send_payload(self.payload(x), 1 if x["kind"] == "login" else 0)

    def shrink(self, p):
        """Long filler cells, which are correct, shortened."""
        if len(p) < 2000:
            return list(p)
        for pre in (b"", b"\0\0"):
            if p.startswith(pre + b"\xfc"):
                r = wire.Rd(p[len(pre):])
                try:
                    s = r.lestr()
                except (ValueError, TypeError):
                    break
                if s is not None and not r.left and s == b"x" * len(s):
                    return list(pre + wire.lestr(b"xx"))
        return list(p[:400])

    def poll(self):
        for seq, p in self.c.recv():
            if p[:1] == b"\x0a" and self.tid == 0 and len(self.mark) == 1:
                g = wire.parse_handshake_v10(p)
                self.tid = g["thread_id"]
            if self.item and self.item.get("act") == "prepare" and p[:1] == b"\0" and len(p) == 12:
                self.sid = int.from_bytes(p[1:5], "little")
            self.events.append({"e": "pk", "seq": seq, "b": self.shrink(p)})
        if self.c.closed and not self.closed_seen:
            self.closed_seen = True
            if self.c.buf:
                self.events.append({"e": "pk", "seq": -1, "b": []})
            self.events.append({"e": "closed"})

    def tick(self):
        """One callback, or the next thing to happen when there is none.  False at the end."""
        self.ticks += 1
        loop = self.w.loop
        if loop.hung or self.ticks > 5000:
            return False
        if loop.step() or loop._due(20.0):
            self.poll()
            return True
        self.poll()
        if self.gone or self.closed_seen:
            return self.release()
        if not self.closed_seen:
            if self.c.conn.transport.get_write_buffer_size() and self.c.conn.window is not None:
                win = self.item.get("window") or 0
                self.c.conn.open_window(win + 1 if win > 100 else win + 40000 if self.quiet > 6 else win + 3)
                self.quiet += 1
                return True
            if self.release():
                return True
            if self.prog:
                self.quiet = 0
                self.send(self.prog.pop(0))
                return True
        return False

    def release(self):
        """Let the application's oldest pending call go on."""
        for f in self.gates:
            if not f.done():
                with self.w.loop.entered():
                    f.set_result(None)
                return True
        return False

    # kills
    def c_id(self):
        if self.tid:
            return self.tid
        ids = [i for i in self.w.control.live if i not in self.known_ids()]
        return ids[0] if ids else 0

    def known_ids(self):
        return {k.thread_id for k in self.killers} | {self.witness.thread_id}

    def kill(self, kind, source, hit=True):
        self.kill_no += 1
        n = self.kill_no
        ident = self.c_id()
        if not hit:
            near = [ident + (k << 16) for k in (-1, 1, 2, 9, 1 << 15)] + [ident & 0xFFFF, ident + (1 << 32), (ident & 0xFFFF) << 16 | 9, 4000000000, 0]
            ident = self.rng.choice([i for i in near if i >= 0 and i not in self.w.control.live])
        elif not ident:
            return
        ev = {"e": "kill", "n": n, "kind": kind, "hit": hit}
        loop = self.w.loop

        if source == "api":
            async def go():
                self.events.append(ev)
                await self.w.control.kill(ident, KillKind[kind])
                self.events.append({"e": "killed", "n": n})

            co = go()
            with loop.entered():
                try:
                    co.send(None)
                except StopIteration:
                    return
            raise RuntimeError("kill suspends")
        if self.killer_use >= len(self.killers):
            return
        k = self.killers[self.killer_use]
        self.killer_use += 1
        self.events.append(ev)
        self.killer_pk.append((k, n))
        sql = {"QUERY": "KILL QUERY %d", "CONNECTION": self.rng.choice(["KILL %d", "KILL CONNECTION %d"])}[kind] % ident
        k.send_payload(wire.com_query(sql.encode(), k.caps))

    def finish(self):
        self.w.loop.AUTO_ADVANCE = 20.0
        if not self.closed_seen:
            self.c.conn.open_window(None)
        self.w.pump()
        self.poll()
        answers = []
        for k, n in self.killer_pk:
            answers.append([list(p) for _, p in k.recv()])
        ok = True
        for k in self.killers + [self.witness]:
            pk = k.ping()
            ok = ok and len(pk) == 1 and wire.is_ok(pk[0][1]) and not k.closed
        for s in self.w.sessions[:self.nsess]:
            ok = ok and not any(e[0] == "close" for e in s.calls)
        mine = self.w.sessions[self.nsess] if len(self.w.sessions) > self.nsess else None
        calls = [e[0] for e in mine.calls] if mine else []
        return {"killers": answers, "others": ok, "calls": calls, "inited": "init" in calls, "closes": calls.count("close"),
                "reg": any(i not in self.known_ids() for i in self.w.control.live), "tasks": len(self.w.loop.live_tasks()) > self.base_tasks,
                "hung": self.w.loop.hung or self.w.loop.livelock}

    def close(self):
        self.w.close()


def run(prog, kills, seed=0, dep=True):
    """kills: list of (tick, kind, source).  -> case, ticks at which items were sent, total"""
    s = Sched(prog, seed, dep)
    try:
        ks = sorted(kills, key=lambda k: k[0])
        i = 0
        going = True
        while going:
            while i < len(ks) and ks[i][0] <= s.ticks:
                s.kill(ks[i][1], ks[i][2], ks[i][3] if len(ks[i]) > 3 else True)
                s.poll()
                i += 1
            # an answered killer is done
            for k, n in s.killer_pk:
                if not k.__dict__.get("seen") and k.conn.received:
                    k.seen = True
                    s.events.append({"e": "killed", "n": n})
            going = s.tick()
        obs = s.finish()
        case = {"dep": dep, "events": s.events, **{k: obs[k] for k in ("killers", "inited", "closes", "reg", "tasks", "others")}}
        if obs["hung"]:
            raise RuntimeError("the server spins")
        return case, s.mark, s.ticks
    finally:
        s.close()


def job(name, kills, seed, dep):
    prog = sum((commands()[n] for n in name), [])
    case, mark, ticks = run(prog, kills, seed, dep)
    case["what"] = {"commands": name, "kills (tick, kind, issuer)": kills, "dep": dep, "seed": seed}
    return case


def measure(name, dep):
    prog = sum((commands()[n] for n in name), [])
    case, mark, ticks = run(prog, [], 0, dep)
    return name, dep, mark, ticks, {**case, "what": {"commands": name, "kills": [], "dep": dep}}
