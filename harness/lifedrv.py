"""Connections ended in every way at every point; records the application session's call log and what is left."""
from __future__ import annotations

import asyncio
import random

from . import wire
from .scheddrv import Sched, it, commands, Boom
from .wire import COM
from .world import AppSession, Provider
from mysql_mimic.auth import User
from mysql_mimic.errors import MysqlError

WEXC = [lambda: ConnectionResetError(104, "reset"), lambda: BrokenPipeError(32, "pipe"), lambda: OSError(113, "no route"),
        lambda: TimeoutError("timed out"), lambda: ConnectionAbortedError(103, "aborted")]
AEXC = [lambda: Boom("app"), lambda: MysqlError("app"), lambda: ValueError(), lambda: ConnectionError("upstream"), lambda: OSError("x"),
        lambda: asyncio.TimeoutError(), lambda: KeyError("k"), lambda: EOFError(), lambda: asyncio.IncompleteReadError(b"", 4), lambda: BrokenPipeError()]


class LifeSession(AppSession):
    """Logs the beginning and the end of every call of the target's session."""

    async def span(self, call, fn):
        s = self.world.sched
        if s is None or self.idx != s.nsess:
            return await fn()
        s.note(call, "begin")
        try:
            await s.inject(call)
            r = await fn()
        except asyncio.CancelledError:
            s.note(call, "cancel")
            raise
        except BaseException:
            s.note(call, "raise")
            raise
        s.note(call, "end")
        return r

    async def init(self, connection):
        return await self.span("init", lambda: AppSession.init(self, connection))

    async def close(self):
        return await self.span("close", lambda: AppSession.close(self))

    async def reset(self):
        return await self.span("reset", lambda: AppSession.reset(self))

    async def use(self, database):
        return await self.span("use", lambda: AppSession.use(self, database))

    async def query(self, expression, sql, attrs):
        return await self.span("query", lambda: AppSession.query(self, expression, sql, attrs))

    async def schema(self):
        return await self.span("schema", lambda: AppSession.schema(self))


class Prov(Provider):
    sched = None

    async def get_user(self, username):
        if self.sched:
            await self.sched.inject("get_user")
        if username == "ghost":
            return None
        return User(name=username, auth_plugin="mysql_native_password")

    def get_default_plugin(self):
        if self.sched:
            self.sched.inject_now("get_default_plugin")
        return super().get_default_plugin()


class Life(Sched):
    def __init__(self, prog, seed=0, dep=True, injections=(), slow=(), async_factory=False):
        """injections: {(callback, nth): exception factory}; slow: callbacks that wait for the driver first."""
        self.injections, self.slow = dict(injections), set(slow)
        self.count = {}
        self.calls = []
        self.fault = None
        self.reasons = []
        self.premature = False
        prov = self.prov = Prov()
        life = self

        def factory():
            if life.armed:
                life.inject_now("factory")
            return life.w.session_cls()

        async def afactory():
            if life.armed:
                await life.inject("factory")
            return life.w.session_cls()

        super().__init__(prog, seed, dep, killers=1, login=False, finish=False, provider=prov, session_cls=LifeSession,
                         session_factory=afactory if async_factory else factory)

    armed = False

    def before_connect(self):
        """From here on the sessions and logins are the target's."""
        self.armed = True
        self.w.sched = self.prov.sched = self

    def send(self, x):
        act = x.get("act")
        if act == "quit":
            self.reasons.append("quit")
        elif act == "raw" and x["kind"] != "login":
            self.reasons.append("raw " + x["kind"])
        super().send(x)

    def note(self, call, ev):
        self.calls.append({"call": call, "ev": ev})
        if call == "close" and ev == "begin" and not self.reasons:
            self.premature = True

    def inject_now(self, name):
        self.count[name] = self.count.get(name, 0) + 1
        x = self.injections.get((name, self.count[name]))
        if x:
            self.reasons.append("raise in %s" % name)
            raise x()

    async def inject(self, name):
        if name in self.slow:
            await self.gate()
            await asyncio.sleep(0)
        self.inject_now(name)

    async def on_query(self, sess, expr, sql, attrs):
        r = await super().on_query(sess, expr, sql, attrs)
        if r is None or not any(n == "rows" for n, _ in self.injections):
            return r
        src, life = r.rows, self

        async def wrapped():
            if hasattr(src, "__aiter__"):
                async for x in src:
                    life.inject_now("rows")
                    yield x
            else:
                for x in src:
                    life.inject_now("rows")
                    yield x
            life.inject_now("rows_end")
        r.rows = wrapped()
        return r

    def go_away(self, how):
        if self.gone or self.c.closed:
            return
        self.gone = True
        self.reasons.append(how)
        conn = self.c.conn
        if how == "reset":
            conn.fail_write_at = conn.transport.writes + 1
            conn.reset()
        elif how == "half":  # the client still reads
            conn.close()
        else:
            conn.fail_write_at = conn.transport.writes + self.rng.choice([1, 2, 4])
            conn.close()
        conn.open_window(None)

    def fail_writes(self, n, exc):
        self.c.conn.fail_write_exc = exc
        self.c.conn.fail_write_at = n

    def end(self):
        """The conversation is over: the client leaves in the ordinary way."""
        if not self.gone and not self.c.closed:
            self.gone = True
            self.reasons.append("eof")
            self.c.conn.close()
            self.c.conn.open_window(None)
        while self.tick():
            pass


def blocks(rng, rich):
    """A conversation."""
    C = commands()
    names = [n for n in C if not n.startswith("kill_self") and n not in ("change_user_gate",)]
    if rich:
        order = ["susp_rows", "gate_rows", "cursor", "execute", "field_list", "init_db", "reset_connection", "change_user", "none_gate", "wide_susp",
                 "fail_gate", "mid", "long_data", "show", "slow_rows", "prepare", "set"]
    else:
        order = [rng.choice(names) for _ in range(rng.choice([0, 1, 2, 3]))]
    prog = sum((C[n] for n in order), [])
    last = rng.choice(["quit", "eof", "cursor_open"])
    if last == "cursor_open":
        prog += C["cursor"][:3]
    if last == "quit":
        prog = prog + [it("quit", act="quit")]
    return order + [last], prog


LOGIN = {
    "plain": lambda s: [it("login", act="login")],
    "switch": lambda s: [it("login", act="raw", raw=wire.packet(wire.handshake_response(b"u", b"zzz", None, s.caps, plugin=b"other_plugin"), 1)),
                         it("login", act="raw", raw=wire.packet(b"", 3))],
    "db": lambda s: [it("login", act="raw", raw=wire.packet(wire.handshake_response(b"u", b"", b"d", s.caps | wire.CAP["CONNECT_WITH_DB"]), 1))],
    "ghost": lambda s: [it("login", act="raw", raw=wire.packet(wire.handshake_response(b"ghost", b"", None, s.caps), 1))],
    "denied": lambda s: [it("login", act="raw", raw=wire.packet(wire.handshake_response(b"u", b"x" * 20, None, s.caps), 1))],
    "garbage": lambda s: [it("login", act="raw", raw=wire.packet(b"\x85\xa6", 1))],
    "badseq": lambda s: [it("login", act="raw", raw=wire.packet(wire.handshake_response(b"u", b"", None, s.caps), 7))],
}
RAW = {
    "badseq": wire.packet(b"\x0e", 5), "empty": wire.packet(b"", 0), "trunc_execute": wire.packet(b"\x17\x00", 0), "fetch_short": wire.packet(b"\x1c\x00", 0),
    "bad_query": wire.packet(b"\x03", 0), "cu_short": wire.packet(b"\x11", 0), "cu_ghost": wire.packet(wire.change_user(b"ghost", b"", b"d", caps=wire.DEF_CAPS), 0),
    "notutf8": wire.packet(b"\x03\xff\xfe\xfd", 0), "http": b"GET / HTTP/1.1\r\n\r\n", "unknown": wire.packet(b"\xf0abc", 0),
}


def make(plan):
    rng = random.Random(plan["seed"])
    s = Life([], plan["seed"], plan["dep"], {(n, k): AEXC[e] for n, k, e in plan.get("raise", [])}, plan.get("slow", ()), plan.get("async_factory", False))
    order, prog = blocks(rng, plan["rich"])
    for name, k in plan.get("raw", []):
        prog.insert(min(k, len(prog)), it("raw", act="raw", raw=RAW[name]))
    s.prog = LOGIN[plan["login"]](s) + prog
    return s, order


def run(plan):
    """plan: rich, login, dep, seed, and faults: at (ticks: [(tick, fault)]), cut (client bytes, how), bulk, write (n, exception), raise, raw."""
    # the session class needs its world before World's constructor returns
    s, order = make(plan)
    try:
        return _run(s, plan, order)
    finally:
        s.close()


def _run(s, plan, order):
    at = sorted(plan.get("at", []), key=lambda x: x[0])
    if plan.get("write"):
        n, e = plan["write"]
        s.fail_writes(n, WEXC[e])
    sent = [0]
    cut = plan.get("cut")
    if cut:
        real = s.c.conn.send

        def send(data):
            n, how = cut
            if s.gone:
                return
            left = n - sent[0]
            sent[0] += len(data)
            if left >= len(data):
                real(data)
                if left > len(data):
                    return
            elif left > 0:
                real(data[:left])
            if plan.get("wait_cut"):
                for _ in range(plan["wait_cut"]):
                    s.w.loop.step()
            s.go_away(how)
        s.c.conn.send = send
    else:
        real = s.c.conn.send

        def send(data):
            sent[0] += len(data)
            real(data)
        s.c.conn.send = send
    if cut and cut[0] == 0:
        s.go_away(cut[1])
    if plan.get("bulk"):
        s.w.pump()
        s.poll()
        s.tid = s.tid or 1
        data = b""
        for x in s.prog:
            data += x["raw"] if x.get("act") == "raw" else wire.packet(s.payload(x), 1 if x["kind"] == "login" else 0)
        s.prog = []
        s.item = it("query", "rs", 1, 2, how="susp")
        s.reasons.append("pipelined")
        s.c.conn.send(data)
    i = 0
    going = True
    while going:
        while i < len(at) and at[i][0] <= s.ticks:
            f = at[i][1]
            i += 1
            if f in ("eof", "reset", "half"):
                s.go_away(f)
            elif f == "write":
                s.fail_writes(s.c.conn.transport.writes + 1, WEXC[s.rng.randrange(len(WEXC))])
                s.reasons.append("write")
            elif f == "raise":  # the application's next or pending call fails
                pend = [g for g in s.gates if not g.done()]
                if pend:
                    with s.w.loop.entered():
                        pend[0].set_exception(Boom("injected"))
                else:
                    for n in ("query", "use", "schema", "reset", "rows", "get_user", "init", "close"):
                        s.injections[(n, s.count.get(n, 0) + 1)] = AEXC[s.rng.randrange(len(AEXC))]
                s.reasons.append("raise")
            else:
                s.reasons.append(f)
                s.kill("CONNECTION" if f == "kill" else "QUERY", "api")
        if plan.get("write"):
            s.reasons.append("write fails")
        going = s.tick()
    ticks, writes = s.ticks, s.c.conn.transport.writes
    s.end()
    obs = s.finish()
    case = {"log": s.calls, "sock": bool(s.c.closed), "reg": obs["reg"], "tasks": obs["tasks"], "spin": obs["hung"] or s.ticks > 5000,
            "others": obs["others"], "premature": s.premature, "end": ",".join(map(str, s.reasons[:3]))[:80]}
    case["what"] = {"plan": plan, "conversation": order}
    case["meta"] = {"ticks": ticks, "writes": writes, "bytes": sent[0], "counts": s.count}
    return case
