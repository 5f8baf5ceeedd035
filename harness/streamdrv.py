"""Results of any size streamed to clients that read when they like (spec/StreamMC.tla), on the real server: how many rows are pulled when."""
from __future__ import annotations

import random

from . import wire
from .wire import COM, CAP
from .world import World, RawSession
from mysql_mimic.results import ResultColumn, ResultSet
from mysql_mimic.types import ColumnType as CT

LIMIT = 130_000  # an unbounded source ends here, far beyond every bound


class Stream:
    """plan: kind ("text", "binary", "cursor"), source ("gen", "iter", "agen", "aiter"), w (cell width), cols, n (rows, None: unbounded), typed (columns
    declared), nulls (leading rows of NULL), fetch (rows per fetch), dep, first window, env [(event, when)], seed, witness command kinds."""

    def __init__(self, plan):
        self.p = plan
        self.rng = random.Random(plan["seed"])
        self.pulled = 0
        self.n = min(LIMIT, 60_000_000 // (plan["w"] * plan["cols"] + 5)) if plan["n"] is None else plan["n"]
        self.at = []      # (rows pulled, action)
        self.closed = False
        self.w = World(RawSession, on_query=self.on_query, watchdog=8)
        caps = wire.DEF_CAPS if plan["dep"] else wire.DEF_CAPS & ~CAP["DEPRECATE_EOF"]
        self.c = self.w.login(caps=caps)
        self.wit = [self.w.login() for _ in range(3)]
        self.row = None
        self.samples, self.waits, self.pending = [], [], []
        self.rows = 0     # complete rows in what the socket has accepted
        self.buf = bytearray()
        self.state = "head"
        self.want = -1
        self.done = ""
        self.stmt = None
        self.terms = 0
        self.stop = False

    # the source: never suspends
    def make_row(self, i):
        v = None if i < self.p["nulls"] else self.p.get("val", "x") * self.p["w"]
        return [v] * self.p["cols"]

    def pull(self):
        i = self.pulled
        self.pulled += 1
        while self.at and self.at[0][0] <= self.pulled:
            self.at.pop(0)[1]()
        return self.row_v if i >= self.p["nulls"] else self.row_0

    def gen(self):
        while self.pulled < self.n:
            yield self.pull()

    async def agen(self):
        while self.pulled < self.n:
            yield self.pull()

    def source(self):
        s = self
        kind = self.p["source"]
        if kind == "gen":
            return self.gen()
        if kind == "agen":
            return self.agen()
        if kind == "iter":
            class It:
                def __iter__(self):
                    return self

                def __next__(self):
                    if s.pulled >= s.n:
                        raise StopIteration
                    return s.pull()
            return It()

        class AIt:
            def __aiter__(self):
                return self

            async def __anext__(self):
                if s.pulled >= s.n:
                    raise StopAsyncIteration
                return s.pull()
        return AIt()

    async def on_query(self, sess, expr, sql, attrs):
        if sess is not self.c.session:
            return [("w",)] * 3, ["w"]
        self.row_v, self.row_0 = self.make_row(self.p["nulls"]), [None] * self.p["cols"]
        names = ["c%d" % k for k in range(self.p["cols"])]
        if self.p["typed"]:
            return ResultSet(self.source(), [ResultColumn(n, CT.VARCHAR) for n in names])
        return self.source(), names

    # the client
    def poll(self):
        """Count the complete rows the socket has accepted."""
        b = self.c.conn.take()
        if not b:
            return
        self.buf += b
        k = 0
        while len(self.buf) - k >= 4:
            ln = self.buf[k] | self.buf[k + 1] << 8 | self.buf[k + 2] << 16
            if len(self.buf) - k - 4 < ln:
                break
            if self.state == "rows":
                if ln < (0xFFFFFF if self.p["dep"] else 9) and self.buf[k + 4] == 0xFE:
                    self.terms += 1
                    self.state = "end"
                elif self.buf[k + 4] == 0xFF:
                    self.done = "the result ends in an error"
                    self.state = "end"
                else:
                    self.rows += 1
            else:
                self.packet(bytes(self.buf[k + 4: k + 4 + ln]))
            k += 4 + ln
        del self.buf[:k]

    def packet(self, p):
        if self.state == "head":
            self.cols_left = p[0]
            self.state = "cols"
            if p[:1] in (b"\xff", b"\0"):
                self.done = "no result"
        elif self.state == "cols":
            if self.cols_left > 0:
                self.cols_left -= 1
                if self.cols_left or not self.p["dep"] or self.p["kind"] == "cursor":
                    return
            # after the definitions: EOF unless DEPRECATE_EOF; a cursor's execute response ends with it
            self.state = "rows" if self.p["kind"] != "cursor" else "end"
        elif self.state == "end":
            self.done = "more packets after the end of the result"

    def sample(self, idle):
        self.poll()
        c = self.c.conn
        self.samples.append({"pulled": self.pulled, "handed": self.rows, "open": bool(idle and (c.window is None or c.window > 0)) and self.state != "end",
                             "want": self.want, "left": self.pulled < self.n})

    def look(self):
        """Which commands of the others have been answered?"""
        for x in list(self.pending):
            if x[1].conn.received or x[1].closed:
                x[1].conn.received.clear()
                self.waits.append(self.pulled - x[2])
                self.pending.remove(x)
                if x[0] == "connect":
                    self.say(x[1], "login", wire.handshake_response(b"w", b"", None, x[1].caps), 1)

    def say(self, wit, what, payload, seq=0):
        wit.send_payload(payload, seq)
        self.pending.append((what, wit, self.pulled))

    def arrive(self):
        kind = self.rng.choice(["ping", "ping", "query", "connect", "prepare"])
        if kind == "connect":
            c = self.w.connect()
            self.pending.append(("connect", c, self.pulled))
            return
        free = [x for x in self.wit if not any(y[1] is x for y in self.pending)]
        if free:
            self.say(free[0], kind, {"ping": bytes([COM["PING"]]), "query": wire.com_query(b"w", free[0].caps),
                                     "prepare": bytes([COM["STMT_PREPARE"]]) + b"w ?"}[kind])

    def event(self, e):
        c = self.c.conn
        if e == "arrive":
            self.arrive()
        elif e == "shut":
            c.open_window(0)
        elif e == "all":
            c.open_window(None)
        else:
            n = self.rng.choice([1, 7, 100, 3000]) if e == "little" else self.rng.choice([20000, 70000, 150000, 300000])
            c.open_window(None if c.window is None else c.window + n)
        self.sample(False)

    def lull(self):
        """Time passes: whatever the server does about a client that does not read, up to 300 timers of up to an hour."""
        self.timers = 300
        self.go(None)
        self.timers = 0
        self.sample(True)

    timers = 0

    def later(self):
        self.timers -= 1
        return self.timers >= 0 and self.w.loop._due(3600)

    def go(self, until):
        """Run until nothing is left to happen, or until(): True."""
        loop = self.w.loop
        while True:
            if not loop.step() and not loop._due(0.5) and not self.later():
                self.look()
                self.poll()
                return False
            self.look()
            if self.stop or loop.hung:
                return False
            if until and until():
                return True

    def command(self, payload):
        self.c.send_payload(payload)

    def begin(self):
        kind = self.p["kind"]
        c = self.c
        if kind == "text":
            self.command(wire.com_query(b"SELECT", c.caps))
            return
        self.command(wire.com_stmt_execute(self.stmt, c.caps, [], None, int(kind == "cursor")))
        if kind == "cursor":
            self.want = 0

    def fetch(self):
        self.state = "rows"
        k = self.p["fetch"]
        self.want += k
        self.command(bytes([COM["STMT_FETCH"]]) + self.stmt.to_bytes(4, "little") + k.to_bytes(4, "little"))

    def run(self):
        p = self.p
        if p["kind"] != "text":
            self.stmt = self.c.prepare("SELECT").stmt_id
        self.c.conn.open_window(p["window"])
        env = [list(e) for e in p["env"]]
        self.begin()
        turns = 0
        k = 0
        fired = [0]

        def hooks():
            nonlocal k
            # the next event happens while the task is pulling
            if k < len(env) and env[k][1] != "stalled" and not self.at:
                e = env[k]
                k += 1
                after = self.rng.choice([1, 2, 50, 4000, 9998, 9999, 10000, 10001, 12000]) if e[1] == "run" else \
                    (self.pulled // 10000 + 1) * 10000 - self.pulled + self.rng.choice([0, 0, 1])

                def act():
                    fired[0] += 1
                    self.event(e[0])
                    hooks()
                self.at.append((self.pulled + after, act))
        hooks()
        while turns < 60:
            turns += 1
            self.go(None)
            if self.w.loop.hung:
                self.done = self.done or "the server never comes to rest"
                break
            self.sample(True)
            if p["n"] is None and turns % 3 == 1:
                self.lull()
            if self.p["kind"] == "cursor" and self.state == "end" and self.terms * self.p["fetch"] < self.n and \
                    (self.terms < 40 and self.pulled < self.n):
                self.fetch()
                continue
            # what was to happen during pulls that no longer take place
            if self.at:
                for _, f in self.at[:]:
                    if self.at:
                        self.at.pop(0)
                        f()
                continue
            if k < len(env):
                e = env[k]
                k += 1
                self.event(e[0])
                hooks()
                continue
            break
        # read it all, if it can be read
        if p["n"] is not None and not self.done:
            self.c.conn.open_window(None)
            while turns < 4000:
                turns += 1
                self.go(None)
                self.poll()
                if self.p["kind"] == "cursor" and self.state == "end" and (self.rows < self.n) and self.rows == self.want and not self.w.loop.hung:
                    self.fetch()
                    continue
                break
            self.sample(True)
            if self.rows != self.n:
                self.done = self.done or "%d of %d rows are delivered" % (self.rows, self.n)
            elif self.p["kind"] != "cursor" and self.state != "end":
                self.done = self.done or "the result does not end"
        else:
            self.c.conn.fail_write_at = self.c.conn.transport.writes + 1
            self.c.conn.reset()
            self.stop = False
            self.go(None)
        self.waits += [-1] * len(self.pending)
        ov = 5 + (p["cols"] + 9) // 8 if p["kind"] != "text" else 4
        row = ov + p["cols"] * (len(wire.lestr(b"x" * p["w"])) if p["nulls"] < LIMIT else 1)
        return {"row": row, "peek": min(50, p["nulls"]), "samples": self.samples, "waits": self.waits, "done": self.done, "what": p}


def run(plan):
    s = Stream(plan)
    try:
        return s.run()
    finally:
        s.w.close()
