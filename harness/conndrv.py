"""Histories of connections (spec/ConnsMC.tla and long ones) on the real registry and server."""
from __future__ import annotations

import asyncio
import random

from . import wire
from .wire import COM
from .world import World, AppSession, LocalControl, mysql_mimic
from mysql_mimic.control import TooManyConnections
from mysql_mimic.constants import KillKind

SIZE = 65536


class Fake:
    """A connection registered without a client."""

    connection_id = None

    def __init__(self):
        self.killed = False

    def kill(self, kind=KillKind.CONNECTION):
        self.killed = True


def pair(i):
    return [i >> 16, i & 0xFFFF]


class History:
    def __init__(self, server_id, seed, server, slow=False):
        self.rng = random.Random(seed)
        self.server_id = server_id
        self.steps = []
        self.live = []      # names in order of arrival
        self.what = {}      # name -> (id, Fake or Client, logged in)
        self.names = 0
        self.fakes = {}     # id -> Fake
        self.log = []

        class Ctl(LocalControl):
            async def add(self, connection):
                if slow:
                    await asyncio.sleep(0)
                i = await super().add(connection)
                if slow:
                    await asyncio.sleep(0)
                return i

        self.ctl = Ctl(server_id=server_id) if server_id is not None else Ctl()
        self.world = World(AppSession, control=self.ctl, watchdog=0) if server else None

    def run(self, coro):
        if self.world:
            return self.world.loop.run_coro(coro)
        try:
            while True:
                coro.send(None)
        except StopIteration as e:
            return e.value

    # bulk
    def add(self):
        f = Fake()
        try:
            i = self.run(self.ctl.add(f))
        except TooManyConnections:
            return None
        return i, f

    def fill(self, n):
        lo, up, full = [], set(), False
        for _ in range(n):
            r = self.add()
            if r is None:
                full = True
                break
            self.fakes[r[0]] = r[1]
            up.add(r[0] >> 16)
            lo.append(r[0] & 0xFFFF)
        self.steps.append({"op": "fill", "n": n, "lo": lo, "up": sorted(up), "full": full})

    def churn(self, n):
        lo, up, full = set(), set(), False
        for _ in range(n):
            r = self.add()
            if r is None:
                full = True
                break
            up.add(r[0] >> 16)
            lo.add(r[0] & 0xFFFF)
            self.run(self.ctl.remove(r[0]))
        self.steps.append({"op": "churn", "lo": sorted(lo), "up": sorted(up), "full": full})

    def leave(self, los):
        gone = [i for i in self.fakes if i & 0xFFFF in los]
        for i in gone:
            self.run(self.ctl.remove(i))
            del self.fakes[i]
        self.steps.append({"op": "leave", "lo": [i & 0xFFFF for i in gone]})

    def slots(self):
        """Three lower halves to leave free."""
        a = self.rng.choice([0, SIZE - 2, SIZE - 1, self.rng.randrange(SIZE)])
        return self.rng.choice([{a, (a + 1) % SIZE, (a + 2) % SIZE}, {a, (a + 1) % SIZE, (a + 30000) % SIZE},
                                {0, SIZE - 1, 32768}])

    # single connections
    def conn_id(self, c):
        r = c.query("SELECT CONNECTION_ID()")
        return pair(int(r.text_rows()[0][0])) if r.kind == "rs" else []

    def arrive(self, how=None):
        self.names += 1
        name = self.names
        x = {"op": "arrive", "c": name}
        self.steps.append(x)
        if not self.world:
            r = self.add()
            if r is None:
                x["obs"] = {"k": "refused", "code": 1040}
                return
            self.live.append(name)
            self.what[name] = (r[0], r[1], True)
            x["obs"] = {"k": "in", "id": pair(r[0]), "ask": []}
            return
        c = self.world.connect()
        self.world.pump()
        g = c.greet()
        if g is None:
            p = c.first[0][1] if c.first else b""
            if wire.is_err(p):
                x["obs"] = {"k": "refused", "code": wire.parse_err(p, 0)["code"]}
            else:
                x["obs"] = {"k": "nothing" if not p else "other"}
            return
        how = how or self.rng.choice(["login", "login", "login", "greeted", "denied"])
        ask, logged = [], False
        if how == "login":
            c.login()
            ask, logged = self.conn_id(c), True
        elif how == "denied":
            c.rt(wire.handshake_response(b"u", b"x", None, c.caps, plugin=b"mysql_native_password"), 1)
            c.rt(b"wrong", 3)
        x["obs"] = {"k": "in", "id": pair(c.thread_id), "ask": ask}
        if c.closed:
            self.steps.append({"op": "end", "c": name})
            return
        if how == "denied":  # the user may log in with any password here
            r = c.rt(bytes([COM["PING"]]))
            logged = bool(r) and wire.is_ok(r[-1][1])
        self.live.append(name)
        self.what[name] = (c.thread_id, c, logged)

    def end(self, name):
        i, c, _ = self.what.pop(name)
        self.live.remove(name)
        if isinstance(c, Fake):
            self.run(self.ctl.remove(i))
        else:
            how = self.rng.choice(["quit", "eof", "reset"])
            if how == "quit" and self.what is not None:
                c.send_payload(bytes([COM["QUIT"]]))
            elif how == "eof":
                c.conn.close()
            else:
                c.conn.reset()
            self.world.pump()
            if not c.closed:
                c.conn.close()
                self.world.pump()
        self.steps.append({"op": "end", "c": name})

    def open(self):
        return [n for n in self.live if not (self.what[n][1].killed if isinstance(self.what[n][1], Fake) else self.what[n][1].closed)]

    def kill(self, target, by=None, ident=None):
        """ident: an id that no connection listed holds."""
        i = ident if ident is not None else self.what[target][0]
        if by is None or not self.world or not self.what[by][2]:
            self.run(self.ctl.kill(i))
        else:
            t = self.rng.choice(["KILL %d", "KILL CONNECTION %d", "kill %d", " KILL %d ;", "SELECT 1; KILL %d"]) % i
            self.what[by][1].query(t)
        if self.world:
            self.world.pump()
        self.steps.append({"op": "kill", "id": pair(i), "open": self.open()})
        if ident is None:
            c = self.what.pop(target)[1]
            self.live.remove(target)
            if isinstance(c, Fake):
                self.run(self.ctl.remove(i))

    def ask(self):
        if not self.world:
            return
        ids = []
        for n in self.live:
            i, c, logged = self.what[n]
            if logged:
                if self.rng.random() < 0.2:
                    c.rt(wire.change_user(b"v", b"", b""))
                a = self.conn_id(c)
                ids.append([n] + (a or [-1, -1]))
        self.steps.append({"op": "ask", "ids": ids})

    def clear(self):
        for n in list(self.live):
            self.end(n)

    def plan(self, hist):
        for e in hist:
            if e["op"] == "arrive":
                self.arrive()
            elif e["op"] == "churn":
                self.churn(1)
            elif e["a"] > len(self.live):
                continue  # an arrival ended at once
            elif e["op"] == "end" or not self.what[self.live[e["a"] - 1]][2]:
                self.end(self.live[e["a"] - 1])
            else:
                by = self.live[e["b"] - 1] if 0 < e["b"] <= len(self.live) else None
                self.kill(self.live[e["a"] - 1], by)
        self.ask()

    def case(self, what):
        if self.world:
            self.world.close()
        upper = self.server_id % SIZE if self.server_id is not None else next(
            (x["up"][0] for x in self.steps if x.get("up")), next((x["obs"]["id"][0] for x in self.steps if "id" in x.get("obs", {})), -1))
        return {"upper": upper, "steps": self.steps, "what": what}


IDS = [0, 1, 7, 255, 256, 32768, 65535, 65536, 65537, 70000, (1 << 32) - 1, None]


def plans(hists, seed, server):
    rng = random.Random(seed)
    sid = rng.choice(IDS)
    h = History(sid, seed, server, slow=rng.random() < 0.3)
    h.churn(rng.choice([0, 1, 5, 60000]))
    h.fill(SIZE)
    h.arrive("login")  # full
    s = h.slots()
    h.leave(s)
    for i, p in enumerate(hists):
        h.plan(p)
        h.clear()
        if i % 7 == 6:
            h.fill(3)
            h.arrive("login")
            h.leave(h.slots())
    return h.case({"kind": "full registry", "server": server, "server_id": sid, "seed": seed, "hists": hists})


def long(seed, server):
    """Survivors across wrap-arounds."""
    rng = random.Random(seed)
    sid = rng.choice(IDS)
    h = History(sid, seed, server, slow=rng.random() < 0.3)
    for _ in range(rng.choice([2, 3])):
        for _ in range(rng.randrange(4)):
            h.arrive()
        k = rng.randrange(4)
        if k == 0:
            h.churn(rng.choice([SIZE - 3, SIZE - 1, SIZE, SIZE + 1, SIZE + 5]))
        elif k == 1:
            h.fill(rng.choice([1, 10, 1000, 40000]))
        elif k == 2:
            h.fill(rng.choice([20000, 60000]))
            los = [i & 0xFFFF for i in h.fakes]
            h.leave(set(rng.sample(los, len(los) // rng.choice([2, 3, 1]))))
        else:
            h.churn(rng.choice([SIZE - 10, 65500]))
            for _ in range(6):
                h.arrive()
        for _ in range(3):
            if h.live and rng.random() < 0.5:
                n = rng.choice(h.live)
                if h.what[n][2] and rng.random() < 0.5:
                    h.kill(n, rng.choice(h.live))
                else:
                    h.end(n)
            else:
                h.arrive()
        if h.live and rng.random() < 0.7:  # an id of nobody, or of the other half
            i = h.what[rng.choice(h.live)][0]
            other = rng.choice([i ^ 0x80000000, (i + 65536) & 0xFFFFFFFF, i & 0xFFFF, i >> 16])
            if other not in h.fakes and all(other != h.what[n][0] for n in h.live):
                h.kill(None, rng.choice(h.live), ident=other)
        h.ask()
    return h.case({"kind": "long", "server": server, "server_id": sid, "seed": seed})
