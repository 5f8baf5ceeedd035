"""Programs of several connections, alone and interleaved (spec/IsoMC.tla), on the real server; every run in a process of its own."""
from __future__ import annotations

import asyncio
import os
import pickle
import random
import zlib

from . import wire
from .wire import CAP, COM, P, pstr, pint
from .world import World, AppSession, Provider
from mysql_mimic import context
from mysql_mimic.auth import User, NativePasswordAuthPlugin
from mysql_mimic.results import ResultColumn, ResultSet
from mysql_mimic.types import ColumnType as CT

USERS = {b"u%d" % k: b"pw%d" % k for k in range(1, 5)}
SCHEMA = {"d%d" % k: {"t": {"a%d" % k: "INT", "b": "VARCHAR(20)"}, "only%d" % k: {"c": "INT"}} for k in range(1, 4)}
TEXT = {"utf8mb4": "h\u00e9 \u2665 \U0001f600", "latin1": "caf\u00e9 \u00fc", "cp1251": "\u0416\u0438", "sjis": "\u65e5\u672c", "gbk": "\u4e2d\u6587"}
CODEC = {"utf8mb4": "utf8", "latin1": "latin1", "cp1251": "cp1251", "sjis": "shift_jis", "gbk": "gbk"}
CSID = {"utf8mb4": 45, "latin1": 8, "cp1251": 51, "sjis": 13, "gbk": 28}
VARS = "sql_mode, time_zone, max_execution_time, autocommit, character_set_client, character_set_results, collation_connection, sql_select_limit, transaction_isolation"


def program(rng, i):
    """The steps of connection i."""
    cs = rng.choice(["utf8mb4"] * 4 + list(TEXT))
    S = [dict(k="connect"), dict(k="login", user=b"u%d" % rng.choice([i, i, i, 1]), db=rng.choice([None, b"d1", b"d2", b"d3"]), cs=cs,
                                 bad=rng.random() < 0.06, attrs=rng.choice([None, [(b"who", b"c%d" % i)]]), caps=rng.choice([0, 0, CAP["DEPRECATE_EOF"], CAP["QUERY_ATTRIBUTES"]]),
                                 plugin=rng.choice([b"mysql_native_password"] * 3 + [b"other_plugin"]))]
    state = {"cs": cs, "ids": 0, "np": {}}
    sets = ["SET sql_mode = 'M%d'" % i, "SET @@session.time_zone = '+0%d:00'" % i, "SET max_execution_time = %d00" % i, "SET autocommit = %d" % (i % 2),
            "SET SESSION TRANSACTION ISOLATION LEVEL SERIALIZABLE", "SET sql_select_limit = %d" % i, "SET sql_mode = DEFAULT", "SET character_set_results = 'latin1'",
            "SET sql_mode = 'A%d', max_execution_time = %d" % (i, i), "SET GLOBAL sql_mode = 'G%d'" % i]
    reads = ["SELECT " + ", ".join("@@" + v.strip() for v in VARS.split(",")), "SHOW VARIABLES", "SHOW VARIABLES LIKE 'sql%'", "SELECT @@sql_mode",
             "SELECT DATABASE(), USER(), CURRENT_USER(), @@external_user", "SELECT CONNECTION_ID() = {id}", "SHOW TABLES FROM d1", "SHOW TABLES", "SHOW DATABASES",
             "SHOW COLUMNS FROM d2.t", "SELECT table_schema, table_name FROM information_schema.tables WHERE table_schema = DATABASE()",
             "SELECT column_name FROM information_schema.columns WHERE table_name = 't'", "SELECT (", "SELECT @@nosuch", "DESCRIBE d1.t", "KILL 99999999"]
    apps = ["SELECT a FROM echo", "SELECT a FROM slow", "SELECT a FROM rows_", "SELECT a FROM boom", "SELECT @@sql_mode, DATABASE(), USER() FROM slow",
            "SELECT a FROM echo; SELECT @@sql_mode, CONNECTION_ID() = {id} FROM slow", "SET sql_mode = 'S'; SELECT a FROM slow", "SELECT @@time_zone FROM slow WHERE b = @@sql_mode",
            "SELECT /*+ SET_VAR(sql_mode='H') SET_VAR(max_execution_time=9) */ a FROM slow", "SELECT /*+ SET_VAR(sql_mode='H%d') */ @@sql_mode FROM slow" % i,
            "SELECT /*+ SET_VAR(sql_mode='B') */ a FROM boom", "INSERT INTO slow VALUES (DATABASE())"]
    for _ in range(rng.choice([4, 8, 12, 16])):
        kind = rng.choice(["set", "set", "read", "read", "read", "app", "app", "app", "use", "names", "text", "prepare", "prepare", "execute", "execute", "execute", "cursor", "fetch",
                           "fetch", "long", "long", "stmt_close", "stmt_reset", "change_user", "reset", "ping", "field_list", "unsupported", "attrs", "other", "bulk"])
        win = rng.choice([None] * 6 + [0, 3, 40, 200])
        if kind in ("set", "read", "app"):
            S.append(dict(k="query", sql=rng.choice({"set": sets, "read": reads, "app": apps}[kind]), win=win))
        elif kind == "use":
            S.append(rng.choice([dict(k="query", sql="USE d%d" % rng.choice([1, 2, 3])), dict(k="init_db", db=b"d%d" % rng.choice([1, 2, 3]))]))
        elif kind == "names":
            state["cs"] = rng.choice(list(TEXT))
            S.append(dict(k="query", sql=rng.choice(["SET NAMES %s", "SET NAMES %s", "SET CHARACTER SET %s"]) % state["cs"]))
        elif kind == "text":
            S.append(dict(k="query", sql="SELECT '%s' FROM %s" % (TEXT[state["cs"]], rng.choice(["echo", "slow"])), cs=state["cs"], win=win))
        elif kind == "attrs":
            S.append(dict(k="query", sql="SELECT a FROM slow", attrs=[("who", "c%d" % i), ("n", str(rng.randrange(9)))]))
        elif kind == "bulk":
            S.append(dict(k="query", sql="SELECT a FROM echo WHERE b = '%s'" % (chr(96 + i) * rng.choice([3000, 20000])), win=win))
        elif kind == "prepare":
            n = rng.choice([0, 1, 2])
            state["np"][state["ids"]] = n
            state["ids"] += 1
            S.append(dict(k="prepare", n=n, sql="SELECT a, @@sql_mode FROM %s" % rng.choice(["echo", "slow", "rows_"]) + ["", " WHERE x = ?", " WHERE x = ? AND y = ?"][n]))
        elif kind in ("execute", "cursor", "fetch", "long", "stmt_close", "stmt_reset"):
            if not state["ids"] and rng.random() < 0.8:
                continue
            s = rng.randrange(state["ids"] + 1) if rng.random() < 0.1 else rng.randrange(max(1, state["ids"]))
            n = state["np"].get(s, 0)
            S.append(dict(k=kind, s=s, n=n, vals=["v%d%d" % (i, rng.randrange(9)) for _ in range(n)], win=win, fetch=rng.choice([1, 2, 3, 10]),
                          skip=rng.random() < 0.5, data=b"L%d" % i * rng.choice([1, 3])))
        elif kind == "change_user":
            S.append(dict(k="change_user", user=b"u%d" % rng.choice([1, 2, 3, 4]), db=rng.choice([b"", b"d1", b"d3"]), bad=rng.random() < 0.1, cs=state["cs"]))
        elif kind == "reset":
            S.append(dict(k="com", c="RESET_CONNECTION"))
        elif kind == "ping":
            S.append(dict(k="com", c=rng.choice(["PING", "DEBUG"])))
        elif kind == "field_list":
            S.append(dict(k="field_list", t=rng.choice([b"t", b"only1"])))
        elif kind == "unsupported":
            S.append(dict(k="raw", b=rng.choice([b"\x1d", b"\xf0", b"\x17\x01"])))
        else:
            S.append(dict(k="query", sql="SELECT a FROM echo WHERE '%s' = @@external_user" % rng.choice(["u1", "u2"])))
    if rng.random() < 0.5:
        S.append(dict(k=rng.choice(["quit", "eof", "half"])))
    return S


class Actor:
    def __init__(self, run, i, steps, expect=None):
        self.run, self.i, self.steps, self.expect = run, i, steps, expect
        self.at = -1
        self.out = []
        self.c = None
        self.rest = None
        self.closed = False
        self.nonce = b""
        self.used = {}
        self.id = 0
        self.caps = wire.DEF_CAPS | CAP["PLUGIN_AUTH"]

    # what the connection sends next
    def payload(self, s):
        k = s["k"]
        caps = self.caps
        if k == "login":
            caps = self.caps = self.caps & ~s["caps"]
            pw = b"wrong" if s["bad"] else USERS[s["user"]]
            self.pw = pw
            auth = wire.native_scramble(pw, self.nonce) if s["plugin"] == b"mysql_native_password" else b"zzz"
            if s["db"] is not None:
                caps |= CAP["CONNECT_WITH_DB"]
            else:
                caps &= ~CAP["CONNECT_WITH_DB"]
            if s["attrs"] is None:
                caps &= ~CAP["CONNECT_ATTRS"]
            return wire.handshake_response(s["user"], auth, s["db"], caps, CSID[s["cs"]], s["plugin"], s["attrs"])
        if k == "query":
            sql = s["sql"].replace("{id}", str(self.id)).encode(CODEC[s.get("cs", "utf8mb4")])
            return wire.com_query(sql, caps, [pstr(v.encode(), n.encode()) for n, v in s.get("attrs", [])])
        if k == "init_db":
            return bytes([COM["INIT_DB"]]) + s["db"]
        if k == "prepare":
            return bytes([COM["STMT_PREPARE"]]) + s["sql"].encode()
        if k in ("execute", "cursor"):
            used = self.used.pop(s["s"], set())
            ps = []
            for j, v in enumerate(s["vals"]):
                p = pstr(v.encode())
                if j in used:
                    p.longdata = True
                ps.append(p)
            return wire.com_stmt_execute(s["s"], caps, ps, None, int(k == "cursor"))
        sid = s.get("s", 0).to_bytes(4, "little")
        if k == "fetch":
            return bytes([COM["STMT_FETCH"]]) + sid + s["fetch"].to_bytes(4, "little")
        if k == "long":
            if s["n"]:
                self.used.setdefault(s["s"], set()).add(0)
            return bytes([COM["STMT_SEND_LONG_DATA"]]) + sid + b"\0\0" + s["data"]
        if k == "stmt_close":
            return bytes([COM["STMT_CLOSE"]]) + sid
        if k == "stmt_reset":
            self.used.pop(s["s"], None)
            return bytes([COM["STMT_RESET"]]) + sid
        if k == "change_user":
            pw = self.pw = b"wrong" if s["bad"] else USERS[s["user"]]
            return wire.change_user(s["user"], wire.native_scramble(pw, self.greeted), s["db"], CSID[s["cs"]], caps=caps)
        if k == "com":
            return bytes([COM[s["c"]]])
        if k == "field_list":
            return bytes([COM["FIELD_LIST"]]) + s["t"] + b"\0"
        if k == "quit":
            return bytes([COM["QUIT"]])
        return s["b"]

    def can_begin(self):
        return self.rest is None and self.at + 1 < len(self.steps) and not self.closed and (self.at < 0 or self.run.forced or self.answered())

    def answered(self):
        if self.expect is None:
            return False
        return len(self.out[self.at]) >= len(self.expect[self.at])

    def begin(self, part=None):
        """Send the next command, or its first part."""
        self.at += 1
        s = self.steps[self.at]
        self.out.append([])
        if s["k"] == "connect":
            self.idx = self.run.connected
            self.run.connected += 1
            self.run.actors_by_idx.append(self)
            self.c = self.run.w.connect(self.caps)
            self.c.conn.transport.set_write_buffer_limits(high=0)
            return
        self.c.conn.open_window(s.get("win"))
        if s["k"] in ("eof", "half"):
            self.c.conn.close()
            return
        data = wire.packet(self.payload(s), 1 if s["k"] == "login" else 0)
        if part is not None and len(data) > 1:
            n = 1 + int(part * (len(data) - 1))
            if n < len(data):
                self.rest = data[n:]
                data = data[:n]
        self.c.conn.send(data)

    def send_rest(self):
        if self.rest is not None:
            data, self.rest = self.rest, None
            self.c.conn.send(data)

    def poll(self):
        if not self.c:
            return
        for seq, p in self.c.recv():
            s = self.steps[self.at]
            shown = "%d %s" % (seq, p.hex() if len(p) < 300 else p[:100].hex() + "..%d..%x" % (len(p), zlib.crc32(p)))
            if s["k"] == "connect" and p[:1] == b"\x0a":
                g = wire.parse_handshake_v10(p)
                self.id, self.nonce = g["thread_id"], g["nonce_full"][:20]
                self.greeted = self.nonce
                shown = "%d greeting %r" % (seq, sorted((k, v) for k, v in g.items() if k != "thread_id" and "nonce" not in k))
            elif s["k"] in ("login", "change_user") and p[:1] == b"\xfe" and b"\0" in p:
                plugin, nonce = p[1:].split(b"\0", 1)
                self.nonce = nonce[:20]
                shown = "%d switch %r %d" % (seq, plugin, len(nonce))
                self.out[self.at].append(shown)
                self.c.conn.send(wire.packet(wire.native_scramble(self.pw, self.nonce), seq + 1))
                continue
            self.out[self.at].append(shown)
        if self.c.closed and not self.closed:
            self.closed = True
            self.out[self.at].append("closed")


class Run:
    def __init__(self, programs, expects, seed):
        self.rng = random.Random(seed)
        self.connected = 0
        self.actors_by_idx = []
        self.gates = {}
        self.forced = False
        plugin = NativePasswordAuthPlugin()
        users = {u.decode(): (lambda u=u, p=p: User(name=u.decode(), auth_string=wire.native_auth_string(p), auth_plugin="mysql_native_password"))
                 for u, p in USERS.items()}
        self.w = World(AppSession, on_query=self.on_query, provider=Provider(users, [plugin]),
                       schema_fn=lambda s: {**SCHEMA, "d1": {**SCHEMA["d1"], "of_%s" % s.username: {"x": "INT"}}})
        self.actors = [Actor(self, i, st, ex) for (i, st), ex in zip(programs, expects)]

    async def gate(self, idx):
        f = asyncio.get_running_loop().create_future()
        self.gates.setdefault(idx, []).append(f)
        try:
            await f
        finally:
            self.gates[idx].remove(f)

    def echo(self, sess, expr, sql, attrs):
        v = ["%s=%s" % (n.strip(), sess.variables.get(n.strip())) for n in VARS.split(",")]
        return [str(sess.database), str(sess.username), str(context.connection_id.get() == sess.connection.connection_id), ";".join(v), repr(sorted(attrs.items())),
                sql.replace(str(sess.connection.connection_id), "ID"), expr.sql().replace(str(sess.connection.connection_id), "ID")]

    async def on_query(self, sess, expr, sql, attrs):
        row = self.echo(sess, expr, sql, attrs)
        t = expr.sql()
        if "slow" in t or "boom" in t:
            await self.gate(sess.idx)
            row += self.echo(sess, expr, sql, attrs)
            if "boom" in t:
                raise RuntimeError("boom %s" % sess.database)
        cols = ["r%d" % k for k in range(len(row))]
        if "rows_" in t:
            async def rows():
                for k in range(5):
                    if k % 2:
                        await self.gate(sess.idx)
                    yield [str(k), str(sess.database), str(sess.variables.get("sql_mode"))]
            return rows(), [ResultColumn(n, CT.VARCHAR) for n in ("k", "d", "m")]
        return [row], cols

    def poll(self):
        for a in self.actors:
            a.poll()

    def turn(self, n):
        """n callbacks."""
        for _ in range(n):
            if not self.w.loop.step():
                break
        self.poll()

    def release(self, a):
        for f in self.gates.get(getattr(a, "idx", -1), []):
            if not f.done():
                with self.w.loop.entered():
                    f.set_result(None)
                return True
        return False

    def drain(self, a, n):
        if a.c and not a.closed and a.c.conn.window is not None and a.c.conn.transport.get_write_buffer_size():
            a.c.conn.open_window((a.c.conn.window or 0) + n)
            return True
        return False

    def settle(self, a):
        """Until nothing more can happen for a."""
        for _ in range(2000):
            while self.w.loop.step() or self.w.loop._due(1.0):
                pass
            self.poll()
            if self.w.loop._ready:
                continue
            if self.w.loop.hung or not (self.release(a) or self.drain(a, 1000)):
                return

    def solo(self):
        a = self.actors[0]
        while a.at + 1 < len(a.steps) and not a.closed:
            a.begin()
            self.settle(a)
        return a.out

    def act(self, a, what):
        rng = self.rng
        if what == "part":
            if a.can_begin():
                a.begin(rng.choice([None, None, 0.0, 0.3, 0.9]))
        elif what == "rest":
            a.send_rest()
        elif what == "app":
            self.release(a)
        elif what == "drain":
            self.drain(a, rng.choice([1, 5, 100, 1000]))

    def mixed(self, plan):
        """plan: [(actor, action)], repeated until everything has been sent; or "sequential"."""
        rng = self.rng
        if plan == "sequential":
            for a in self.actors:
                while a.at + 1 < len(a.steps) and not a.closed:
                    a.begin()
                    self.settle(a)
            return [a.out for a in self.actors]
        k = 0
        order = list(range(len(self.actors)))
        for rounds in range(3000):
            if all(a.closed or a.at + 1 >= len(a.steps) and a.rest is None for a in self.actors):
                break
            n, what = plan[k % len(plan)]
            k += 1
            if k % len(plan) == 0:
                rng.shuffle(order)
            self.act(self.actors[order[(n - 1) % len(order)]], what)
            self.turn(rng.choice([0, 0, 1, 1, 2, 3, 5, 8, 20, 60]))
            if self.w.loop.hung:
                break
            if k % 40 == 0 and not self.w.loop._ready:
                # nothing moves: whatever is still awaited is let go on
                for a in self.actors:
                    if not (self.release(a) or self.drain(a, 100000)):
                        a.send_rest()
                self.forced = rounds > 1500  # an answer is missing
        for a in self.actors:
            a.send_rest()
        for _ in range(3):
            for a in self.actors:
                self.settle(a)
        return [a.out for a in self.actors]


def forked(fn, *args):
    """In a process of its own: nothing that one run leaves behind reaches the next."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = ("ok", fn(*args))
            except Exception as e:  # reported by the parent
                import traceback
                out = ("raise", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]))
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("the run ends abnormally")
    st, out = pickle.loads(data)
    if st == "raise":
        raise RuntimeError(out)
    return out


def _solo(prog):
    r = Run([prog], [None], 0)
    return r.solo()


def _mixed(progs, solos, plan, seed):
    r = Run(progs, solos, seed)
    return r.mixed(plan)


def job(x):
    """x: {seeds: program seeds, plan, seed}"""
    progs = [(i + 1, program(random.Random(s), i + 1)) for i, s in enumerate(x["seeds"])]
    if x.get("same"):  # the same texts in different states
        progs = [(i, progs[0][1][:1] + p[1:2] + progs[0][1][2:]) for i, p in progs]
    solos = [forked(_solo, p) for p in progs]
    mixed = forked(_mixed, progs, solos, x["plan"], x["seed"])
    conns = []
    for (i, steps), a, b in zip(progs, solos, mixed):
        b = b + [[]] * (len(a) - len(b))
        conns.append([{"what": "connection %d, step %d (%s)" % (i, k, steps[k].get("sql", steps[k]["k"])[:80].encode("ascii", "replace").decode()),
                       "solo": a[k], "mixed": b[k]} for k in range(len(a))])
    return {"conns": conns, "what": x}
