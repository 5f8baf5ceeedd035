"""Runs command programs (spec/LockstepMC.tla) against the real server and records each command's response."""
from __future__ import annotations

import datetime as dt
import random

from . import wire
from .wire import CAP, COM, P, pint, pstr, pnull, pfloat
from .world import World, AppSession, Client
from mysql_mimic.results import ResultColumn, ResultSet
from mysql_mimic.types import ColumnType, Capabilities
from mysql_mimic.constants import DEFAULT_SERVER_CAPABILITIES
from mysql_mimic.auth import SimpleIdentityProvider, User
from mysql_mimic.errors import MysqlError

OPT = ["DEPRECATE_EOF", "QUERY_ATTRIBUTES", "CONNECT_WITH_DB", "CONNECT_ATTRS", "PLUGIN_AUTH_LENENC"]
EXTRA = ["FOUND_ROWS", "NO_SCHEMA", "LOCAL_FILES", "TRANSACTIONS", "RESERVED", "MULTI_STATEMENTS", "MULTI_RESULTS",
         "PS_MULTI_RESULTS", "HANDLE_EXPIRED", "SESSION_TRACK", "OPTIONAL_METADATA", "ODBC", "IGNORE_SPACE", "INTERACTIVE"]
NAMES = ["a", "a", "b", "", "x" * 300, "é", "select", "a b"]


def connect_attrs(rng):
    """Connection attributes of all sizes, lengths of one, three and four bytes among them."""
    return [(b"k%d" % j, b"v" * rng.choice([0, 1, 9, 100, 249, 250, 251, 252, 300, 65535, 70000])) for j in range(rng.choice([0, 1, 1, 3, 12]))]


class Boom(Exception):
    pass


def raise_(rng):
    if rng.random() < 0.5:
        raise MysqlError(rng.choice(["no", "", "x" * 600, "é?"]))
    raise rng.choice([Boom("boom"), ValueError("%s"), KeyError("k"), Exception()])


def value(t, rng):
    if t in ("int",):
        return rng.randrange(-100, 100)
    if t == "str":
        return rng.choice(["", "x", "é", "NULL", "y" * 251, "\xfe\xff"])
    if t == "float":
        return rng.choice([0.5, -1.25])
    if t == "bool":
        return rng.random() < 0.5
    if t == "date":
        return dt.date(2020, 2, 29)
    if t == "datetime":
        return dt.datetime(2020, 1, 2, 3, 4, 5, rng.choice([0, 6]))
    if t == "td":
        return dt.timedelta(seconds=rng.choice([0, 5, -5, 100000]))
    return b"\xff\x00" if t == "bytes" else None


TYPES = {"int": ColumnType.LONGLONG, "str": ColumnType.VARCHAR, "float": ColumnType.DOUBLE, "bool": ColumnType.TINY,
         "date": ColumnType.DATE, "datetime": ColumnType.DATETIME, "td": ColumnType.TIME, "bytes": ColumnType.BLOB}


def make_result(o, rng):
    """What the application returns for outcome o (already concrete sizes)."""
    kind, n, m = o["o"], o["n"], o["m"]
    if kind == "none":
        return rng.choice([None, ([], []), ResultSet([], [])])
    if kind == "zero":
        return rng.choice([([()] * m, []), ResultSet([()] * m, []), ([], ())])
    if kind == "fail":
        raise_(rng)
    types = [rng.choice(list(TYPES)) for _ in range(n)]
    names = [rng.choice(NAMES) for _ in range(n)]
    nulls = rng.random()
    rows = [[None if rng.random() < nulls * 0.5 else value(t, rng) for t in types] for _ in range(m)]
    if rng.random() < 0.5 and rows:
        rows[0] = [value(t, rng) for t in types]
    cols = [ResultColumn(nm, TYPES[t]) for nm, t in zip(names, types)] if rng.random() < 0.6 else names
    fail = kind == "mid"

    def gen():
        yield from rows
        if fail:
            raise_(rng)

    async def agen():
        for r in rows:
            yield r
        if fail:
            raise_(rng)

    src = rng.choice([gen, agen])()
    if not fail and rng.random() < 0.4:
        src = rows
    if rng.random() < 0.3 and cols is not names:
        return ResultSet(src, cols)
    return src, cols


class Prov(SimpleIdentityProvider):
    async def get_user(self, username):
        if username.startswith("ghost"):
            return None
        return User(name=username, auth_plugin="mysql_native_password")


SCHEMA = {"d": {"f0": {}, "f2": {"c1": "INT", "c2": "VARCHAR(20)"}, "f1": {"only": "TEXT"}}}


def negotiate(rng, dep=None):
    """A client/server capability pair; CLIENT_DEPRECATE_EOF is negotiated iff dep."""
    caps = wire.BASE_CAPS & ~CAP["MULTI_RESULTS"] & ~CAP["TRANSACTIONS"]
    server = int(DEFAULT_SERVER_CAPABILITIES)
    for c in OPT:
        if rng.random() < 0.5:
            caps |= CAP[c]
    if dep is True:
        caps |= CAP["DEPRECATE_EOF"]
    if dep is False:
        caps &= ~CAP["DEPRECATE_EOF"]
    if rng.random() < 0.25:
        for c in OPT:
            if rng.random() < 0.4 and not (dep and c == "DEPRECATE_EOF"):
                server &= ~CAP[c]
        if dep is False and rng.random() < 0.5:
            server &= ~CAP["DEPRECATE_EOF"]
            caps |= CAP["DEPRECATE_EOF"]
    extra = 0
    if rng.random() < 0.5:
        for c in EXTRA:
            if rng.random() < 0.4:
                extra |= CAP[c]
    return caps, extra, server


class Prog:
    def __init__(self, seed, dep=None, big=False):
        self.rng = rng = random.Random(seed)
        self.big = big
        self.outcome = None
        caps, extra, server = negotiate(rng, dep)
        neg = caps & server  # what a client may use
        self.w = World(AppSession, provider=Prov(), on_query=self.on_query, on_use=self.on_use,
                       schema_fn=lambda s: SCHEMA, server_kwargs={"capabilities": Capabilities(server)})
        c = self.c = self.w.connect(neg | extra)
        c.greet()
        self.caps = neg
        db = b"d" if neg & CAP["CONNECT_WITH_DB"] else None
        attrs = connect_attrs(rng) if neg & CAP["CONNECT_ATTRS"] else None
        raw = wire.handshake_response(rng.choice([b"u", b"root"]), b"", db, neg, attrs=attrs)
        raw = (neg | extra).to_bytes(4, "little") + raw[4:]
        pk = c.rt(raw, 1)
        self.logged_in = len(pk) == 1 and pk[0][1][:1] == b"\0" and pk[0][0] == 2
        self.dep = bool(neg & c.greeting["caps"] & CAP["DEPRECATE_EOF"])
        self.cmds = []
        self.stmt = None
        self.nparams = 0
        self.counter = 0

    async def on_query(self, sess, expr, sql, attrs):
        return make_result(self.outcome, self.rng)

    async def on_use(self, sess, db):
        if db == "forbidden":
            raise_(self.rng)

    def size(self, o):
        """Concrete sizes for a model outcome."""
        o = dict(o)
        rng = self.rng
        if o["o"] in ("rs", "mid"):
            if o["n"] == 2:
                o["n"] = rng.choice([2, 2, 3, 6, 7, 8, 14, 15] + ([251, 300] if self.big else []))
            if o["m"] >= 2 or (o["o"] == "mid" and o["m"] == 1 and rng.random() < 0.3):
                o["m"] = rng.choice([2, 3, 5] + ([255, 256, 300] if self.big and o["n"] < 16 else []))
            if self.big and o["n"] <= 3 and rng.random() < 0.1 and o["m"] > 1:
                o["m"] = rng.choice([250, 251, 252, 253, 254, 257, 512, 600])
        return o

    def rec(self, kind, o, payload, mayclose=False):
        self.counter += 1
        if not self.c.closed:
            pk = self.c.rt(payload)
        else:
            pk = []
        left = self.c.buf
        p = wire.proj(pk)
        if left:
            p.append([-1, []])
        self.cmds.append({"kind": kind, "o": o, "stmt": str(self.cur_stmt), "pk": p, "closed": bool(self.c.closed),
                          "mayclose": mayclose})
        return pk

    cur_stmt = "-"

    def params(self):
        rng = self.rng
        return [rng.choice([pint(5), pstr(b"x"), pnull(), pfloat(1.5), pint(255, "TINY", True)]) for _ in range(self.nparams)]

    def run(self, c):
        rng = self.rng
        k, o = c["kind"], self.size(c["o"])
        self.outcome = o
        self.cur_stmt = "-"
        ok = {"o": "ok", "n": 0, "m": 0}
        err = {"o": "err", "n": 0, "m": 0}
        attrs = [pstr(b"v", b"n"), pint(3, name=b"i")][: rng.choice([0, 0, 1, 2])] if self.caps & CAP["QUERY_ATTRIBUTES"] else None
        stmt_sql = b"SELECT c FROM t"
        if k == "query":
            texts = [b"SELECT c FROM t", b"INSERT INTO t VALUES (1)", b"SELECT 1; SELECT c FROM t", b"SELECT c FROM t;"]
            if o["o"] == "none":
                texts += [b"SET autocommit = 1", b"USE d", b"BEGIN", b"KILL QUERY 99999", b"COMMIT"]
            sql = rng.choice(texts)
            if o == {"o": "rs", "n": 1, "m": 1} and rng.random() < 0.3:
                sql = rng.choice([b"SELECT 1", b"SELECT @@version", b"SELECT NOW()", b"SELECT NULL", b"SELECT DATABASE()"])
            self.rec("query", o, wire.com_query(sql, self.caps, attrs))
        elif k == "bad_sql":
            self.rec("query", err, wire.com_query(rng.choice([b"SELECT (", b"SELECT @@nosuchvar", b"SET nosuchvar = 1",
                                                             b"SHOW NOSUCH", b"\xff\xfe", b"SET version = '1'", b"KILL x'y",
                                                             b"SELECT 'x"]), self.caps, attrs))
        elif k == "ping":
            self.rec("ok", o, bytes([COM["PING"]]))
        elif k == "debug":
            self.rec("ok", o, bytes([COM["DEBUG"]]))
        elif k == "reset_connection":
            self.rec("ok", o, bytes([COM["RESET_CONNECTION"]]))
        elif k == "init_db":
            self.rec("ok", o, bytes([COM["INIT_DB"]]) + (b"forbidden" if o["o"] == "err" else b"d"))
        elif k == "unsupported":
            code = rng.choice([0x00, 0x05, 0x06, 0x07, 0x08, 0x09, 0x0A, 0x0B, 0x0C, 0x0F, 0x10, 0x12, 0x13, 0x14, 0x15,
                               0x1B, 0x1D, 0x1E, 0x20, 0x7F, 0xFE, 0xFF])
            self.rec("ok", err, bytes([code]) + rng.choice([b"", b"\1", b"abc"]))
        elif k == "field_list":
            t = {0: b"f0", 2: b"f2", 1: b"f1"}[o["m"]]
            if rng.random() < 0.5:
                self.c.rt(bytes([COM["INIT_DB"]]) + b"d")
                self.rec("field_list", o, bytes([COM["FIELD_LIST"]]) + t + b"\0" + rng.choice([b"", b"%", b"c%"]))
            else:
                self.rec("field_list", o, bytes([COM["FIELD_LIST"]]) + t + b"\0")
        elif k == "change_user":
            self.rec("ok", ok, wire.change_user(rng.choice([b"u", b"w"]), b"", b"d", caps=self.caps,
                                                attrs=connect_attrs(rng) if self.caps & CAP["CONNECT_ATTRS"] else None))
        elif k == "change_user_denied":
            self.rec("ok", err, wire.change_user(b"ghost", b"", b"d", caps=self.caps), mayclose=True)
        elif k == "prepare":
            n = o["n"] if o["n"] < 2 else rng.choice([2, 3, 8, 9] + ([300] if self.big else []))
            self.nparams = n
            sql = stmt_sql + (b" WHERE a IN (" + b",".join([b"?"] * n) + b")" if n else b"") + rng.choice([b"", b" AND b = '?'"] if n else [b""])
            pk = self.rec("prepare", {"o": "ok", "n": n, "m": 0}, bytes([COM["STMT_PREPARE"]]) + sql)
            if pk and pk[0][1][:1] == b"\0":
                self.stmt = int.from_bytes(pk[0][1][1:5], "little")
        elif k in ("execute", "cursor"):
            self.cur_stmt = self.stmt
            self.rec(k, o, wire.com_stmt_execute(self.stmt or 0, self.caps, self.params(), attrs, int(k == "cursor")))
        elif k == "fetch":
            self.cur_stmt = self.stmt
            n = rng.choice([0, 1, 2, 3, 1 << 32 - 1]) if o["o"] == "any" else 1
            self.rec(k, o, bytes([COM["STMT_FETCH"]]) + (self.stmt or 0).to_bytes(4, "little") + (n & 0xFFFFFFFF).to_bytes(4, "little"))
        elif k in ("stmt_reset",):
            self.rec("ok", ok, bytes([COM["STMT_RESET"]]) + (self.stmt or 0).to_bytes(4, "little"))
        elif k == "stmt_close_own":
            self.rec("none", o, bytes([COM["STMT_CLOSE"]]) + (self.stmt or 0).to_bytes(4, "little"))
        elif k == "stmt_close":
            self.rec("none", o, bytes([COM["STMT_CLOSE"]]) + (77777).to_bytes(4, "little"))
        elif k == "send_long_data":
            sid = rng.choice([77777, self.stmt or 77777])
            if sid == self.stmt and self.nparams == 0:
                sid = 77777
            if sid == self.stmt:
                sid = 77777 if rng.random() < 0.5 else sid
            self.rec("none", o, bytes([COM["STMT_SEND_LONG_DATA"]]) + sid.to_bytes(4, "little") + b"\0\0" + b"chunk")
            if sid == self.stmt:  # the buffer must not be left behind for an int parameter
                self.c.rt(bytes([COM["STMT_RESET"]]) + sid.to_bytes(4, "little"))
        elif k in ("stmt_execute_unknown", "stmt_fetch_unknown", "stmt_reset_unknown"):
            code = {"stmt_execute_unknown": "STMT_EXECUTE", "stmt_fetch_unknown": "STMT_FETCH", "stmt_reset_unknown": "STMT_RESET"}[k]
            kind = {"stmt_execute_unknown": "execute", "stmt_fetch_unknown": "fetch", "stmt_reset_unknown": "ok"}[k]
            self.rec(kind, err, bytes([COM[code]]) + (77777).to_bytes(4, "little") + b"\0\1\0\0\0" + b"\0" * 4)
        elif k == "quit":
            self.rec("quit", o, bytes([COM["QUIT"]]))
        else:
            raise AssertionError(k)

    def case(self):
        return {"dep": self.dep, "cmds": self.cmds, "login": self.logged_in}
