"""A simulated deployment: real MysqlServer on a SimLoop, recording application sessions, scripted clients."""
from __future__ import annotations

import asyncio
import logging
import os
import ssl
import sys

REPO = os.environ.get("MIMIC_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

import mysql_mimic  # noqa: E402
from mysql_mimic import MysqlServer, Session  # noqa: E402
from mysql_mimic.control import LocalControl  # noqa: E402
from mysql_mimic.auth import IdentityProvider, NativePasswordAuthPlugin, User  # noqa: E402

from . import wire  # noqa: E402
from .simloop import SimLoop, SimConn, install_watchdog  # noqa: E402
from .wire import CAP, COM  # noqa: E402

assert os.path.realpath(mysql_mimic.__file__).startswith(os.path.realpath(REPO) + os.sep), mysql_mimic.__file__
logging.disable(logging.CRITICAL)

HERE = os.path.dirname(os.path.abspath(__file__))


class RecControl(LocalControl):
    """LocalControl whose public calls are recorded."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.log = []
        self.live = {}

    async def add(self, connection):
        try:
            cid = await super().add(connection)
        except BaseException as e:
            self.log.append(("add_failed", type(e).__name__))
            raise
        self.live[cid] = connection
        self.log.append(("add", cid))
        return cid

    async def remove(self, connection_id):
        self.log.append(("remove", connection_id))
        self.live.pop(connection_id, None)
        return await super().remove(connection_id)

    async def kill(self, connection_id, kind=mysql_mimic.constants.KillKind.CONNECTION):
        self.log.append(("kill", connection_id, kind.name))
        return await super().kill(connection_id, kind)


class AppSession(Session):
    """Application session that records every call and is scripted by world.on_query / on_*."""

    world: "World" = None

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.calls = []
        self.idx = len(self.world.sessions)
        self.world.sessions.append(self)

    def _rec(self, *ev):
        self.calls.append(ev)
        self.world.log.append((self.idx,) + ev)

    async def init(self, connection):
        self._rec("init")
        if self.world.on_init:
            await self.world.on_init(self)
        await super().init(connection)

    async def close(self):
        self._rec("close")
        if self.world.on_close:
            await self.world.on_close(self)
        await super().close()

    async def reset(self):
        self._rec("reset")
        if self.world.on_reset:
            await self.world.on_reset(self)
        await super().reset()

    async def use(self, database):
        self._rec("use", database)
        if self.world.on_use:
            await self.world.on_use(self, database)
        await super().use(database)

    async def query(self, expression, sql, attrs):
        self._rec("query", sql, dict(attrs), expression, self.database)
        if self.world.on_query:
            return await self.world.on_query(self, expression, sql, attrs)
        return [], []

    async def schema(self):
        self._rec("schema")
        if self.world.schema_fn:
            return self.world.schema_fn(self)
        return {}


class RawSession(AppSession):
    """Session that takes the text as is (no SQL parsing): handle_query goes straight to the script."""

    async def handle_query(self, sql, attrs):
        self._rec("query", sql, dict(attrs), None, self.database)
        if self.world.on_query:
            return await self.world.on_query(self, None, sql, attrs)
        return [], []


class Provider(IdentityProvider):
    def __init__(self, users=None, plugins=None, default=None):
        self.users = users or {}
        self._plugins = plugins or [NativePasswordAuthPlugin()]

    def get_plugins(self):
        return self._plugins

    async def get_user(self, username):
        u = self.users.get(username)
        return u() if callable(u) else u


def server_tls():
    ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
    ctx.load_cert_chain(os.path.join(HERE, "tls", "certificate.pem"), os.path.join(HERE, "tls", "key.pem"))
    return ctx


class World:
    sched = None

    def __init__(self, session_cls=RawSession, on_query=None, watchdog=3.0, control=None, provider=None,
                 server_kwargs=None, session_factory=None, **hooks):
        if watchdog:
            install_watchdog()
        self.loop = SimLoop(watchdog=watchdog)
        self.sessions = []
        self.log = []
        self.on_query = on_query
        self.on_init = hooks.pop("on_init", None)
        self.on_close = hooks.pop("on_close", None)
        self.on_reset = hooks.pop("on_reset", None)
        self.on_use = hooks.pop("on_use", None)
        self.schema_fn = hooks.pop("schema_fn", None)
        assert not hooks, hooks
        self.control = control if control is not None else RecControl(server_id=7)
        cls = type(session_cls.__name__, (session_cls,), {"world": self})
        self.session_cls = cls
        kw = dict(server_kwargs or {})
        if provider is not None:
            kw["identity_provider"] = provider
        self.server = MysqlServer(session_factory or cls, control=self.control, **kw)
        self.loop.run_coro(self.server.start_server(port=3306))
        self.listener = self.loop.sim_servers[0]
        self.clients = []

    def connect(self, caps=wire.DEF_CAPS, window=None) -> "Client":
        c = Client(self, caps, window)
        self.clients.append(c)
        return c

    def login(self, user=b"u", caps=wire.DEF_CAPS, **kw) -> "Client":
        c = self.connect(caps)
        self.loop.pump()
        c.login(user, **kw)
        return c

    def pump(self):
        return self.loop.pump()

    def close(self):
        self.loop.shutdown()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Client:
    def __init__(self, world, caps, window=None):
        self.world = world
        self.caps = caps
        self.conn = SimConn(world.loop, world.listener.factory, window)
        self.buf = b""
        self.greeting = None

    # transport-level
    def recv(self):
        """All complete packets available now."""
        self.buf += self.conn.take()
        pk, self.buf = wire.split_packets(self.buf)
        return pk

    @property
    def closed(self):
        return self.conn.server_closed

    def send_payload(self, payload: bytes, seq=0):
        self.conn.send(wire.packet(payload, seq))

    def rt(self, payload: bytes, seq=0):
        """Send one command, run to quiescence, return packets."""
        self.send_payload(payload, seq)
        self.world.pump()
        return self.recv()

    # session-level
    def greet(self):
        if self.greeting is None:
            self.world.pump()
            pk = self.recv()
            if pk and pk[0][1][:1] == b"\x0a":
                self.greeting = wire.parse_handshake_v10(pk[0][1])
                self.thread_id = self.greeting["thread_id"]
            self.first = pk
        return self.greeting

    def login(self, user=b"u", auth=b"", db=None, charset=wire.UTF8MB4, plugin=b"mysql_native_password", attrs=None):
        self.greet()
        if db is not None:
            self.caps |= CAP["CONNECT_WITH_DB"]
        if attrs is not None:
            self.caps |= CAP["CONNECT_ATTRS"]
        pk = self.rt(wire.handshake_response(user, auth, db, self.caps, charset, plugin, attrs), 1)
        self.caps &= self.greeting["caps"]
        assert pk and pk[-1][1][:1] == b"\0", pk
        self.session = self.world.sessions[-1]
        return pk

    def query(self, sql, attrs=None) -> wire.Resp:
        if isinstance(sql, str):
            sql = sql.encode()
        return wire.Resp(self.rt(wire.com_query(sql, self.caps, attrs)), self.caps)

    def prepare(self, sql) -> wire.Resp:
        if isinstance(sql, str):
            sql = sql.encode()
        return wire.Resp(self.rt(bytes([COM["STMT_PREPARE"]]) + sql), self.caps, "prepare")

    def execute(self, stmt_id, params=(), attrs=None, cursor=0):
        return wire.Resp(self.rt(wire.com_stmt_execute(stmt_id, self.caps, params, attrs, cursor)), self.caps)

    def fetch(self, stmt_id, n):
        return wire.Resp(
            self.rt(bytes([COM["STMT_FETCH"]]) + stmt_id.to_bytes(4, "little") + n.to_bytes(4, "little")),
            self.caps, "fetch")

    def ping(self):
        return self.rt(bytes([COM["PING"]]))
