"""Framing conversations: recorded once in lockstep, then replayed byte for byte under other segmentations (also inside TLS)."""
from __future__ import annotations

import hashlib
import random
import ssl

from . import wire
from .wire import CAP, COM, P, lenenc, lestr, pint, pstr
from .world import AppSession, Provider, RawSession, World, server_tls
from mysql_mimic.auth import AbstractClearPasswordAuthPlugin, NativePasswordAuthPlugin, User
from mysql_mimic.results import ResultColumn
from mysql_mimic.types import ColumnType

NATIVE = b"mysql_native_password"


class Clear(AbstractClearPasswordAuthPlugin):
    name = "my_clear"

    async def check(self, username, password):
        return username if password == "secret" else None


def provider():
    u = {n: User(name=n, auth_plugin="mysql_native_password") for n in ("u", "w", "v")}
    u["cl"] = User(name="cl", auth_plugin="my_clear")
    return Provider(u, [NativePasswordAuthPlugin(), Clear()])


async def on_query(sess, expr, sql, attrs):
    if "boom" in sql:
        raise ValueError("boom")
    if "INSERT" in sql:
        return None
    n = sql.count("n")

    async def rows():
        for i in range(n):
            yield ("v%d" % i * (i % 7 + 1), i)

    if "async" in sql:
        return rows(), ["a", "b"]
    return [("é" * i, i) for i in range(n)], [ResultColumn("a", ColumnType.VARCHAR), ResultColumn("b", ColumnType.LONGLONG)]


class TlsEnd:
    """Client end of the TLS conversation (ssl.MemoryBIO)."""

    def __init__(self, max12=False):
        ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        ctx.check_hostname = False
        ctx.verify_mode = ssl.CERT_NONE
        if max12:
            ctx.maximum_version = ssl.TLSVersion.TLSv1_2
        self.inc, self.outg = ssl.MemoryBIO(), ssl.MemoryBIO()
        self.obj = ctx.wrap_bio(self.inc, self.outg)
        self.done = False
        self.plain = b""
        self.failed = False

    def step(self, data=b""):
        """Feed bytes from the server; returns bytes to send."""
        if data:
            self.inc.write(data)
        try:
            if not self.done:
                self.obj.do_handshake()
                self.done = True
            while True:
                d = self.obj.read(1 << 16)
                if not d:
                    break
                self.plain += d
        except ssl.SSLWantReadError:
            pass
        except ssl.SSLError:
            self.failed = True
        return self.outg.read()

    def enc(self, data):
        self.obj.write(data)
        return self.outg.read()


def script(kind, rng):
    """List of client packets as (payload, seq); a str asks for a reply-dependent packet."""
    caps = wire.DEF_CAPS | CAP["QUERY_ATTRIBUTES"] | CAP["CONNECT_ATTRS"] | CAP["CONNECT_WITH_DB"]
    if kind % 3 == 1:
        caps &= ~(CAP["DEPRECATE_EOF"] | CAP["QUERY_ATTRIBUTES"])
    hs = lambda u, plugin=NATIVE, auth=b"": wire.handshake_response(u, auth, b"d", caps, attrs=[(b"k", b"v" * 9)], plugin=plugin)
    out = []
    if kind % 3 == 0:
        out.append((hs(b"u"), 1))
    elif kind % 3 == 1:
        out += [(hs(b"w", b"caching_sha2_password", b"xyz"), 1), (b"", 3)]  # auth switch, answered with an empty payload
    else:
        out += [(hs(b"cl"), 1), (b"secret\0", 3)]
    q = lambda s, attrs=None: wire.com_query(s, caps, attrs)
    cmds = [
        q(b"SELECT nnn FROM t"), q(b"SELECT async nnnn FROM t", [pstr(b"val", b"name")]), q(b"INSERT"), q(b"SELECT boom"),
        bytes([COM["PING"]]), bytes([COM["INIT_DB"]]) + b"db2", bytes([COM["STMT_PREPARE"]]) + b"SELECT n FROM t WHERE a = ? AND b = ?",
        "ldata", "exec", "cursor", "fetch", "close", bytes([COM["RESET_CONNECTION"]]), bytes([COM["FIELD_LIST"]]) + b"t\0",
        bytes([0x42]), q(b"x" * rng.choice([100, 300])), bytes([COM["DEBUG"]]),
    ]
    if kind % 3 == 0:
        cmds.append(wire.change_user(b"v", b"", b"d3", caps=caps))
    head, stmts, rest = [], cmds[6:12], cmds[:6] + cmds[12:]
    rng.shuffle(rest)
    k = rng.randrange(len(rest))
    cmds = rest[:k] + stmts + rest[k:]
    sid = (1).to_bytes(4, "little")
    dyn = {
        "ldata": lambda s: bytes([COM["STMT_SEND_LONG_DATA"]]) + s + b"\1\0" + b"long data",
        "exec": lambda s: wire.com_stmt_execute(int.from_bytes(s, "little"), caps, [pint(5), P(wire.T["VAR_STRING"], b"", longdata=True)]),
        "cursor": lambda s: wire.com_stmt_execute(int.from_bytes(s, "little"), caps, [pint(5), pint(6, "TINY")], cursor=1),
        "fetch": lambda s: bytes([COM["STMT_FETCH"]]) + s + (1).to_bytes(4, "little"),
        "close": lambda s: bytes([COM["STMT_CLOSE"]]) + s,
    }
    head = [(c if not isinstance(c, str) else (c, dyn[c])) for c in cmds]
    return caps, out, head


class Conv:
    """One world with one client; plain or TLS."""

    def __init__(self, tls=None):
        self.tls = None
        kw = {"ssl": server_tls()} if tls else {}
        self.w = World(RawSession, provider=provider(), on_query=on_query, server_kwargs=kw,
                       schema_fn=lambda s: {"d": {"t": {"a": "INT"}}, "db2": {"t": {"b": "TEXT"}}}, watchdog=5.0)
        self.c = self.w.connect()
        self.w.pump()
        self.raw = b""
        self.stream = b""
        self.hello = b""
        if tls:
            self.tls = TlsEnd(tls == "1.2")
            self.hello = self.tls.step()
        self.on = False

    def recv(self):
        b = self.c.conn.take()
        if self.tls and self.on:
            o = self.tls.step(b)
            self.stream += self.tls.plain
            self.tls.plain = b""
            return o
        self.stream += b
        return b""

    def observed(self, nonce_cut=True):
        pk, left = wire.split_packets(self.stream)
        nonces = []
        out = []
        for k, (s, p) in enumerate(pk):
            if k == 0 and p[:1] == b"\x0a":
                d = wire.parse_handshake_v10(p)
                p = p.replace(d["nonce1"], b"8" * 8).replace(d["nonce2"], b"n" * len(d["nonce2"]))
            elif p[:1] == b"\xfe" and b"\0" in p and p[1:2].isalpha():
                p = p[: p.index(b"\0") + 1] + b"*" * 20
            out.append([s, list(p)] if len(p) < 400 else [s, [len(p), hashlib.sha1(p).hexdigest()]])
        return {"packets": out, "left": len(left), "closed": bool(self.c.closed or (self.tls and self.tls.failed)),
                "log": [repr(e[:2] + e[2:3] + tuple(x for x in e[3:] if not hasattr(x, "sql"))) for e in self.w.log]}


def reference(kind, seed, tls=None):
    """Lockstep run: the packets the client sends, and what is observed."""
    rng = random.Random(seed)
    caps, login, cmds = script(kind, rng)
    cv = Conv(tls)
    try:
        sent = []

        def say(payload, seq):
            sent.append(wire.packet(payload, seq))
            data = sent[-1]
            if cv.tls:
                data = cv.tls.enc(data)
            cv.c.conn.send(data)
            cv.w.pump()
            o = cv.recv()
            assert not o

        pre = []
        if tls:
            cv.recv()
            req = wire.packet(wire.ssl_request(caps), 1)
            cv.c.conn.send(req)
            cv.w.pump()
            cv.recv()
            cv.on = True
            cv.c.conn.send(cv.hello)
            for _ in range(6):
                cv.w.pump()
                o = cv.recv()
                if o:
                    cv.c.conn.send(o)
            assert cv.tls.done
            sent.append(req)
        off = 1 if tls else 0
        for p, s in login:
            say(p, s + off)
        sid = b"\1\0\0\0"
        for c in cmds:
            if isinstance(c, tuple):
                say(c[1](sid), 0)
            else:
                n = len(cv.stream)
                say(c, 0)
                if c[:1] == bytes([COM["STMT_PREPARE"]]):
                    pk, _ = wire.split_packets(cv.stream[n:])
                    if pk and pk[0][1][:1] == b"\0":
                        sid = pk[0][1][1:5]
        return {"caps": caps, "sent": sent, "obs": cv.observed(), "ncmds": len(cmds)}
    finally:
        cv.w.close()


def replay(ref, segs, together=False, tls=None, tlscuts=None):
    """Plain: segs are the byte segments of the whole conversation.  together: no pause between the segments."""
    cv = Conv(tls)
    try:
        if not tls:
            cv.recv()
            for s in segs:
                cv.c.conn.send(s)
                if not together:
                    cv.w.pump()
            cv.w.pump()
            cv.recv()
            return cv.observed()
        # TLS: segs = {"head": cuts of request+hello, "flight": how to send the rest}
        cv.recv()
        head = ref["sent"][0] + cv.hello

        def deliver(data, cuts):
            pos = 0
            for c in sorted(x for x in set(cuts) if 0 < x < len(data)) + [len(data)]:
                cv.c.conn.send(data[pos:c])
                pos = c
                if not together:
                    cv.w.pump()
            cv.w.pump()

        cuts, mode, rng = segs["cuts"], segs["mode"], random.Random(segs["seed"])
        if mode == "separate":
            deliver(ref["sent"][0], cuts)
            cv.recv()
            cv.on = True
            deliver(cv.hello, [x - len(ref["sent"][0]) for x in cuts])
        else:
            deliver(head, cuts)
            # the greeting (and nothing else) came in the clear: it was taken before
            cv.on = True
        fin = b""
        for _ in range(6):
            fin += cv.recv()
            if cv.tls.done or cv.tls.failed or (not fin and not cv.c.conn.received):
                break
            cv.c.conn.send(fin)
            fin = b""
            cv.w.pump()
        rest = ref["sent"][1:]
        if cv.tls.done:
            if mode == "bytes":
                data = fin + b"".join(cv.tls.enc(p) for p in rest[:6])
                deliver(data, range(len(data)))
                rest = rest[6:]
                fin = b""
            if mode == "records":  # one record holds several packets, packets span records
                blob = b"".join(rest)
                data = fin
                pos = 0
                while pos < len(blob):
                    n = rng.choice([1, 2, 3, 4, 5, 30, 200, 1000])
                    data += cv.tls.enc(blob[pos: pos + n])
                    pos += n
                deliver(data, [rng.randrange(1, len(data)) for _ in range(rng.choice([0, 1, 5, 40]))])
            else:
                data = fin
                for p in rest:
                    data += cv.tls.enc(p)
                    if mode == "flight" or rng.random() < 0.6:
                        deliver(data, [rng.randrange(1, len(data)) for _ in range(rng.choice([0, 0, 1, 3]))])
                        data = b""
                if data:
                    deliver(data, [])
        cv.recv()
        return cv.observed()
    finally:
        cv.w.close()


# ------------------------------------------------------------------------------------------------
# payload sizes


def digest(b):
    return hashlib.sha1(b).hexdigest()


def regroup(pkts):
    """A standard client's reassembly -> payloads."""
    out, acc = [], []
    for s, p in pkts:
        acc.append(p)
        if len(p) < wire.MAXP:
            out.append(b"".join(acc))
            acc = []
    if acc:
        out.append(b"".join(acc))
    return out


def fill(n, seed):
    blk = hashlib.sha256(str(seed).encode()).digest() * 32
    return (blk * (n // len(blk) + 1))[:n]


def row_for(n, seed):
    """A text row (one or two BLOB cells) whose payload is exactly n bytes."""
    for k in (1, 3, 4, 9):
        m = n - k
        if m >= 0 and len(lenenc(m)) == k:
            return [fill(m, seed)]
    # two cells
    for m2 in range(0, 260):
        r = n - len(lenenc(m2)) - m2
        for k in (1, 3, 4, 9):
            if r - k >= 0 and len(lenenc(r - k)) == k:
                return [fill(r - k, seed), fill(m2, seed + 1)]
    return None


def serve_rows(sizes, seed, windows=None, asyn=False):
    """The server sends text rows whose payloads have the given sizes; a slow client takes them window by window."""
    rng = random.Random(seed)
    rows = [row_for(n, seed + i) for i, n in enumerate(sizes)]
    nc = max(len(r) for r in rows)
    small = [i for i, r in enumerate(rows) if len(r) != nc]
    if small:  # all rows need the same number of cells
        rows = []
        for i, n in enumerate(sizes):
            for m2 in range(0, 260):
                r = n - len(lenenc(m2)) - m2
                ks = [k for k in (1, 3, 4, 9) if r - k >= 0 and len(lenenc(r - k)) == k]
                if ks:
                    rows.append([fill(r - ks[0], seed + i), fill(m2, seed)])
                    break
            else:
                return None
        nc = 2

    async def q(sess, expr, sql, attrs):
        cols = [ResultColumn("c%d" % i, ColumnType.BLOB) for i in range(nc)]
        if asyn:
            async def g():
                for r in rows:
                    yield r
            return g(), cols
        return rows, cols

    with World(RawSession, on_query=q, watchdog=60.0) as w:
        c = w.login()
        if windows:
            c.conn.open_window(0)
        c.send_payload(wire.com_query(b"SELECT", c.caps))
        w.pump()
        if windows:
            total = sum(sizes) + 10000
            while total > 0 and not c.closed:
                n = rng.choice(windows)
                total -= n
                c.conn.open_window(n)
                w.pump()
            c.conn.open_window(None)
            w.pump()
        pk = c.recv()
        first = 1
        head = 1 + nc  # count, column definitions (CLIENT_DEPRECATE_EOF negotiated)
        body = pk[head:]
        got = regroup(body)
        term = got.pop() if got else b""
        want = [b"".join(lestr(x) for x in r) for r in rows]
        n = max(0, len(body) - 1)
        return {"kind": "pack", "packets": [[s, len(p)][::-1] for s, p in body[:n]], "first": first + head, "left": len(c.buf),
                "want": [[len(x), digest(x)] for x in want], "got": [digest(x) for x in got],
                "what": {"sizes": sizes, "windows": windows, "terminator": len(term)}}


def serve_err(n, seed):
    """Payloads of other kinds: a column definition of about n bytes (long column name)."""
    name = ("x%d" % seed) * (n // 2)

    async def q(sess, expr, sql, attrs):
        return [(1,)], [ResultColumn(name, ColumnType.LONGLONG)]

    with World(RawSession, on_query=q, watchdog=60.0) as w:
        c = w.login()
        pk = c.rt(wire.com_query(b"SELECT", c.caps))
        got = regroup(pk)
        want = None
        ok = len(got) == 4 and lestr(name.encode()) in got[1]
        return {"kind": "pack", "packets": [[len(p), s] for s, p in pk], "first": 1, "left": len(c.buf),
                "want": [[len(x), digest(x)] for x in got[:1]] + [[len(got[1]) if ok else -1, "name intact" if ok else "name lost"]]
                        + [[len(x), digest(x)] for x in got[2:]],
                "got": [digest(got[0]), "name intact"] + [digest(x) for x in got[2:]] if len(got) > 1 else [],
                "what": {"column name": n}}


def stream_direct(sizes, drains, seed):
    """MysqlStream.write for payloads of any size, zero included."""
    from mysql_mimic.stream import MysqlStream

    out = bytearray()

    class Writer:
        def write(self, b):
            out.extend(b)

        async def drain(self):
            pass

    with World(RawSession, watchdog=60.0) as w:
        s = MysqlStream(reader=None, writer=Writer())
        pays = [fill(n, seed + i) for i, n in enumerate(sizes)]

        async def go():
            for p, d in zip(pays, drains):
                await s.write(p, drain=d)
            await s.drain()

        w.loop.run_coro(go())
    pk, left = wire.split_packets(bytes(out))
    got = regroup(pk)
    return {"kind": "pack", "packets": [[len(p), q] for q, p in pk], "first": 0, "left": len(left),
            "want": [[len(x), digest(x)] for x in pays], "got": [digest(x) for x in got], "what": {"write": sizes, "drain": drains}}


def client_payload(n, how, seed):
    """The client sends a COM_QUERY (or long data) payload of n bytes; cuts are chosen near the packet boundaries."""
    rng = random.Random(seed)
    seen = []

    async def q(sess, expr, sql, attrs):
        seen.append(sql)
        return None

    with World(RawSession, on_query=q, watchdog=60.0) as w:
        c = w.login()
        text = bytes(97 + b % 26 for b in fill(min(n, 4099), seed))
        text = (text * (n // max(1, len(text)) + 1))[: n - 1]
        if how.startswith("long"):
            p = c.prepare("SELECT ?")
            sid = p.stmt_id.to_bytes(4, "little")
            text = text[: n - 7]
            body = bytes([COM["STMT_SEND_LONG_DATA"]]) + sid + b"\0\0" + text
        else:
            body = b"\3" + text
        assert len(body) == n
        data = wire.packet(body, 0)
        lens = [len(x[1]) for x in wire.split_packets(data)[0]]
        bounds = []
        pos = 0
        for ln in lens:
            bounds += [pos, pos + 4]
            pos += 4 + ln
        if how.endswith("cuts"):
            cuts = sorted({b + d for b in bounds for d in (-1, 1, 2, 3, rng.choice([-100, 100, 5000]))} | set(bounds))
        elif how.endswith("chunks"):
            size = rng.choice([1460, 4096, 65536, 262144 + 1])
            cuts = list(range(size, len(data), size))
        else:
            cuts = []
        cuts = [x for x in cuts if 0 < x < len(data)] + [len(data)]
        pos = 0
        for x in cuts:
            c.conn.send(data[pos:x])
            pos = x
            w.pump()
        w.pump()
        pk = c.recv()
        if how.startswith("long"):
            c.execute(p.stmt_id, [P(wire.T["VAR_STRING"], b"", longdata=True)])
            got = seen[-1][8:-1] if seen and len(seen[-1]) == len(text) + 9 else "".join(seen)
            answered = not pk and not c.closed
        else:
            got = seen[0] if seen else ""
            answered = len(pk) == 1 and pk[0][1][:1] == b"\0" and len(seen) == 1
        answered = answered and bool(c.ping())
        return {"kind": "unpack", "sent": lens, "len": n, "answered": answered, "got": digest(got.encode()), "want": digest(text),
                "what": {"client payload": n, "how": how}}
