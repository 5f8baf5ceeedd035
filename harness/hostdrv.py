"""Hostile packets (spec/HostileMC.tla) injected into real connections next to a witness."""
from __future__ import annotations

import multiprocessing
import random
import resource
import struct
import time

from . import wire
from .wire import CAP, COM, lenenc
from .world import AppSession, Provider, RawSession, World, server_tls
from mysql_mimic.auth import AbstractClearPasswordAuthPlugin, NativePasswordAuthPlugin, User

CAPS = (wire.DEF_CAPS | CAP["CONNECT_WITH_DB"] | CAP["CONNECT_ATTRS"]) & ~CAP["SSL"]
BIG = 1 << 20
COMMAND = ("idle", "prep", "cursor")
PW = b"secret"


class Clear(AbstractClearPasswordAuthPlugin):
    name = "my_clear"

    async def check(self, username, password):
        return username if password == PW.decode() else None


async def on_query(sess, expr, sql, attrs):
    return [(1, "x"), (2, None)], ["a", "b"]


def number(mut, width, rng, old):
    if mut == "max":
        return (1 << (8 * width)) - 1
    if mut == "flip":
        return old ^ (1 << rng.randrange(8 * width))
    return int(mut) % (1 << (8 * width))


def bad_len(mut, rng, old):
    """A length-encoded integer as the attacker writes it."""
    if mut == "max":
        return b"\xfe" + b"\xff" * 8
    if mut.startswith("raw"):
        return bytes([int(mut[3:])])
    if mut == "flip":
        return lenenc(old ^ (1 << rng.randrange(20)))
    n = int(mut)
    if rng.random() < 0.3:
        return b"\xfe" + struct.pack("<Q", n)
    return lenenc(n)


def junk(rng, n):
    return bytes(rng.randrange(256) for _ in range(n))


def nasty_sql(mut, rng, old):
    n = rng.choice([20, 300, 1500])
    return {
        "empty": b"", "badtext": b"SELECT '\xff\xfe\xc3' FROM t", "random": junk(rng, rng.choice([1, 8, 60])),
        "parens": b"SELECT " + b"(" * n + b"1" + b")" * n + b" FROM t", "open": b"SELECT " + b"(" * n,
        "brackets": b"SELECT " + b"[" * n + b"]" * (n // 2), "quotes": b"SELECT '" * n + b"\"`",
        "comment": b"SELECT 1 " + rng.choice([b"/*" * n, b"-- ", b"/*+ SET_VAR(" * n, b"#" * n]),
        "unions": b" UNION ALL ".join([b"SELECT a FROM t"] * min(n, 300)),
        "operators": b"SELECT a FROM t WHERE " + rng.choice([b"NOT ", b"- ", b"1 + ", b"1 OR ", b"a = ", b"~"]) * min(n, 400) + b"1",
        "marks": b"SELECT " + b"?," * rng.choice([n, 70000]) + b"?", "semicolons": b";" * rng.choice([n, 20000]),
        "wildcard": rng.choice([b"SHOW VARIABLES", b"SHOW TABLES FROM information_schema", b"SHOW DATABASES"])
        + b" LIKE '" + rng.choice([b"%_", b"%a", b"%e_", b"%\\_"]) * rng.choice([12, 16, 400]) + b"X'",
        "hugestring": b"SELECT a FROM t WHERE b = '" + b"x" * 60000 + b"'",
        "case": b"SELECT " + b"CASE WHEN 1 THEN " * min(n, 200) + b"1", "with": b"WITH x AS (" * min(n, 200) + b"SELECT 1",
        "exists": b"SELECT a FROM t WHERE " + b"EXISTS (SELECT 1 FROM t WHERE " * min(n, 60) + b"1=1" + b")" * min(n, 60),
        "flip": flip(old, rng),
    }[mut]


def flip(b, rng, n=1):
    b = bytearray(b)
    for _ in range(n):
        if b:
            k = rng.randrange(len(b) * 8)
            b[k // 8] ^= 1 << (k % 8)
    return bytes(b)


class Attack:
    """One hostile connection."""

    def __init__(self, host, pos, rng):
        self.h, self.w, self.pos, self.rng = host, host.w, pos, rng
        self.seq = 1
        self.stmt = 0
        self.nonce = b""
        self.c = self.w.connect(CAPS)
        self.reach()

    # -- getting there with valid packets
    def send(self, payload, seq=None):
        self.c.conn.send(wire.packet(payload, self.seq if seq is None else seq))
        self.w.pump()
        pk = self.c.recv()
        if pk:
            self.seq = (pk[-1][0] + 1) % 256
        return pk

    def hs(self, user, auth=b"", plugin=b"mysql_native_password"):
        return self.send(wire.handshake_response(user, auth, b"db", CAPS, wire.UTF8MB4, plugin, [(b"k", b"v")]), 1)

    def reach(self):
        p = self.pos
        g = self.c.greet()
        assert g, "no greeting"
        self.nonce = g["nonce_full"]
        if p in ("new", "newtls"):
            return
        if p == "tls":
            pk = self.send(wire.ssl_request(CAPS | CAP["SSL"]), 1)
            self.seq = 2
            assert not pk and not self.c.closed, pk
            return
        if p in ("switch", "clear"):
            pk = self.hs(b"n" if p == "switch" else b"c", b"", b"other_plugin")
            assert pk and pk[-1][1][:1] == b"\xfe", pk
            self.nonce = pk[-1][1].split(b"\0", 1)[1]
            return
        pk = self.hs(b"u")
        assert pk and pk[-1][1][:1] == b"\0", pk
        if p in ("cuswitch", "cuclear"):
            self.seq = 0
            pk = self.send(wire.change_user(b"n" if p == "cuswitch" else b"c", b"", b"db", plugin=b"other_plugin", attrs=[], caps=CAPS))
            assert pk and pk[-1][1][:1] == b"\xfe", pk
            self.nonce = pk[-1][1].split(b"\0", 1)[1]
            return
        self.seq = 0
        if p == "idle":
            return
        pk = self.send(bytes([COM["STMT_PREPARE"]]) + b"SELECT a FROM t WHERE a = ? AND b = ?", 0)
        assert pk and pk[0][1][0] == 0, pk
        self.stmt = struct.unpack("<I", pk[0][1][1:5])[0]
        if p == "prep":
            self.send(bytes([COM["STMT_SEND_LONG_DATA"]]) + struct.pack("<IH", self.stmt, 0) + b"some text", 0)
        else:
            pk = self.send(wire.com_stmt_execute(self.stmt, CAPS, [wire.pint(1), wire.pint(2)], cursor=1), 0)
            assert len(pk) == 4, pk

    # -- the packets of the specification, with one field changed
    def field(self, f, mut):
        t, v, rng = f["t"], f["v"], self.rng
        if t in ("u1", "u2", "u4", "u8"):
            w = int(t[1])
            n = {"caps": CAPS, "caps+ssl": CAPS | CAP["SSL"], "stmt": self.stmt}.get(v)
            n = int(v) if n is None else n
            return (number(mut, w, rng, n) if mut else n).to_bytes(w, "little")
        if t == "code":
            return bytes([int(v) if not mut else int(mut)])
        if t == "type":
            return bytes([int(v) if not mut else int(mut)])
        if t == "lenc":
            return bad_len(mut, rng, int(v)) if mut else lenenc(int(v))
        if t == "total":
            n = sum(len(wire.lestr(x)) for x in (b"_client", b"mimic", b"pid", b"1"))
            return bad_len(mut, rng, n) if mut else lenenc(n)
        if t == "pad":
            return {"": b"\0" * int(v), "ones": b"\xff" * int(v), "drop": b"", "flip": flip(b"\0" * int(v), rng, 3)}[mut]
        if t == "mask":
            return {"": bytes([int(v)]), "zero": b"\0", "ones": b"\xff", "drop": b""}[mut]
        if t in ("nul", "le1", "lestr", "rest", "bytes"):
            s = {"proof": wire.native_scramble(PW, self.nonce[:20]), "secret": PW, "secret0": PW + b"\0",
                 "tls": bytes.fromhex("16030100300100002c0303") + junk(rng, 40)}.get(v)
            s = v.encode() if s is None else s
            if mut == "wild":
                s = rng.choice([b"%_", b"%a", b"_%"]) * rng.choice([12, 18, 400]) + b"X"
                mut = ""
            elif mut == "badtext":
                s = rng.choice([b"\xff\xfe", b"\xc3", b"\xed\xa0\x80", b"\0\0"])
                mut = ""
            elif mut in ("huge", "hugenoterm"):
                s = bytes([rng.choice(b"ax\xc3")]) * (BIG if t == "nul" or self.h.raw else BIG // 6)
                mut = "noterm" if mut == "hugenoterm" else ""
            elif mut == "empty":
                s, mut = b"", ""
            elif mut == "random":
                s, mut = junk(rng, rng.choice([1, 20, 200])), ""
            elif mut == "inner":
                s, mut = b"a\0b" + s, ""
            elif mut == "flip" and s and rng.random() < 0.6:
                s, mut = flip(s, rng), ""
            if t in ("rest", "bytes"):
                return b"" if mut == "drop" else s
            if t == "nul":
                return s if mut == "noterm" else s + b"\0"
            if t == "le1" or not mut:
                return (bad_len(mut, rng, len(s)) if mut else lenenc(len(s))) + s
            return bad_len(mut, rng, len(s)) + s
        assert t == "sql", t
        return nasty_sql(mut, rng, v.encode()) if mut else v.encode()

    def build(self, layout, k, mut):
        return b"".join(self.field(f, mut if j + 1 == k else "") for j, f in enumerate(layout))

    def inject(self, layout, x, sub):
        """Send the packet; returns one step for the judge."""
        rng, mut, k = self.rng, x["mut"], x["field"]
        seq = self.seq if self.pos not in COMMAND else 0
        pre = self.pos
        whole = self.build(layout, 0, "")
        frames = None
        payload = whole
        if k:
            payload = self.build(layout, k, str(sub) if mut == "all" else mut)
        elif mut == "truncate":
            payload = whole[:sub]
        elif mut == "bits":
            payload = flip(whole, rng, rng.choice([1, 2, 5]))
        elif mut == "extend":
            payload = whole + junk(rng, rng.choice([1, 4, 100]))
        elif mut == "random":
            payload = junk(rng, rng.choice([1, 3, 33, 80, 400]))
        elif mut == "emptypayload":
            payload = b""
        elif mut == "seq":
            seq = rng.choice([n for n in range(256) if n != seq])
        if mut == "announce_more":
            frames = struct.pack("<I", len(whole) + rng.choice([1, 100, 60000]))[:3] + bytes([seq]) + whole
        elif mut == "announce_less":
            frames = struct.pack("<I", max(0, len(whole) - rng.choice([1, 3, 9])))[:3] + bytes([seq]) + whole
        elif mut == "header_only":
            frames = (struct.pack("<I", rng.choice([0xFFFFFF, 5]))[:3] + bytes([seq]))[: rng.choice([1, 2, 3, 4])]
        elif mut == "twice":
            frames = wire.packet(payload, seq) * 2
        if self.pos == "tls" and x["tpl"] == "garbage":
            frames = payload
        raw = frames if frames is not None else wire.packet(payload, seq)
        t0, m0 = time.process_time(), resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
        self.w.loop.hung = self.w.loop.livelock = False
        for j in range(0, len(raw), 1 << 18):
            self.c.conn.send(raw[j: j + (1 << 18)])
        self.w.pump()
        cpu = time.process_time() - t0
        mem = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss - m0
        pk = self.c.recv()
        if pk:
            self.seq = (pk[-1][0] + 1) % 256
        partial = mut in ("announce_more", "header_only") or bool(self.c.buf)
        cmd = payload[0] if payload and frames is None and mut != "seq" else -1
        big = sum(len(p) for _, p in pk) > 4000
        step = {
            "pos": pre, "tpl": x["tpl"], "mut": mut, "field": k, "sub": sub if isinstance(sub, int) else -1,
            "cmd": cmd, "flags": payload[5] if len(payload) > 5 else 0, "n": min(len(raw), 1 << 30), "cpu": int(cpu * 1000), "mem": int(mem // 1024),
            "hung": bool(self.w.loop.hung or self.w.loop.livelock), "partial": bool(partial), "seq": seq,
            "tlswait": pre in ("newtls", "tls") and (len(payload) == 32 or pre == "tls"),
            "free": mut in ("twice", "announce_less"),
            "big": big, "n_pk": len(pk), "first": [p[0] if p else -1 for _, p in pk[:3]], "last": pk[-1][1][0] if pk and pk[-1][1] else -1,
            "pk": [] if big else [[s, list(p)] for s, p in pk], "closed": bool(self.c.closed), "ping": [], "after": "",
        }
        hexes = raw[:200].hex()
        if step["hung"]:
            self.pos = "gone"
            return step, hexes
        # where are we now?
        if self.c.closed:
            self.pos = "gone"
        elif partial or step["tlswait"]:
            self.pos = "stuck"
        elif pk and pk[-1][1][:1] == b"\xfe" and (pre not in COMMAND or cmd == COM["CHANGE_USER"]) and step["last"] == 254:
            self.pos = "stuck"  # an authentication exchange goes on
        elif step["free"]:
            self.pos = "stuck"
        elif pre not in COMMAND and not (pk and pk[-1][1][:1] == b"\0"):
            self.pos = "stuck"
        else:
            self.pos = pre if pre in COMMAND else "idle"
            self.seq = 0
            self.w.loop.hung = self.w.loop.livelock = False
            p2 = self.send(b"\x0e", 0)
            step["ping"] = [[s, list(p)] for s, p in p2[:3]]
            step["hung"] = bool(self.w.loop.hung or self.w.loop.livelock)
            self.seq = 0
        step["after"] = self.pos
        return step, hexes

    def end(self):
        if not self.c.closed:
            if self.rng.random() < 0.5:
                self.c.conn.close()
            else:
                self.c.conn.reset()
            self.w.pump()


class Host:
    def __init__(self, tls, rng, raw=False):
        self.rng = rng
        self.tls, self.raw = tls, raw
        users = {"u": User("u"), "n": User("n", auth_string=wire.native_auth_string(PW), auth_plugin="mysql_native_password"),
                 "c": User("c", auth_plugin="my_clear")}
        self.w = World(RawSession if raw else AppSession, on_query=on_query, watchdog=9.0,
                       provider=Provider(users, [NativePasswordAuthPlugin(), Clear()]),
                       schema_fn=lambda s: {"db": {"t": {"a": "int", "b": "varchar(9)"}}},
                       server_kwargs={"ssl": server_tls()} if tls else {})
        self.witness = self.w.login(caps=CAPS)
        self.base = len(self.w.loop.live_tasks())

    def good(self):
        """The witness's PING, and a new connection that is served from login to quit."""
        p = [[s, list(b)] for s, b in self.witness.ping()]
        fresh = ""
        try:
            if self.w.listener.closed:
                return p, "the server does not listen any more"
            c = self.w.login(caps=CAPS)
            r = c.query("SELECT a, b FROM t")
            if len(r.rows or []) != 2:
                fresh = "query"
            c.send_payload(b"\x01")
            self.w.pump()
            if not c.closed:
                fresh = fresh or "quit"
        except (AssertionError, ValueError, IndexError, KeyError, TypeError, AttributeError) as e:
            fresh = type(e).__name__
        return p, fresh


def job(items):
    """items: a list of scenarios; each is a list of (layout, injection, sub) at the same position."""
    raw, tls, seed, scen = items
    rng = random.Random(seed)
    if multiprocessing.parent_process():
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    out = []
    host = None
    for inj in scen:
        if host is None:
            host = Host(tls, rng, raw)
        a = Attack(host, inj[0][1]["pos"], rng)
        steps, hexes = [], []
        for layout, x, sub in inj:
            if a.pos in ("gone", "stuck") or (a.pos not in (x["pos"],) and steps):
                break
            st, hx = a.inject(layout, x, sub)
            steps.append(st)
            hexes.append(hx)
        hung = any(s["hung"] for s in steps)
        case = {"pos": inj[0][1]["pos"], "tpl": inj[0][1]["tpl"], "mut": inj[0][1]["mut"], "steps": steps, "hex": hexes, "witness": [], "fresh": "", "left": 0, "tasks": 0, "registered": 0}
        if hung:
            host = None
        else:
            host.w.loop.hung = host.w.loop.livelock = False
            case["witness"], case["fresh"] = host.good()
            a.end()
            case["left"] = len(host.w.control.live) - 1
            case["tasks"] = len(host.w.loop.live_tasks()) - host.base
            if host.w.loop.hung or host.w.loop.livelock:
                steps[-1]["hung"] = True
                host = None
            elif case["left"] or case["tasks"]:
                host = None
        out.append(case)
    if host:
        host.w.close()
    return out


def subs(layout, x, rng, thorough):
    """Concrete variants of an injection: every offset of a truncation, every code, a few seeds."""
    if x["mut"] == "truncate":
        return None
    if x["mut"] == "all":
        return list(range(256)) if thorough or x["pos"] == "idle" and x["tpl"] in ("query", "queryattrs", "execute") else \
            sorted(rng.sample(range(256), 24))
    n = {"bits": 16, "random": 8, "seq": 3, "flip": 2, "wildcard": 3, "operators": 3, "comment": 3, "marks": 2, "huge": 2}.get(x["mut"], 1)
    return [-1] * (n if not thorough else n * 6)


def length(layout):
    a = object.__new__(Attack)
    a.stmt, a.nonce, a.rng = 0, b"x" * 20, random.Random(0)
    return len(a.build(layout, 0, ""))
