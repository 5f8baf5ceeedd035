"""Client side of the MySQL protocol, written from the protocol documentation, independent of mysql_mimic."""
from __future__ import annotations

import hashlib
import struct

# capability flags
CAP = dict(
    LONG_PASSWORD=1 << 0, FOUND_ROWS=1 << 1, LONG_FLAG=1 << 2, CONNECT_WITH_DB=1 << 3, NO_SCHEMA=1 << 4,
    COMPRESS=1 << 5, ODBC=1 << 6, LOCAL_FILES=1 << 7, IGNORE_SPACE=1 << 8, PROTOCOL_41=1 << 9,
    INTERACTIVE=1 << 10, SSL=1 << 11, IGNORE_SIGPIPE=1 << 12, TRANSACTIONS=1 << 13, RESERVED=1 << 14,
    SECURE_CONNECTION=1 << 15, MULTI_STATEMENTS=1 << 16, MULTI_RESULTS=1 << 17, PS_MULTI_RESULTS=1 << 18,
    PLUGIN_AUTH=1 << 19, CONNECT_ATTRS=1 << 20, PLUGIN_AUTH_LENENC=1 << 21, HANDLE_EXPIRED=1 << 22,
    SESSION_TRACK=1 << 23, DEPRECATE_EOF=1 << 24, OPTIONAL_METADATA=1 << 25, ZSTD=1 << 26,
    QUERY_ATTRIBUTES=1 << 27,
)
BASE_CAPS = (
    CAP["LONG_PASSWORD"] | CAP["LONG_FLAG"] | CAP["PROTOCOL_41"] | CAP["TRANSACTIONS"]
    | CAP["SECURE_CONNECTION"] | CAP["PLUGIN_AUTH"] | CAP["MULTI_RESULTS"]
)
DEF_CAPS = BASE_CAPS | CAP["DEPRECATE_EOF"] | CAP["PLUGIN_AUTH_LENENC"]

COM = dict(
    SLEEP=0x00, QUIT=0x01, INIT_DB=0x02, QUERY=0x03, FIELD_LIST=0x04, CREATE_DB=0x05, DROP_DB=0x06, REFRESH=0x07,
    SHUTDOWN=0x08, STATISTICS=0x09, PROCESS_INFO=0x0A, CONNECT=0x0B, PROCESS_KILL=0x0C, DEBUG=0x0D, PING=0x0E,
    TIME=0x0F, DELAYED_INSERT=0x10, CHANGE_USER=0x11, BINLOG_DUMP=0x12, TABLE_DUMP=0x13, CONNECT_OUT=0x14,
    REGISTER_SLAVE=0x15, STMT_PREPARE=0x16, STMT_EXECUTE=0x17, STMT_SEND_LONG_DATA=0x18, STMT_CLOSE=0x19,
    STMT_RESET=0x1A, SET_OPTION=0x1B, STMT_FETCH=0x1C, DAEMON=0x1D, BINLOG_DUMP_GTID=0x1E, RESET_CONNECTION=0x1F,
)
UTF8MB4 = 45
T = dict(
    DECIMAL=0, TINY=1, SHORT=2, LONG=3, FLOAT=4, DOUBLE=5, NULL=6, TIMESTAMP=7, LONGLONG=8, INT24=9, DATE=10,
    TIME=11, DATETIME=12, YEAR=13, VARCHAR=15, BIT=16, BOOL=244, JSON=245, NEWDECIMAL=246, ENUM=247, SET=248,
    TINY_BLOB=249, MEDIUM_BLOB=250, LONG_BLOB=251, BLOB=252, VAR_STRING=253, STRING=254, GEOMETRY=255,
)
MAXP = 0xFFFFFF


def packet(payload: bytes, seq: int = 0) -> bytes:
    """Frame one payload (splitting at 16 MiB - 1)."""
    out = bytearray()
    while True:
        part, payload = payload[:MAXP], payload[MAXP:]
        out += struct.pack("<I", len(part))[:3] + bytes([seq & 255]) + part
        seq += 1
        if len(part) < MAXP:
            return bytes(out)


def lenenc(n: int) -> bytes:
    if n < 251:
        return bytes([n])
    if n < 1 << 16:
        return b"\xfc" + struct.pack("<H", n)
    if n < 1 << 24:
        return b"\xfd" + struct.pack("<I", n)[:3]
    return b"\xfe" + struct.pack("<Q", n)


def lestr(b: bytes) -> bytes:
    return lenenc(len(b)) + b


def native_scramble(password: bytes, nonce: bytes) -> bytes:
    """mysql_native_password proof, from the protocol documentation."""
    if not password:
        return b""
    h1 = hashlib.sha1(password).digest()
    h2 = hashlib.sha1(h1).digest()
    h3 = hashlib.sha1(nonce + h2).digest()
    return bytes(a ^ b for a, b in zip(h1, h3))


def native_auth_string(password: bytes) -> str:
    """What the server stores: SHA1(SHA1(password)) in hex."""
    return hashlib.sha1(hashlib.sha1(password).digest()).hexdigest() if password else ""


def ssl_request(caps, charset=UTF8MB4, max_packet=1 << 24):
    return struct.pack("<IIB", caps | CAP["SSL"], max_packet, charset & 255) + b"\0" * 23


def handshake_response(user: bytes, auth: bytes = b"", db: bytes | None = None, caps: int = DEF_CAPS,
                       charset: int = UTF8MB4, plugin: bytes | None = b"mysql_native_password",
                       attrs: list | None = None, max_packet=1 << 24, zstd=None) -> bytes:
    if db is not None:
        caps |= CAP["CONNECT_WITH_DB"]
    if attrs is not None:
        caps |= CAP["CONNECT_ATTRS"]
    out = struct.pack("<IIB", caps, max_packet, charset & 255) + b"\0" * 23 + user + b"\0"
    if caps & CAP["PLUGIN_AUTH_LENENC"]:
        out += lestr(auth)
    elif caps & CAP["SECURE_CONNECTION"]:
        out += bytes([len(auth)]) + auth
    else:
        out += auth + b"\0"
    if caps & CAP["CONNECT_WITH_DB"]:
        out += (db or b"") + b"\0"
    if caps & CAP["PLUGIN_AUTH"]:
        out += (plugin or b"") + b"\0"
    if caps & CAP["CONNECT_ATTRS"]:
        body = b"".join(lestr(k) + lestr(v) for k, v in attrs or [])
        out += lestr(body)
    if caps & CAP["ZSTD"]:
        out += bytes([zstd or 0])
    return out


def change_user(user: bytes, auth: bytes, db: bytes, charset: int | None = UTF8MB4, plugin: bytes | None = b"mysql_native_password",
                attrs=None, caps: int = DEF_CAPS) -> bytes:
    out = bytes([COM["CHANGE_USER"]]) + user + b"\0" + bytes([len(auth)]) + auth + db + b"\0"
    if charset is None:
        return out
    out += struct.pack("<H", charset)
    if caps & CAP["PLUGIN_AUTH"] and plugin is not None:
        out += plugin + b"\0"
        if caps & CAP["CONNECT_ATTRS"]:
            body = b"".join(lestr(k) + lestr(v) for k, v in attrs or [])
            out += lestr(body)
    return out


class P:
    """A typed binary parameter/attribute."""

    def __init__(self, ty, raw: bytes | None, unsigned=False, name: bytes = b"", longdata=False):
        self.ty, self.raw, self.unsigned, self.name, self.longdata = ty, raw, unsigned, name, longdata

    @property
    def null(self):
        return self.raw is None


def pstr(s: bytes, name=b"", ty="VAR_STRING"):
    return P(T[ty], lestr(s), False, name)


def pint(v: int, ty="LONGLONG", unsigned=False, name=b""):
    f = {"TINY": "b", "SHORT": "h", "YEAR": "h", "LONG": "i", "INT24": "i", "LONGLONG": "q"}[ty]
    return P(T[ty], struct.pack("<" + (f.upper() if unsigned else f), v), unsigned, name)


def pfloat(v: float, ty="DOUBLE", name=b""):
    return P(T[ty], struct.pack("<d" if ty == "DOUBLE" else "<f", v), False, name)


def pnull(name=b"", ty="NULL"):
    return P(T[ty], None, False, name)


def param_block(params: list[P], names: bool, bound: int = 1) -> bytes:
    out = bytearray((len(params) + 7) // 8)
    for i, p in enumerate(params):
        if p.null and not p.longdata:
            out[i // 8] |= 1 << (i % 8)
    out = bytes(out) + bytes([bound])
    if bound:
        for p in params:
            out += bytes([p.ty, 0x80 if p.unsigned else 0])
            if names:
                out += lestr(p.name)
    for p in params:
        if p.raw is not None and not p.longdata:
            out += p.raw
    return out


def com_query(sql: bytes, caps: int, attrs: list[P] | None = None) -> bytes:
    out = bytes([COM["QUERY"]])
    if caps & CAP["QUERY_ATTRIBUTES"]:
        attrs = attrs or []
        out += lenenc(len(attrs)) + lenenc(1)
        if attrs:
            out += param_block(attrs, True)
    return out + sql


def com_stmt_execute(stmt_id: int, caps: int, params: list[P] = (), attrs: list[P] | None = None, cursor: int = 0,
                     num_params: int | None = None, bound: int = 1) -> bytes:
    params = list(params)
    attrs = list(attrs or [])
    flags = cursor
    qa = bool(caps & CAP["QUERY_ATTRIBUTES"])
    out = bytes([COM["STMT_EXECUTE"]]) + struct.pack("<I", stmt_id)
    if qa and (attrs or params):
        flags |= 8
    out += bytes([flags]) + struct.pack("<I", 1)
    if qa and flags & 8:
        out += lenenc(len(params) + len(attrs))
        out += param_block(params + attrs, True, bound)
    elif params:
        out += param_block(params, False, bound)
    return out


# ------------------------------------------------------------------------------------------------
# incoming packets


def split_packets(buf: bytes):
    """-> ([(seq, payload)], leftover)."""
    out = []
    pos = 0
    n = len(buf)
    while n - pos >= 4:
        ln = buf[pos] | buf[pos + 1] << 8 | buf[pos + 2] << 16
        if n - pos - 4 < ln:
            break
        out.append((buf[pos + 3], bytes(buf[pos + 4: pos + 4 + ln])))
        pos += 4 + ln
    return out, bytes(buf[pos:])


class Rd:
    def __init__(self, b: bytes):
        self.b, self.p = b, 0

    def take(self, n):
        if self.p + n > len(self.b):
            raise ValueError("short")
        r = self.b[self.p: self.p + n]
        self.p += n
        return r

    def u(self, n):
        return int.from_bytes(self.take(n), "little")

    def nul(self):
        i = self.b.index(b"\0", self.p)
        r = self.b[self.p: i]
        self.p = i + 1
        return r

    def lenenc(self):
        f = self.u(1)
        if f < 251:
            return f
        if f == 0xFC:
            return self.u(2)
        if f == 0xFD:
            return self.u(3)
        if f == 0xFE:
            return self.u(8)
        return None  # 0xfb NULL

    def lestr(self):
        n = self.lenenc()
        return None if n is None else self.take(n)

    def rest(self):
        r = self.b[self.p:]
        self.p = len(self.b)
        return r

    @property
    def left(self):
        return len(self.b) - self.p


def parse_handshake_v10(b: bytes) -> dict:
    r = Rd(b)
    d = {"protocol": r.u(1), "version": r.nul(), "thread_id": r.u(4), "nonce1": r.take(8)}
    d["filler"] = r.u(1)
    lo = r.u(2)
    d["charset"] = r.u(1)
    d["status"] = r.u(2)
    d["caps"] = lo | r.u(2) << 16
    d["auth_len"] = r.u(1)
    r.take(10)
    d["nonce2"] = r.take(max(13, d["auth_len"] - 8))
    d["plugin"] = r.nul() if d["caps"] & CAP["PLUGIN_AUTH"] else None
    d["left"] = r.left
    d["nonce"] = d["nonce1"] + d["nonce2"].rstrip(b"\0")
    d["nonce_full"] = d["nonce1"] + d["nonce2"]
    return d


def parse_err(b: bytes, caps: int) -> dict:
    r = Rd(b)
    assert r.u(1) == 0xFF
    d = {"code": r.u(2), "state": None}
    if caps & CAP["PROTOCOL_41"] and r.b[r.p: r.p + 1] == b"#":
        r.u(1)
        d["state"] = r.take(5)
    d["msg"] = r.rest()
    return d


def parse_ok(b: bytes) -> dict:
    r = Rd(b)
    h = r.u(1)
    d = {"header": h, "affected": r.lenenc(), "last_id": r.lenenc(), "status": r.u(2), "warnings": r.u(2)}
    d["info"] = r.rest()
    return d


def is_err(p):
    return p[:1] == b"\xff"


def is_ok(p):
    return p[:1] == b"\x00" and len(p) >= 7


def is_eofp(p, caps):
    if p[:1] != b"\xfe":
        return False
    return len(p) < 9 or bool(caps & CAP["DEPRECATE_EOF"]) and len(p) < MAXP


def parse_coldef(b: bytes, field_list=False) -> dict:
    r = Rd(b)
    d = {k: r.lestr() for k in ("catalog", "schema", "table", "org_table", "name", "org_name")}
    d["fixlen"] = r.lenenc()
    d["charset"] = r.u(2)
    d["length"] = r.u(4)
    d["type"] = r.u(1)
    d["flags"] = r.u(2)
    d["decimals"] = r.u(1)
    r.take(2)
    if field_list:
        d["default"] = r.lestr()
    d["left"] = r.left
    return d


class Resp:
    """A loosely parsed response (for drivers; verdicts are made in TLA+)."""

    def __init__(self, pkts, caps, cmd=None):
        self.pkts = pkts
        self.caps = caps
        self.kind = "none"
        self.cols, self.rows, self.err, self.ok = [], [], None, None
        self.status = None
        self.extra = []
        if not pkts:
            return
        try:
            self._parse(pkts, caps, cmd)
        except (ValueError, IndexError, TypeError, AssertionError):
            self.kind = "bad"

    def _parse(self, pkts, caps, cmd):
        p = pkts[0][1]
        if cmd == "prepare" and p[:1] == b"\0":
            self.kind = "prepare"
            r = Rd(p)
            r.u(1)
            self.stmt_id, self.num_cols, self.num_params = r.u(4), r.u(2), r.u(2)
            return
        if is_err(p):
            self.kind, self.err = "err", parse_err(p, caps)
            return
        if is_ok(p) and cmd != "fetch":
            self.kind, self.ok = "ok", parse_ok(p)
            self.status = self.ok["status"]
            return
        if cmd == "fetch":
            self.kind = "rs"
            self._rows(pkts)
            return
        self.kind = "rs"
        n = Rd(p).lenenc()
        self.cols = [parse_coldef(q) for _, q in pkts[1: 1 + n]]
        rest = pkts[1 + n:]
        if not caps & CAP["DEPRECATE_EOF"]:
            if rest and is_eofp(rest[0][1], caps):
                self.status = Rd(rest[0][1][3:5]).u(2)
                rest = rest[1:]
            else:
                self.kind = "bad"
                return
        self._rows(rest)

    def _rows(self, rest):
        i = 0
        while i < len(rest):
            p = rest[i][1]
            if is_err(p):
                self.kind, self.err = "rserr", parse_err(p, self.caps)
                break
            if is_eofp(p, self.caps):
                if self.caps & CAP["DEPRECATE_EOF"]:
                    self.status = parse_ok(p)["status"]
                else:
                    self.status = Rd(p[3:5]).u(2)
                i += 1
                break
            self.rows.append(p)
            i += 1
        self.extra = rest[i:]

    def text_rows(self):
        out = []
        for p in self.rows:
            r = Rd(p)
            row = []
            while r.left:
                row.append(r.lestr())
            out.append(row)
        return out


def proj(pkts):
    """Packets as JSON for TLA+: [[seq, [bytes...]], ...]"""
    return [[s, list(p)] for s, p in pkts]
