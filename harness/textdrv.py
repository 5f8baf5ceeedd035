"""Texts in every character set and every direction, through histories of switches; records bytes sent and strings received, and back."""
from __future__ import annotations

import functools
import random

from . import wire
from .wire import CAP, COM
from .world import World, AppSession, Provider
from mysql_mimic.auth import User, NativePasswordAuthPlugin
from mysql_mimic.charset import CharacterSet
from mysql_mimic.errors import MysqlError
from mysql_mimic.results import ResultColumn, ResultSet
from mysql_mimic.types import ColumnType

# MySQL's character sets, by the codecs that implement their definitions
CODEC = {"big5": "big5", "cp850": "cp850", "hp8": "hp-roman8", "koi8r": "koi8-r", "latin1": "iso-8859-1", "latin2": "iso-8859-2", "ascii": "us-ascii", "ujis": "euc-jp", "sjis": "shift-jis",
         "hebrew": "iso-8859-8", "tis620": "tis-620", "euckr": "euc-kr", "koi8u": "koi8-u", "gb2312": "gb2312", "greek": "iso-8859-7", "cp1250": "windows-1250", "gbk": "gbk", "latin5": "iso-8859-9",
         "utf8": "utf-8", "ucs2": "utf-16-be", "cp866": "cp866", "macce": "mac-latin2", "macroman": "macintosh", "cp852": "cp852", "latin7": "iso-8859-13", "cp1251": "windows-1251", "utf16": "utf-16-be",
         "utf16le": "utf-16-le", "cp1256": "windows-1256", "cp1257": "windows-1257", "utf32": "utf-32-be", "cp932": "cp932", "gb18030": "gb18030", "utf8mb4": "utf-8"}
WIDE = {"ucs2", "utf16", "utf16le", "utf32"}
# collation ids as MySQL assigns them
COLL = {1: "big5", 2: "latin2", 4: "cp850", 5: "latin1", 6: "hp8", 7: "koi8r", 8: "latin1", 9: "latin2", 11: "ascii", 12: "ujis", 13: "sjis", 14: "cp1251", 15: "latin1", 16: "hebrew", 18: "tis620",
        19: "euckr", 20: "latin7", 21: "latin2", 22: "koi8u", 23: "cp1251", 24: "gb2312", 25: "greek", 26: "cp1250", 27: "latin2", 28: "gbk", 29: "cp1257", 30: "latin5", 31: "latin1", 33: "utf8",
        34: "cp1250", 35: "ucs2", 36: "cp866", 38: "macce", 39: "macroman", 40: "cp852", 41: "latin7", 42: "latin7", 43: "macce", 44: "cp1250", 45: "utf8mb4", 46: "utf8mb4", 47: "latin1", 48: "latin1",
        49: "latin1", 50: "cp1251", 51: "cp1251", 52: "cp1251", 53: "macroman", 54: "utf16", 55: "utf16", 56: "utf16le", 57: "cp1256", 58: "cp1257", 59: "cp1257", 60: "utf32", 61: "utf32", 62: "utf16le",
        65: "ascii", 66: "cp1250", 67: "cp1256", 68: "cp866", 70: "greek", 71: "hebrew", 72: "hp8", 74: "koi8r", 75: "koi8u", 77: "latin2", 78: "latin5", 79: "latin7", 80: "cp850", 81: "cp852",
        83: "utf8", 84: "big5", 85: "euckr", 86: "gb2312", 87: "gbk", 88: "sjis", 89: "tis620", 90: "ucs2", 91: "ujis", 94: "latin1", 95: "cp932", 96: "cp932", 99: "cp1250", 248: "gb18030", 249: "gb18030",
        255: "utf8mb4", 192: "utf8", 193: "utf8", 223: "utf8", 224: "utf8mb4", 225: "utf8mb4", 246: "utf8mb4", 247: "utf8mb4", 101: "utf16", 124: "utf16", 128: "ucs2", 151: "ucs2", 160: "utf32",
        183: "utf32", 215: "utf8", 250: "gb18030"}
for lo, hi, cs in [(101, 124, "utf16"), (128, 151, "ucs2"), (160, 183, "utf32"), (192, 215, "utf8"), (224, 247, "utf8mb4")]:
    for i in range(lo, hi + 1):
        COLL[i] = cs
COLL[159] = "ucs2"


def known():
    """collation ids the library has"""
    from mysql_mimic.charset import Collation
    return sorted(i for i in COLL if i in {int(x) for x in Collation})


@functools.lru_cache(None)
def repertoire(cs):
    codec = CODEC[cs]
    out = []
    for cp in list(range(0x20, 0x7F)) + list(range(0xA0, 0xD800)) + list(range(0xE000, 0xFFFE)) + (list(range(0x1F300, 0x1F700)) + [0x10000, 0x10FFFF, 0x20000, 0x2F800] if cs in ("utf8mb4", "utf16", "utf16le", "utf32", "gb18030") else []):
        ch = chr(cp)
        try:
            b = ch.encode(codec)
            if b.decode(codec) != ch:
                continue
        except UnicodeError:
            continue
        if cs == "hebrew" and cp in (0x200E, 0x200F):
            continue
        out.append(ch)
    return out


def enc(s, cs):
    try:
        if cs in ("utf8", "ucs2") and any(ord(c) > 0xFFFF for c in s):
            return None
        b = s.encode(CODEC[cs])
        return b if b.decode(CODEC[cs]) == s else None
    except UnicodeError:
        return None


def dec(b, cs):
    try:
        s = b.decode(CODEC[cs])
        return s if enc(s, cs) == b else None
    except UnicodeError:
        return None


def cps(s):
    return [ord(c) for c in s]


def run(plan, seed):
    rng = random.Random(seed)
    ids = known()
    colls_of = {}
    for i in ids:
        colls_of.setdefault(COLL[i], []).append(i)
    names = sorted(CODEC)
    a, b = rng.sample(names, 2)
    if rng.random() < 0.2:
        b = "utf8mb4"
        a = rng.choice([n for n in names if n != b])
    sets = {"A": a, "B": b}
    if plan == "id":  # one collation id after the other
        i = ids[seed % len(ids)]
        sets = {"A": COLL[i], "B": "utf8mb4"}
        plan = [["hs", "A", False], ["query", "A", False], ["initdb", "A", False], ["chg", "B", False], ["query", "A", False], ["chg", "A", False], ["query", "A", False], ["exec", "A", False]]
        plan = [p for p in plan if p[0] != "exec"]
        colls_of = {**colls_of, COLL[i]: [i]}
    elif plan == "set":  # one character set in every direction
        cs = names[seed % len(names)]
        sets = {"A": cs, "B": cs}
        plan = [["hs", "A", False], ["query", "A", False], ["names", "A", False]] + [[k, "A", False] for k in ("query", "result", "error", "initdb", "fieldlist", "prep", "exec", "result", "exec", "result")]
    play = sorted(set(sets.values()) | {"utf8mb4"})
    case = {"steps": [], "colls": [[i, COLL[i]] for i in ids if COLL[i] in play], "what": {"plan": plan, "sets": sets, "seed": seed}}
    got = {"sql": [], "attrs": [], "use": [], "user": []}
    reply = [None]

    class TextSession(AppSession):
        async def handle_query(self, sql, attrs):
            if sql[:4].upper() == "SET ":
                return await super().handle_query(sql, attrs)
            if sql[:15] == "SELECT /*echo*/":
                return await super().handle_query(sql, attrs)
            got["sql"].append(sql)
            got["attrs"].append(dict(attrs))
            r = reply[0]
            if isinstance(r, Exception):
                raise r
            return r

        async def use(self, database):
            got["use"].append(database)
            await super().use(database)

    class Prov(Provider):
        async def get_user(self, username):
            got["user"].append(username)
            return User(name=username, auth_plugin=NativePasswordAuthPlugin.name, auth_string="")

    plugin = rng.random() < 0.5 and not any(sets[p[1]] in WIDE for p in plan if p[0] in ("hs", "names", "charset", "setc", "chg"))
    caps = wire.DEF_CAPS | CAP["QUERY_ATTRIBUTES"] | CAP["CONNECT_WITH_DB"]
    if not plugin:
        caps &= ~CAP["PLUGIN_AUTH"]
    cc, cr = sets[plan[0][1]], "utf8mb4"

    def word(cs, n=None, nonul=False, ban="", also=None):
        """a text representable in cs (and alike in also)"""
        rep = repertoire(cs)
        n = n if n is not None else rng.choice([1, 1, 2, 3, 5, 8, 12])
        for _ in range(60):
            s = "".join(rng.choice(rep) if rng.random() < 0.85 else rng.choice("aZ 09-_;%") for _ in range(n))
            if rng.random() < 0.1 and cs in ("utf8", "utf8mb4", "utf16", "utf16le", "utf32", "ucs2"):
                s = "\ufeff" + s
            e = enc(s, cs)
            if e is None or any(c in s for c in ban) or (nonul and b"\0" in e):
                continue
            if also and enc(s, also) != e:
                continue
            return s
        return None

    def tab_in(raw):
        return [[cs, cps(d)] for cs in play for d in [dec(raw, cs)] if d is not None]

    def tab_out(s):
        return [[cs, list(e)] for cs in CODEC for e in [enc(s, cs)] if e is not None]

    def tin(what, raw, received):
        return {"gov": "client", "what": what, "tab": tab_in(raw), "got": cps(received) if isinstance(received, str) else [-1], "cs": "", "declared": ""}

    def tout(what, s, raw, gov="results", cs="", declared=""):
        return {"gov": gov, "what": what, "tab": tab_out(s), "got": list(raw), "cs": cs, "declared": declared}

    with World(TextSession, provider=Prov()) as w:
        c = w.connect(caps)
        c.greet()

        def step(op, out, texts=(), cs="", coll=0):
            s = {"op": op, "out": out, "texts": list(texts), "cs": cs, "coll": coll}
            case["steps"].append(s)
            return s

        pend = []  # commands sent and not answered yet: (kind, callback)

        def flush():
            if not pend:
                return
            w.pump()
            pk = c.recv()
            # packets of one answer have sequence ids counting up from 1
            groups = []
            for p in pk:
                if p[0] == 1 or not groups:
                    groups.append([])
                groups[-1].append(p)
            for k, (kind, cb) in enumerate(pend):
                g = groups[k] if k < len(groups) else []
                r = wire.Resp(g, c.caps, kind)
                cb(r, {"ok": "ok", "rs": "rs", "err": "err", "prepare": "prepare", "fields": "fields", "none": "none"}.get(r.kind, r.kind))
            pend.clear()

        def send(payload, cb, kind=None):
            c.send_payload(payload)
            pend.append((kind, cb))

        # login
        coll = rng.choice([i for i in colls_of[cc] if i < 256])
        user = word(cc, nonul=True, ban="\0")
        db = word(cc, nonul=True)
        if user is None:
            user = db = ""
        eu, ed = enc(user, cc), enc(db, cc)
        def auth(payload, seq):
            """whether the exchange ends with an OK (the server may ask for another method: nothing to prove)"""
            pk = c.rt(payload, seq)
            if pk and pk[-1][1][:1] == b"\xfe":
                pk = c.rt(b"", pk[-1][0] + 1)
            return bool(pk) and pk[-1][1][:1] == b"\0"

        ok = auth(wire.handshake_response(eu, b"", ed, caps, coll, b"mysql_native_password" if plugin else None), 1)
        step("hs", "ok" if ok else "err", [tin("the user name", eu, got["user"][-1] if got["user"] else None),
                                           tin("the database of the login", ed, (w.sessions[-1].database or "") if ok else None)], cs=cc, coll=coll)
        if not ok:
            return case
        c.caps = caps & c.greeting["caps"]
        stmt = [None]

        for op, x, pipe in plan[1:]:
            x = sets[x]
            if not (pipe and pend):
                flush()
            if op == "chg" and cc in WIDE:
                flush()  # texts with terminators don't exist in the wide sets
                if plugin:
                    continue
            if op in ("names", "charset", "setc", "setr", "bad"):
                val = rng.choice(["'%s'", "%s", "'%s'"]) % rng.choice([x, x, x.upper()])
                if val[0] != "'" and op in ("setc", "setr"):
                    val = "'%s'" % val
                if op == "bad":
                    n = rng.choice(["nosuch", "utf-9", "klingon8"])
                    sql = rng.choice(["SET NAMES '%s'", "SET CHARACTER SET '%s'", "SET character_set_client = '%s'", "SET character_set_results = '%s'"]) % n
                elif op == "names":
                    sql = rng.choice(["SET NAMES %s", "set names %s"]) % val
                    y = rng.random()
                    if y < 0.2 and x == "utf8mb4":
                        sql = "SET NAMES DEFAULT"
                    elif y < 0.3:
                        from mysql_mimic.charset import Collation
                        sql += " COLLATE '%s'" % Collation(rng.choice(colls_of[x])).name
                elif op == "charset":
                    sql = rng.choice(["SET CHARACTER SET %s", "SET CHARSET %s"]) % val
                    if x == "utf8mb4" and rng.random() < 0.2:
                        sql = "SET CHARACTER SET DEFAULT"
                else:
                    v = "character_set_client" if op == "setc" else "character_set_results"
                    if x == "utf8mb4" and rng.random() < 0.2:
                        val = "DEFAULT"
                    sql = rng.choice(["SET %s = %s", "SET SESSION %s = %s", "SET @@%s = %s", "SET @@SESSION.%s = %s"]) % (v, val)
                send(wire.com_query(enc(sql, cc), c.caps), lambda r, o, op=op, x=x: step(op, o, cs=x))
                if op in ("names", "charset", "setc"):
                    cc = x
                if op in ("names", "charset", "setr"):
                    cr = x
            elif op == "chg":
                flush()
                coll = rng.choice(colls_of[x])
                if rng.random() < 0.15:
                    coll = 0
                new = cc if coll == 0 else x
                user, db = word(cc, nonul=True, also=new), word(cc, nonul=True, also=new)
                if user is None or db is None:
                    user = db = ""
                got["user"].clear()
                eu, ed = enc(user, cc), enc(db, cc)
                payload = wire.change_user(eu, b"", ed, coll or None, b"mysql_native_password" if plugin else None, caps=c.caps)

                if coll == 0 and plugin:  # the character set can be left out only with all that follows
                    continue
                ok = auth(payload, 0)
                step("chg", "ok" if ok else "err", [tin("the user name of COM_CHANGE_USER", eu, got["user"][-1] if got["user"] else None),
                                                    tin("the database of COM_CHANGE_USER", ed, w.sessions[-1].database or "")], coll=coll)
                if not ok:
                    return case
                cc = new
                cr = None
            elif op == "query":
                s = word(cc)
                attrs = [(word(cc, ban="\0"), word(cc)) for _ in range(rng.choice([0, 0, 1, 2]))]
                attrs = list(dict((n, v) for n, v in attrs if n).items())
                ps = [wire.pstr(enc(v, cc), enc(n, cc)) for n, v in attrs]
                text = rng.choice(["SELECT ", "x", "/*", ""]) + s
                if text[:4].upper() == "SET ":
                    text = "x" + text
                raw = enc(text, cc)
                if raw is None:
                    continue
                reply[0] = None
                i = len(got["sql"]) + sum(1 for kind, _ in pend if kind == "query")

                def cb(r, o, raw=raw, ps=ps, i=i):
                    ts = [tin("SQL text", raw, got["sql"][i] if len(got["sql"]) > i else None)]
                    at = list(got["attrs"][i].items()) if len(got["sql"]) > i else []
                    for k, p in enumerate(ps):
                        nm, v = at[k] if k < len(at) else (None, None)
                        ts += [tin("a query attribute's name", p.name, nm), tin("a query attribute's value", p.raw[1:], v)]
                    step("msg", o, ts)

                send(wire.com_query(raw, c.caps, ps), cb, "query")
            elif op == "initdb":
                s = word(cc)
                raw = enc(s, cc)
                j = len(got["use"]) if not pend else None
                if j is None:
                    flush()
                    j = len(got["use"])
                send(bytes([COM["INIT_DB"]]) + raw, lambda r, o, raw=raw, j=j: step("msg", o, [tin("the database of COM_INIT_DB", raw, got["use"][j] if len(got["use"]) > j else None)]))
            elif op == "fieldlist":
                flush()
                s = word(cc, nonul=True, ban="`'\\\"")
                if s is None or cr is None:
                    continue
                raw = enc(s, cc)
                if enc(s, cr) is None:
                    continue
                col, dflt = word(cr), word(cr)
                wild = word(cc, ban="'\\\"`") if rng.random() < 0.5 else None
                reply[0] = ([(col, "TEXT", "YES", None, dflt, "")], ["Field", "Type", "Null", "Key", "Default", "Extra"])
                n = len(got["sql"])

                def cb(r, o, raw=raw, s=s, col=col, dflt=dflt, n=n, wild=wild):
                    sql = got["sql"][n] if len(got["sql"]) > n else ""
                    i, j = sql.find("`"), sql.rfind("`")
                    ts = [tin("the table of COM_FIELD_LIST", raw, sql[i + 1:j] if 0 <= i < j else None)]
                    if wild:
                        i, j = sql.find("'"), sql.rfind("'")
                        ts.append(tin("the pattern of COM_FIELD_LIST", enc(wild, cc_then), sql[i + 1:j] if 0 <= i < j else None))
                    try:
                        d = wire.parse_coldef(r.pkts[0][1], True)
                        ts += [tout("the table in a column definition", s, d["table"]), tout("the column name in a column definition", col, d["name"]), tout("the default in a column definition", dflt, d["default"])]
                        o = "fields"
                    except Exception:  # noqa: BLE001
                        o = "none" if r.kind != "err" else "none"
                    step("msg", o, ts)

                cc_then = cc
                send(bytes([COM["FIELD_LIST"]]) + raw + b"\0" + (enc(wild, cc) if wild else b""), cb, "fieldlist")
                flush()
            elif op in ("result", "error"):
                flush()
                if cr is None:  # COM_CHANGE_USER leaves it open: ask for something representable in all
                    common = [ch for ch in "abcXYZ019_"]
                    nm = lambda: "".join(rng.choice(common) for _ in range(4))  # noqa: E731
                else:
                    nm = lambda: word(cr, ban="\0")  # noqa: E731
                if op == "error":
                    m = nm() * rng.choice([1, 1, 1, 1, 60, 300])
                    reply[0] = MysqlError(m)

                    def cb(r, o, m=m):
                        step("msg", "err" if o == "err" else "none", [tout("an error message", m, r.err["msg"])] if o == "err" else [])

                    send(wire.com_query(enc("x", cc), c.caps), cb)
                    flush()
                    continue
                ncol = rng.choice([1, 2, 3])
                cols, cells = [], [[] for _ in range(rng.choice([1, 2]))]
                for _ in range(ncol):
                    declared = rng.choice([None, a, b, rng.choice(names)])
                    name = nm()
                    cols.append((name, declared))
                    for row in cells:
                        row.append(word(declared or "utf8mb4"))
                rc = [ResultColumn(n, rng.choice([ColumnType.VARCHAR, ColumnType.STRING, ColumnType.VAR_STRING, ColumnType.BLOB, ColumnType.TINY_BLOB, ColumnType.MEDIUM_BLOB, ColumnType.LONG_BLOB, ColumnType.ENUM, ColumnType.SET]), character_set=CharacterSet[d]) if d else (n if rng.random() < 0.6 else ResultColumn(n, ColumnType.VAR_STRING)) for n, d in cols]
                if len({n for n, _ in cols}) < ncol:
                    continue
                rows = [tuple(r) for r in cells]
                reply[0] = rng.choice([(rows, rc), ResultSet(rows=rows, columns=rc)]) if all(isinstance(z, ResultColumn) for z in rc) else (rows, rc)
                binary = rng.random() < 0.4
                cursor = binary and rng.random() < 0.4
                if binary:
                    p = c.prepare(enc("SELECT 1", cc))
                    if p.kind != "prepare":
                        step("msg", "none")
                        continue
                    payload = bytes([COM["STMT_EXECUTE"]]) + p.stmt_id.to_bytes(4, "little") + bytes([cursor]) + b"\1\0\0\0"
                else:
                    payload = wire.com_query(enc("SELECT 1", cc), c.caps)

                def cb(r, o, cols=cols, cells=cells, binary=binary):
                    ts = []
                    if o == "rs" and len(r.cols) == len(cols):
                        for (n, d), cd in zip(cols, r.cols):
                            ts.append(tout("a column name", n, cd["name"]))
                        got_rows = r.rows
                        if cursor:
                            got_rows = c.fetch(p.stmt_id, 10).rows
                            o = "rs" if len(got_rows) == len(cells) else "none"
                        for want, raw in zip(cells, got_rows):
                            rd = wire.Rd(raw)
                            if binary:
                                rd.take(1 + (len(cols) + 9) // 8)
                            for s, cd, (n, d) in zip(want, r.cols, cols):
                                ts.append(tout("a result cell", s, rd.lestr(), "column", COLL.get(cd["charset"], ""), d or ""))
                    step("msg", "rs" if o == "rs" and len(r.cols) == len(cols) and (cursor or len(r.rows) == len(cells)) else "none", ts)

                send(payload, cb)
                flush()
                if rng.random() < 0.3:  # a text through the library's own evaluation
                    s = word(cc, ban="'\\\"\0") or "a"
                    if enc(s, "utf8mb4") is not None:
                        def cb2(r, o, s=s):
                            ts = []
                            if o == "rs" and r.rows:
                                ts.append(tout("a text selected from the library", s, wire.Rd(r.rows[0]).lestr(), "column", COLL.get(r.cols[0]["charset"], "")))
                            step("msg", "rs" if ts else "none", ts)

                        send(wire.com_query(enc("SELECT /*echo*/ '%s' AS a" % s, cc), c.caps), cb2)
                        flush()
            elif op == "prep":
                flush()
                s = word(cc, ban="?'\"`\\#/*-\0")
                if s is None:
                    continue
                text = "SELECT " + s + " ?"
                raw = enc(text, cc)
                r = c.prepare(raw)
                st = step("msg", "ok" if r.kind == "prepare" and r.num_params == 1 else "none")
                if r.kind != "prepare":
                    return case
                stmt[0] = (r.stmt_id, s, raw[len(enc("SELECT ", cc)):len(raw) - len(enc(" ?", cc))], st)
            elif op == "exec":
                flush()
                if stmt[0] is None:
                    continue
                sid, s, rawtext, st = stmt[0]
                v = word(cc, ban="'\\\"\0?")
                if v is None:
                    continue
                longdata = rng.random() < 0.3
                reply[0] = None
                n = len(got["sql"])
                attr = (word(cc, ban="\0"), word(cc))
                at = [wire.pstr(enc(attr[1], cc), enc(attr[0], cc))] if rng.random() < 0.5 else []
                p = wire.pstr(enc(v, cc))
                if longdata:
                    raw = enc(v, cc)
                    k = rng.randrange(len(raw) + 1)
                    for part in (raw[:k], raw[k:]):
                        c.send_payload(bytes([COM["STMT_SEND_LONG_DATA"]]) + sid.to_bytes(4, "little") + b"\0\0" + part)
                    p = wire.P(wire.T["VAR_STRING"], b"", longdata=True)
                body = bytes([COM["STMT_EXECUTE"]]) + sid.to_bytes(4, "little") + b"\0\1\0\0\0" + wire.lenenc(1 + len(at)) + wire.param_block([p] + at, True)

                def cb(r, o, raw=enc(v, cc), at=at, n=n, st=st, rawtext=rawtext):
                    sql = got["sql"][n] if len(got["sql"]) > n else None
                    ts = []
                    head = val = None
                    if sql is not None and sql.startswith("SELECT ") and sql.endswith("'") and sql.count("'") == 2:
                        head, val = sql[7:].split(" '")[0], sql.split("'")[1]
                        k = sql.index("'")
                        head = sql[7:k - 1]
                    ts.append(tin("a prepared statement's string parameter", raw, val))
                    if not st["texts"]:
                        st["texts"].append(tin("a prepared statement's text", rawtext, head))
                    if at:
                        g = list(got["attrs"][n].items()) if len(got["attrs"]) > n else []
                        nm_, v_ = g[0] if g else (None, None)
                        ts += [tin("a query attribute's name", at[0].name, nm_), tin("a query attribute's value", at[0].raw[1:], v_)]
                    step("msg", o, ts)

                send(body, cb)
                flush()
        flush()
    return case
