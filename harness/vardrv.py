"""SET statements, reads and SET_VAR hints in every spelling over every variable; records what reads return."""
from __future__ import annotations

import asyncio
import random
import time
from datetime import datetime

from . import wire
from .wire import COM
from .world import World, AppSession
from mysql_mimic.constants import KillKind
from mysql_mimic.errors import MysqlError
from mysql_mimic.variables import GlobalVariables, SessionVariables, SYSTEM_VARIABLES
from sqlglot import expressions as exp

NULL = "\\N"
U8 = ("charset", "utf8mb4", False)
# name: type, default, read-only - as documented, not as the library has them
SCHEMA = {
    "auto_increment_increment": ("int", "1", False), "autocommit": ("bool", "1", False), "character_set_client": U8, "character_set_connection": U8, "character_set_database": U8,
    "character_set_results": U8, "character_set_server": U8, "collation_connection": ("coll", "utf8mb4_general_ci", False), "collation_database": ("coll", "utf8mb4_general_ci", False),
    "collation_server": ("coll", "utf8mb4_general_ci", False), "external_user": ("str", "", True), "init_connect": ("str", "", False), "interactive_timeout": ("int", "28800", False),
    "license": ("str", "MIT", True), "lower_case_table_names": ("int", "0", False), "max_allowed_packet": ("int", "67108864", False), "max_execution_time": ("int", "0", False),
    "net_buffer_length": ("int", "16384", False), "net_write_timeout": ("int", "28800", False), "performance_schema": ("bool", "0", True), "sql_auto_is_null": ("bool", "0", False),
    "sql_mode": ("str", "ANSI", False), "sql_select_limit": ("int", NULL, False), "system_time_zone": ("str", "UTC", True), "time_zone": ("tz", "UTC", False),
    "transaction_read_only": ("bool", "0", False), "transaction_isolation": ("str", "READ-COMMITTED", False), "version": ("str", "8.0.29", True), "version_comment": ("str", "mysql-mimic", True),
    "wait_timeout": ("int", "28800", False), "event_scheduler": ("str", "OFF", False), "default_storage_engine": ("str", "mysql-mimic", False), "default_tmp_storage_engine": ("str", "mysql-mimic", False)}
EXTRA = {"my_int": ("int", "5", False), "my_flag": ("bool", NULL, False), "my_text": ("str", NULL, False), "my_fixed": ("str", "x", True)}
PY = {"my_int": (int, 5, True), "my_flag": (bool, None, True), "my_text": (str, None, True), "my_fixed": (str, "x", False)}
COLLS = {"utf8mb4": ["utf8mb4_general_ci", "utf8mb4_0900_ai_ci"], "latin1": ["latin1_swedish_ci"], "utf8": ["utf8_general_ci", "utf8mb3_general_ci"], "ascii": ["ascii_general_ci"],
         "cp1251": ["cp1251_general_ci"], "gbk": ["gbk_chinese_ci"], "koi8r": ["koi8r_general_ci"], "latin2": ["latin2_general_ci"], "greek": ["greek_general_ci"], "big5": ["big5_chinese_ci"]}
TZ = {"UTC": 0, "utc": 0, "+00:00": 0, "-00:00": 0, "+05:30": 330, "-08:00": -480, "+14:00": 840, "-13:59": -839, "-00:30": -30, "+12:45": 765, "-03:30": -210, "+01:00": 60, "-12:00": -720}
EDGE = {"+23:59": 1439, "-23:59": -1439, "+14:01": 841}
BADTZ = ["nowhere", "+5:30", "+25:00", "05:30", "+05:60", "+05:3", "", "+05:30x", "Mars/Phobos", "+99:99", "+0530", " +05:30x"]
BADINT = ["abc", "", "1x", "0x", "one", "1.5.2", "--1", "é"]
BADBOOL = ["yes", "maybe", "", "10", "tru", "o n", "nan"]
BADCS = ["nosuch", "", "utf-99", "utf8mb4_general_ci", "klingon"]
BOOLS = {"on": "1", "true": "1", "1": "1", "off": "0", "false": "0", "0": "0"}


def lit(k, v="", **kw):
    d = {"k": k, "v": v, "i": "", "b": "", "cs": "", "tz": "", "near": []}
    if k == "str":
        try:
            d["i"] = str(int(v))
        except ValueError:
            pass
        d["b"] = BOOLS.get(v.lower(), "")
        d["cs"] = v.lower() if v.lower() in COLLS else ""
        d["tz"] = "ok" if v in TZ else "edge" if v in EDGE else "bad"
    elif k == "int":
        d["i"] = v
        d["b"] = v if v in ("0", "1") else ""
    elif k in ("true", "false"):
        d["b"] = "1" if k == "true" else "0"
    d.update(kw)
    return d


def quote(rng, s):
    if "'" in s or '"' in s or rng.random() < 0.8:
        return "'" + s.replace("'", "''") + "'"
    return '"' + s + '"'


def value(rng, t, kind, plain, same=()):
    """(SQL text, literal)"""
    if kind == "default":
        return rng.choice([("DEFAULT", lit("default")), ("NULL", lit("null")), ("default", lit("default"))])
    if kind == "bad":
        if t == "int":
            s = rng.choice(BADINT[:-1])
        elif t == "bool":
            s = rng.choice(BADBOOL)
        elif t == "charset":
            s = rng.choice(BADCS)
        else:
            s = rng.choice(BADTZ)
        if t in ("tz", "charset") and rng.random() < 0.15:
            return rng.choice([("5", lit("int", "5")), ("TRUE", lit("true", "TRUE")), ("1.5", lit("float", "1.5", near=["1", "2"]))])
        return quote(rng, s), lit("str", s)
    if same and rng.random() < 0.08:
        n = rng.choice(same)
        return rng.choice(["@@", "@@SESSION.", "@@session."]) + n, lit("ref", n)
    if t == "int":
        n = rng.choice([0, 1, 2, 5, 77, 4096, 2147483647, 2147483648, 4294967296, 9223372036854775807, rng.randrange(10 ** 6)])
        x = rng.random()
        if x < 0.15:
            return quote(rng, str(n)), lit("str", str(n))
        if x < 0.19:
            return "1.5", lit("float", "1.5", near=["1", "2"])
        if x < 0.22:
            return "-%d" % n, lit("complex", "", i=str(-n))
        if x < 0.25:
            return rng.choice([("ON", lit("true", "ON")), ("FALSE", lit("false", "FALSE"))])
        return str(n), lit("int", str(n))
    if t == "bool":
        x = rng.choice(["TRUE", "FALSE", "ON", "OFF", "1", "0", "on", "off", "true", "'ON'", "'off'", "'1'", "'0'", "'true'", "'FALSE'", "2"])
        if x[0] == "'":
            return x, lit("str", x[1:-1])
        if x.isdigit():
            return x, lit("int", x)
        return x, lit("true" if BOOLS[x.lower()] == "1" else "false", x)
    if t == "charset":
        cs = rng.choice(sorted(COLLS))
        cs = rng.choice([cs, cs, cs.upper()])
        return quote(rng, cs), lit("str", cs)
    if t == "tz":
        z = rng.choice(sorted(TZ) * 3 + sorted(EDGE))
        return quote(rng, z), lit("str", z)
    if t == "coll":
        z = rng.choice(["utf8mb4_bin", "latin1_swedish_ci", "utf8mb4_unicode_ci", "ascii_bin"])
        return quote(rng, z), lit("str", z)
    x = rng.random()
    if x < 0.08:
        n = str(rng.randrange(100))
        return n, lit("int", n)
    if x < 0.11:
        return rng.choice([("ON", lit("true", "ON")), ("OFF", lit("false", "OFF")), ("1.5", lit("float", "1.5")), ("CONCAT('a', 'b')", lit("complex", ""))])
    s = rng.choice(["", "a", "ANSI", "it's", "STRICT_TRANS_TABLES,NO_ZERO_DATE", "DEFAULT", "NULL", "ON", "0", "READ-UNCOMMITTED", "%_", "a b", "@@version", "/* c */", "x" * 300, "-- ", "true", "sql_mode = 'x'", ";", "None", "False"]
                   + ([] if plain else ["é", "日本語", "a'é"]))
    return quote(rng, s), lit("str", s)


def text(v):
    if v is None:
        return NULL
    if v is True or v is False:
        return "1" if v else "0"
    if isinstance(v, bytes):
        return v.decode("utf-8", "replace")
    return str(v)


def node(e):
    e = e.unalias()
    if isinstance(e, exp.Null):
        return NULL
    if isinstance(e, exp.Boolean):
        return "1" if e.this else "0"
    return e.name if isinstance(e, exp.Literal) else "? " + e.sql()


def run(plan, seed):
    rng = random.Random(seed)
    schema = dict(SCHEMA)
    py = dict(SYSTEM_VARIABLES)
    custom = rng.random() < 0.3
    version = "8.0.29"
    if custom:
        schema.update(EXTRA)
        version = rng.choice(["5.7.99-custom", "8.4.0", "10.1-é" if False else "10.1"])
        schema["version"] = ("str", version, True)
        py.update(PY)
        py["version"] = (str, version, False)
    glob = GlobalVariables(py if custom else None)
    app = {"names": [], "got": [], "fail": False, "kill": False, "waits": False}

    class VarSession(AppSession):
        def __init__(self, *a, **k):
            super().__init__(*a, variables=SessionVariables(glob), **k)

    async def q(sess, expr, sql, attrs):
        app["got"] = [[n, text(sess.variables.get(n))] for n in app["names"]]
        if isinstance(expr, exp.Select):
            app["got"] += [[n, node(e)] for n, e in zip(app["names"], expr.selects)]
        if app["kill"]:
            app["waits"] = True
            await asyncio.sleep(10000)
        if app["fail"]:
            raise rng.choice([MysqlError("no"), ValueError("no")])
        return rng.choice([None, ([(1,)], ["a"])])

    users = rng.sample(["u", "v", "someone"], rng.choice([1, 1, 2]))
    case = {"ok": True, "users": users, "greetings": [], "steps": [], "vars": [{"n": n, "t": t, "d": d, "ro": ro} for n, (t, d, ro) in schema.items()],
            "zones": [[z, m] for z, m in {**TZ, **EDGE}.items()], "what": {"plan": plan, "seed": seed}}
    plain = rng.random() < 0.7 or any(False for _ in plan)
    rw = [n for n, (t, d, ro) in schema.items() if not ro]
    ro = [n for n, (t, d, r) in schema.items() if r]
    if not plain:  # text that isn't ASCII needs the character sets to stay as they are
        rw = [n for n in rw if schema[n][0] != "charset"]
    texts = [n for n in rw if schema[n][0] == "str"]
    with World(VarSession, on_query=q) as w:
        conns = []
        for u in users:
            c = w.connect()
            c.greet()
            try:
                c.login(u.encode())
            except AssertionError:
                case["ok"] = False
                return case
            case["greetings"].append(c.greeting["version"].decode())
            conns.append(c)
        killer = w.login()

        def spell(n):
            return rng.choice([n, n, n, n.upper(), n.title(), "`%s`" % n])

        def send(c, sql):
            via = rng.random()
            if via < 0.85 or "?" in sql:
                r = conns[c].query(sql)
            else:
                p = conns[c].prepare(sql)
                if p.kind != "prepare" or p.num_params:
                    return p
                r = conns[c].execute(p.stmt_id)
                r.binary = True
            return r

        def cells(r):
            """the first row as texts"""
            if getattr(r, "binary", False):
                return bin_row(r)
            rows = r.text_rows()
            return [text(v) for v in rows[0]] if rows else []

        def bin_row(r):
            if not r.rows:
                return []
            b = wire.Rd(r.rows[0])
            b.u(1)
            nb = b.take((len(r.cols) + 9) // 8)
            out = []
            for k, col in enumerate(r.cols):
                if nb[(k + 2) // 8] >> ((k + 2) % 8) & 1:
                    out.append(NULL)
                elif col["type"] in (1, 2, 3, 8):
                    n = {1: 1, 2: 2, 3: 4, 8: 8}[col["type"]]
                    out.append(str(int.from_bytes(b.take(n), "little", signed=not col["flags"] & 32)))
                elif col["type"] in (4, 5):
                    b.take(4 if col["type"] == 4 else 8)
                    out.append("?")
                else:
                    out.append(b.lestr().decode("utf-8", "replace"))
            return out

        def out(r):
            return {"ok": "ok", "rs": "rs", "err": "err"}.get(r.kind, "none")

        def rec(**k):
            d = {"c": 1, "op": "", "sql": "", "out": "", "items": [], "got": [], "app": [], "fail": False, "names": [], "lit": lit("default"), "colls": [], "t0": 0, "t1": 0, "now": 0, "date": 0, "time": 0}
            d.update(k)
            case["steps"].append(d)

        def read(c, names=None):
            names = names or rng.sample(list(schema), rng.choice([1, 1, 2, 5]))
            sql = "SELECT " + ", ".join(rng.choice(["@@", "@@", "@@SESSION.", "@@session.", "@@LOCAL."]) + rng.choice([n, n.upper()]) + " AS c%d" % k for k, n in enumerate(names))
            r = send(c, sql)
            got = [[n, v] for n, v in zip(names, cells(r))] if r.kind == "rs" else []
            rec(c=c + 1, op="read", sql=sql, out=out(r) if r.kind != "rs" or len(got) == len(names) else "short", got=got)

        def show(c):
            names = list(schema)
            sql = rng.choice(["SHOW VARIABLES", "SHOW SESSION VARIABLES", "show variables", "SHOW VARIABLES LIKE '%'"])
            if rng.random() < 0.3:
                names = [rng.choice(names)]
                sql = "SHOW VARIABLES LIKE '%s'" % rng.choice([names[0], names[0][:-1] + "_", names[0][:-2] + "%"])
            r = send(c, sql)
            got = []
            if r.kind == "rs":
                for row in (r.text_rows() if not getattr(r, "binary", False) else [bin_row(type("R", (), {"rows": [x], "cols": r.cols})) for x in r.rows]):
                    a, b = text(row[0]), text(row[1])
                    if a in schema:
                        got.append([a, b])
            rec(c=c + 1, op="show", sql=sql, out=out(r), names=names, got=got)

        def now(c):
            items = []
            hint = ""
            if rng.random() < 0.3:
                z = rng.choice(sorted(TZ))
                items = [{"n": "time_zone", "lit": lit("str", z)}]
                hint = "/*+ SET_VAR(time_zone = '%s') */ " % z
            sql = "SELECT %s%s AS a, %s AS b, %s AS c" % (hint, rng.choice(["NOW()", "CURRENT_TIMESTAMP", "CURRENT_TIMESTAMP()", "LOCALTIMESTAMP()", "LOCALTIME()", "now()"]), rng.choice(["CURDATE()", "CURRENT_DATE", "CURRENT_DATE()"]),
                                                       rng.choice(["CURTIME()", "CURRENT_TIME", "CURRENT_TIME()", "curtime()"]))
            t0 = int(time.time())
            r = conns[c].query(sql)
            t1 = int(time.time())
            try:
                a, b, d = cells(r)
                n = int((datetime.strptime(a, "%Y-%m-%d %H:%M:%S") - datetime(1970, 1, 1)).total_seconds())
                date = (datetime.strptime(b, "%Y-%m-%d") - datetime(1970, 1, 1)).days
                hh, mm, ss = d.split(":")
                rec(c=c + 1, op="now", sql=sql, out="rs", items=items, t0=t0, t1=t1, now=n, date=date, time=int(hh) * 3600 + int(mm) * 60 + int(ss))
            except ValueError as e:
                rec(c=c + 1, op="now", sql=sql, out=out(r) + " " + str(e), items=items)

        def set_(c, pairs, combine=False):
            """pairs: (name, sql, literal)"""
            parts = []
            for n, s, _ in pairs:
                scope = rng.choice(["", "", "SESSION ", "LOCAL ", "@@", "@@SESSION.", "@@session.", "@@LOCAL.", "session "])
                parts.append("%s%s %s %s" % (scope, rng.choice([n, n.upper()]) if scope[:2] == "@@" else spell(n), "=", s))
            sql = rng.choice(["SET ", "set ", "SET  "]) + rng.choice([", ", ",", " ,\n "]).join(parts)
            items = [{"n": n, "lit": x} for n, _, x in pairs]
            r = send(c, sql)
            rec(c=c + 1, op="set", sql=sql, out=out(r), items=items)

        def killed(c, sql):
            """the statement is pending in the application when a KILL QUERY arrives"""
            app.update(kill=True, waits=False)
            client = conns[c]
            if rng.random() < 0.7:
                client.send_payload(wire.com_query(sql.encode(), client.caps))
            else:
                p = client.prepare(sql)
                if p.kind != "prepare" or p.num_params:
                    app["kill"] = False
                    return p
                client.send_payload(wire.com_stmt_execute(p.stmt_id, client.caps))
            w.loop.pump(advance=0)
            if app["waits"]:
                if rng.random() < 0.5:
                    w.loop.run_coro(w.control.kill(client.thread_id, KillKind.QUERY))
                else:
                    killer.query("KILL QUERY %d" % client.thread_id)
            w.pump()
            app["kill"] = False
            return wire.Resp(client.recv(), client.caps)

        def hint(c, pairs, fails, kill=False):
            nest = len(pairs) == 2 and (pairs[0][0] == pairs[1][0] or rng.random() < 0.3)
            pairs = [(n, "'ON'" if s.upper() == "ON" else s, lit("str", "ON") if s.upper() == "ON" else x) for n, s, x in pairs]  # SQLGlot reads no bare ON in a hint
            sp = ["%s%s=%s%s" % (rng.choice([n, n.upper()]), rng.choice(["", " "]), rng.choice(["", " "]), s) for n, s, _ in pairs]
            names = list(dict.fromkeys([n for n, _, _ in pairs if n in schema] + rng.sample(list(schema), 1)))
            cols = ", ".join("@@%s AS c%d" % (n, k) for k, n in enumerate(names))
            app.update(names=names, got=[], fail=fails)
            static = False
            other = rng.choice(["", "", " BKA(t1)", " NO_ICP(t2)"])
            if nest:
                sql = rng.choice(["SELECT /*+ SET_VAR(%s)%s */ %s FROM t1 JOIN (SELECT /*+ SET_VAR(%s) */ a FROM t2) AS q ON 1 = 1" % (sp[1], other, cols, sp[0]),
                                  "SELECT /*+ SET_VAR(%s)%s */ %s FROM t1 WHERE a IN (SELECT /*+ SET_VAR(%s) */ a FROM t2)" % (sp[1], other, cols, sp[0])])
            else:
                body = "SET_VAR(%s)" % ", ".join(sp) if rng.random() < 0.7 else " ".join("SET_VAR(%s)" % s for s in sp)
                body = (body + other) if rng.random() < 0.7 else (other + " " + body)
                x = rng.random()
                if x < 0.4 and (not fails or rng.random() < 0.7) and not kill:
                    static = True
                    sql = "SELECT /*+ %s */ %s%s" % (body, cols, ", NOSUCH(1) AS n" if fails else "")
                elif x < 0.7:
                    sql = "SELECT /*+ %s */ %s FROM t1" % (body, cols)
                elif x < 0.85:
                    sql = "INSERT /*+ %s */ INTO t1 VALUES (1)" % body
                else:
                    sql = "SELECT a FROM (SELECT /*+ %s */ a FROM t1) AS q" % body
            if fails and not static and not kill and rng.random() < 0.2:  # the failure comes from the catalog
                sql = "SELECT /*+ %s */ 1 FROM information_schema.no_such_table" % ", ".join("SET_VAR(%s)" % s for s in sp[-1:])
                pairs = pairs[-1:]
                app["names"] = []
            r = killed(c, sql) if kill else send(c, sql)
            got = []
            if static and r.kind == "rs":
                got = [[n, v] for n, v in zip(names, cells(r))]
            reads = app["got"]
            if sql.startswith("SELECT a FROM ("):
                reads = reads[:len(names)]
            rec(c=c + 1, op="hint", sql=sql, out=out(r), fail=fails, got=got, app=reads, items=[{"n": n, "lit": x} for n, _, x in pairs])
            app.update(names=[], got=[], fail=False)

        def other(c):
            x = rng.random()
            if x < 0.3:
                cs = rng.choice(sorted(COLLS)) if plain else "utf8mb4"
                l = lit("str", rng.choice([cs, cs, cs.upper()]))
                sp = rng.choice([l["v"], quote(rng, l["v"])])
                colls = COLLS[cs]
                tail = ""
                y = rng.random()
                if y < 0.15:
                    l, sp, colls = lit("default"), rng.choice(["DEFAULT", "default"]), []
                elif y < 0.25:
                    l, sp, colls = lit("str", "nosuch"), "nosuch", []
                elif y < 0.5:
                    colls = [rng.choice([cs + "_bin", COLLS[cs][0]])]
                    tail = rng.choice([" COLLATE ", " collate "]) + rng.choice([colls[0], "'%s'" % colls[0]])
                sql = rng.choice(["SET NAMES ", "set names "]) + sp + tail
                r = send(c, sql)
                rec(c=c + 1, op="names", sql=sql, out=out(r), lit=l, colls=colls if l["k"] != "default" else ["x"])
            elif x < 0.45:
                cs = rng.choice(sorted(COLLS)) if plain else "utf8mb4"
                l = lit("str", cs)
                sp = rng.choice([cs, "'%s'" % cs, cs.upper()])
                y = rng.random()
                if y < 0.15:
                    l, sp = lit("default"), "DEFAULT"
                elif y < 0.25:
                    l, sp = lit("str", "nosuch"), "'nosuch'"
                sql = rng.choice(["SET CHARACTER SET ", "SET CHARSET ", "set character set "]) + sp
                r = send(c, sql)
                rec(c=c + 1, op="charset", sql=sql, out=out(r), lit=l)
            elif x < 0.6:
                items, words = [], []
                if rng.random() < 0.7:
                    lv = rng.choice(["REPEATABLE READ", "READ COMMITTED", "READ UNCOMMITTED", "SERIALIZABLE"])
                    words.append("ISOLATION LEVEL " + lv)
                    items.append({"n": "transaction_isolation", "lit": lit("complex" if "UNC" in lv else "str", lv.replace(" ", "-"))})  # SQLGlot reads UNCOMITTED only
                if not items or rng.random() < 0.4:
                    m = rng.choice(["READ ONLY", "READ WRITE"])
                    words.append(m)
                    items.append({"n": "transaction_read_only", "lit": lit("true" if m == "READ ONLY" else "false", "x")})
                sql = rng.choice(["SET TRANSACTION ", "SET SESSION TRANSACTION ", "SET LOCAL TRANSACTION " if False else "set session transaction "]) + ", ".join(words)
                r = send(c, sql)
                rec(c=c + 1, op="set", sql=sql, out=out(r), items=items)
            elif x < 0.8:  # of no effect on the session, whether refused or not
                n = rng.choice(list(schema))
                sql = rng.choice(["SET GLOBAL %s = %s", "SET @@GLOBAL.%s = %s", "SET PERSIST %s = %s", "SET @@PERSIST.%s = %s", "SET PERSIST_ONLY %s = %s", "SET @%s = %s"]) % (n, rng.choice(["1", "'x'", "DEFAULT", "ON"]))
                if rng.random() < 0.2:
                    sql = rng.choice(["SET GLOBAL TRANSACTION READ ONLY", "SET GLOBAL TRANSACTION ISOLATION LEVEL SERIALIZABLE", "SET @x = 1", "SHOW VARIABLES LIKE 'zzz'", "SELECT 1", "SHOW WARNINGS", "BEGIN"])
                rec(c=c + 1, op="other", sql=sql, out=out(send(c, sql)))
            elif x < 0.9:
                sql = rng.choice(["SELECT @@nosuch", "SET nosuch = 1", "SET SESSION nosuch = DEFAULT", "SELECT @@SESSION.nosuch", "SET @@nosuch = 'a'", "SELECT 1, @@wait_timeouts", "SET versio = 'x'"])
                rec(c=c + 1, op="fails", sql=sql, out=out(send(c, sql)))
            else:
                n = rng.choice(ro)
                sql = rng.choice(["SET %s = 'x'", "SET SESSION %s = 'y'", "SET @@%s = 1", "SET @@SESSION.%s = DEFAULT", "SET LOCAL %s = NULL", "SET `%s` = ''", "SET %s = @@sql_mode"]) % rng.choice([n, n.upper()])
                rec(c=c + 1, op="fails", sql=sql, out=out(send(c, sql)))

        # what the plan's names stand for
        bad = {i["n"] for s in plan for i in s["l"] if i["val"] == "bad"}
        picky = [n for n in rw if schema[n][0] in ("int", "bool", "charset", "tz")]
        x = rng.choice(picky if "x" in bad else rw)
        y = rng.choice([n for n in (picky if "y" in bad else rw) if n != x])
        name = {"x": x, "y": y, "r": rng.choice(ro), "u": rng.choice(["nosuch", "sql_modes", "autocommi"])}

        def pair(i):
            n = name[i["n"]]
            t = schema[n][0] if n in schema else "str"
            s, l = value(rng, t, i["val"] if i["n"] in "xy" else rng.choice(["good", "good", "default"]), plain, texts if t == "str" else ())
            return n, s, l

        show(0)
        for s in plan:
            c = rng.randrange(len(conns))
            ps = [pair(i) for i in s["l"]]
            if s["m"] == "set":
                set_(c, ps)
            else:
                ps = [(n, sq, l) for n, sq, l in ps]
                for k, (n, sq, l) in enumerate(ps):
                    if l["k"] in ("complex", "ref"):
                        ps[k] = (n, "5", lit("int", "5")) if n in schema and schema[n][0] in ("int", "str") else (n, "DEFAULT", lit("default"))
                hint(c, ps, s["m"] != "hint", s["m"] == "hintkill")
            if rng.random() < 0.5:
                show(rng.randrange(len(conns)))
            else:
                read(c, [n for n in name.values() if n in schema])
            while rng.random() < 0.45:
                rng.choice([other, other, now, read, show])(rng.randrange(len(conns)))
        for c in range(len(conns)):
            show(c)
            read(c)
            now(c)
    return case
