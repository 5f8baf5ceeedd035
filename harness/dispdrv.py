"""Statement lists in every built-in and application kind; records which statements the application gets, and the answers."""
from __future__ import annotations

import random

from . import wire
from .wire import COM
from .world import World, AppSession
from mysql_mimic.errors import MysqlError

SCHEMA = {"d1": {"t1": {"a": "INT", "b": "TEXT"}, "t2": {"a": "INT"}}, "d2": {"t1": {"a": "INT"}, "t3": {"c": "INT"}}}

# @ is the tag, {u} {v} user tables; the tag stays in the statement as SQLGlot prints it
USER = ["SELECT @ FROM {u}", "SELECT a AS @ FROM {u} JOIN {v} ON 1 = 1", "SELECT x.a AS @ FROM (SELECT a FROM {u}) AS x", "(SELECT @ FROM {u})",
        "SELECT @ FROM {u} UNION SELECT b FROM {v}", "SELECT @ FROM {u} UNION ALL SELECT a FROM {v} ORDER BY 1 LIMIT 3", "SELECT @, COUNT(*) FROM {u} GROUP BY 1 HAVING COUNT(*) > 1",
        "WITH c AS (SELECT a FROM {u}) SELECT a AS @ FROM c", "WITH c AS (SELECT a AS @ FROM {u}), d AS (SELECT @ FROM c) SELECT @ FROM d", "SELECT @ FROM {u} AS x, {v} AS y WHERE x.a = y.a",
        "SELECT DISTINCT @ FROM {u} WHERE a IN (SELECT a FROM {v}) AND b = 'x'", "SELECT @ FROM {u} LEFT JOIN {v} USING (a)", "SELECT @ FROM {u} FOR UPDATE", "SELECT 1 AS @ FROM DUAL",
        "SELECT /*+ SET_VAR(sql_mode='ANSI') */ @ FROM {u}", "SELECT /*+ BKA({u}) */ @ FROM {u}", "SELECT @ FROM {u} WHERE a = 'FROM information_schema.tables'",
        "SELECT (SELECT MAX(a) FROM {v}) AS @ FROM {u}", "SELECT @ FROM {u} AS information_schema", "SELECT @ FROM {u} WHERE EXISTS (SELECT 1 FROM {v})", "SELECT @ FROM ((SELECT a FROM {u})) AS q",
        "SELECT NOW(), @ FROM {u}", "SELECT @@version, @ FROM {u}", "SELECT @ FROM {u} WHERE b LIKE '%SHOW TABLES%' LIMIT 2 OFFSET 1", "select @ from {u} natural join {v}",
        "SELECT DATABASE() AS @ FROM {u}", "SELECT @ FROM {u} INTERSECT SELECT a FROM {v}", "SELECT @ FROM {u} EXCEPT SELECT a FROM {v}"]
MIXED = ["SELECT @ FROM {u} JOIN {c} ON 1 = 1", "SELECT @ FROM {c} JOIN {u} ON 1 = 1", "SELECT @ FROM {c} WHERE EXISTS (SELECT 1 FROM {u})", "SELECT @ FROM {u} WHERE a IN (SELECT table_name FROM {c})",
         "SELECT table_name AS @ FROM {c} UNION SELECT a FROM {u}", "SELECT a AS @ FROM {u} UNION ALL SELECT table_name FROM {c}", "WITH c AS (SELECT table_name AS a FROM {c}) SELECT c.a AS @ FROM c JOIN {u} ON 1 = 1",
         "SELECT @ FROM {c}, {u}", "SELECT @ FROM (SELECT table_name FROM {c}) AS x JOIN {u} ON 1 = 1", "SELECT @, (SELECT COUNT(*) FROM {c}) AS n FROM {u}", "SELECT @ FROM {c} LEFT JOIN (SELECT a FROM {u}) AS x ON x.a = 1",
         "SELECT @ FROM {c} WHERE table_name = (SELECT MAX(b) FROM {u})", "(SELECT table_name AS @ FROM {c}) UNION (SELECT a FROM {u})"]
CATALOG = ["SELECT table_name AS @ FROM {c}", "SELECT COUNT(*) AS @ FROM {c}", "SELECT x.table_name AS @ FROM {c} AS x WHERE x.table_schema = 'd1'", "(SELECT table_name AS @ FROM {c})",
           "SELECT q.n AS @ FROM (SELECT table_name AS n FROM {c}) AS q", "SELECT table_name AS @ FROM {c} UNION SELECT table_schema AS @ FROM {c}", "WITH c AS (SELECT table_name AS n FROM {c}) SELECT n AS @ FROM c",
           "SELECT t.table_name AS @ FROM {c} AS t JOIN information_schema.schemata AS s ON t.table_schema = s.schema_name", "SELECT table_name AS @ FROM {c} ORDER BY table_name LIMIT 1",
           "SELECT table_name AS @ FROM {c} WHERE table_schema = 'SELECT a FROM t1'", "SELECT DISTINCT table_schema AS @ FROM {c}", "SELECT /*+ SET_VAR(sql_mode='ANSI') */ table_name AS @ FROM {c}"]
STATIC = ["SELECT 5 AS @", "SELECT 'a;b' AS @", "SELECT @@version AS @", "SELECT @@SESSION.sql_mode AS @", "SELECT DATABASE() AS @", "SELECT NOW() AS @", "SELECT 1 AS @, 2 AS x LIMIT 1", "SELECT CONNECTION_ID() AS @",
          "SELECT USER() AS @", "SELECT 'SELECT a FROM t1' AS @", "SELECT /*+ SET_VAR(sql_mode='ANSI') */ @@sql_mode AS @", "SELECT 1 + 1 AS @", "select CURRENT_USER as @", "SELECT NULL AS @", "SELECT CASE WHEN 1 THEN 2 END AS @",
          "SELECT 1 AS @ ORDER BY 1", "SELECT 1 AS @ WHERE 1 = 1"]
DML = ["INSERT INTO {u} (a) VALUES (@)", "INSERT INTO {u} (@) SELECT table_name FROM information_schema.tables", "UPDATE {u} SET a = @", "DELETE FROM {u} WHERE @ = 1", "REPLACE INTO {u} (@) VALUES (1)",
       "INSERT IGNORE INTO {u} (@) VALUES (1) ON DUPLICATE KEY UPDATE a = 2", "DELETE FROM {u} WHERE @ IN (SELECT table_name FROM information_schema.tables)", "UPDATE {u} JOIN {v} ON 1 = 1 SET @ = 1",
       "INSERT INTO {u} (@) SELECT a FROM {v}", "CALL proc_@(1)", "INSERT INTO {u} (@) SELECT 1", "UPDATE {u} SET a = (SELECT COUNT(*) FROM information_schema.tables) WHERE @ = 1",
       "INSERT INTO {u} (@) VALUES ('SET NAMES utf8; SHOW TABLES')", "DELETE {u} FROM {u} JOIN {v} ON @ = 1", "LOCK TABLES @ READ", "SAVEPOINT @", "GRANT SELECT ON @ TO u1", "EXECUTE @", "PREPARE @ FROM 'select 1'"]
DDL = ["CREATE TABLE @ (a INT)", "CREATE TABLE @ AS SELECT 1 AS a", "CREATE VIEW @ AS SELECT table_name FROM information_schema.tables", "CREATE DATABASE @", "DROP DATABASE @", "ALTER TABLE @ ADD COLUMN b INT",
       "DROP TABLE @", "TRUNCATE TABLE @", "CREATE INDEX @ ON {u} (a)", "ANALYZE TABLE @", "OPTIMIZE TABLE @", "DROP TABLE IF EXISTS @", "CREATE TABLE information_schema.@ (a INT)", "ALTER TABLE @ RENAME TO t9", "DROP VIEW @",
       "CREATE TABLE IF NOT EXISTS @ (a INT PRIMARY KEY, b VARCHAR(5) DEFAULT ';')", "CREATE TEMPORARY TABLE @ AS SELECT a FROM {u}"]
EXPLAIN = ["EXPLAIN SELECT @ FROM {u}", "DESCRIBE SELECT @ FROM {u}", "DESC SELECT @ FROM {u} JOIN {v} ON 1 = 1", "EXPLAIN UPDATE {u} SET @ = 1", "EXPLAIN SELECT @ FROM information_schema.tables",
           "DESCRIBE SELECT @ FROM information_schema.tables", "EXPLAIN FORMAT=JSON SELECT @ FROM {u}", "EXPLAIN ANALYZE SELECT @ FROM {u}", "DESCRIBE SELECT 1 AS @"]
CTL = {"set": ["SET autocommit = 1", "SET NAMES utf8mb4", "SET @@sql_mode = 'ANSI'", "SET SESSION TRANSACTION ISOLATION LEVEL READ COMMITTED", "SET CHARACTER SET utf8mb4", "SET LOCAL autocommit = 0, sql_mode = 'x;y'",
               "SET sql_mode = DEFAULT", "SET TRANSACTION READ ONLY", "set names 'utf8mb4' collate 'utf8mb4_general_ci'", "SET @@SESSION.time_zone = '+00:00'", "SET sql_mode = 'SELECT a FROM t1'"],
       "tx": ["BEGIN", "COMMIT", "ROLLBACK", "START TRANSACTION", "BEGIN WORK", "COMMIT WORK", "ROLLBACK WORK", "ROLLBACK TO SAVEPOINT s1", "START TRANSACTION READ ONLY", "COMMIT AND CHAIN", "begin", "Rollback", "START TRANSACTION READ WRITE"]}
RS = {"show": ["SHOW VARIABLES", "SHOW DATABASES", "SHOW TABLES FROM d1", "SHOW COLUMNS FROM t1 FROM d1", "SHOW STATUS", "SHOW WARNINGS", "SHOW ERRORS", "SHOW INDEX FROM t1 FROM d1", "SHOW FULL TABLES FROM d2", "SHOW TABLES FROM d1 LIKE 'a;b'",
               "SHOW SESSION VARIABLES LIKE 'sql%'", "show full columns from t2 from d1", "SHOW SCHEMAS", "SHOW TABLES IN d1", "SHOW FULL COLUMNS IN t1 IN d1", "SHOW DATABASES LIKE 'd%'"],
      "desc": ["DESCRIBE d1.t1", "DESC d2.t3", "describe d1.t2", "DESCRIBE `d1`.`t1`", "DESC information_schema.tables", "DESCRIBE d1.t1 -- SELECT"]}
LIB = {"show": ["SHOW PROCESSLIST", "SHOW GRANTS", "SHOW CREATE TABLE d1.t1", "SHOW ENGINES", "SHOW COUNT(*) WARNINGS", "SHOW COLLATION", "SHOW CHARACTER SET", "SHOW TABLE STATUS", "SHOW FULL PROCESSLIST", "SHOW MASTER STATUS", "SHOW PLUGINS", "SHOW TABLES"],
       "set": ["SET @x = 1", "SET PASSWORD = 'x'", "SET ROLE r", "SET GLOBAL autocommit = 1", "SET DEFAULT ROLE NONE TO u", "SET no_such_variable = 1", "SET version = 'x'"],
       "kill": ["KILL 999999", "KILL QUERY 999999", "KILL CONNECTION 999999", "kill 888888"]}
CATNAMES = ["information_schema", "INFORMATION_SCHEMA", "Information_Schema"]


class Gen:
    def __init__(self, rng, login):
        self.rng, self.db, self.n = rng, login, 0

    def catalog(self):
        return self.db is not None and self.db.lower() in ("information_schema", "mysql")

    def user(self):
        rng = self.rng
        t = rng.choice(["t1", "t2", "nope", "tables", "`t 1`", "SELECT1", "T1"])
        if t == "tables" or self.db is None or self.catalog() or rng.random() < 0.3:
            t = rng.choice(["d1.", "d2.", "`d 3`.", "d1.", "INFORMATION_SCHEMAS."]) + t
        return t

    def fill(self, s, tag):
        c = self.rng.choice(CATNAMES) + "." + self.rng.choice(["tables", "TABLES", "columns", "tables"])
        s = s.replace("{u}", self.user()).replace("{v}", self.user()).replace("{c}", c).replace("{unq}", self.rng.choice(["tables", "columns"])).replace("@@", "\0")
        return s.replace("@", tag).replace("\0", "@@")

    def stmt(self, head, src):
        rng = self.rng
        self.n += 1
        tag = "z%dz" % self.n
        st = {"k": "", "tag": tag, "db": "", "col": ""}

        def out(text, k, col=""):
            st.update(k=k, col=col)
            return self.spell(self.fill(text, tag)), st

        if head == "select":
            if not src:
                return out(rng.choice(STATIC), "rs", tag)
            if "unq" in src and self.db is None:
                src = ["user"]
            if src == ["user"]:
                return out(rng.choice(USER), self.app(), "k" + tag)
            if src == ["cat"] and rng.random() < 0.15:
                return out(rng.choice(["SELECT user AS @ FROM mysql.user", "SELECT host AS @ FROM MYSQL.user"]), "rs", tag)
            if src == ["cat"]:
                return out(rng.choice(CATALOG), "rs", tag)
            own = "user" in src or not (self.db and self.db.lower() == "information_schema")
            if set(src) == {"user", "cat"}:
                t = rng.choice(MIXED)
            elif src == ["unq"]:
                if self.db.lower() == "mysql":
                    return out("SELECT user AS @ FROM user", "rs", tag)
                t = rng.choice(CATALOG[:7] + CATALOG[8:]).replace("{c}", "{unq}")
            elif "user" in src:
                t = rng.choice(MIXED).replace("{c}", "{unq}")
            else:
                if self.db.lower() == "mysql":
                    own = False
                    t = "SELECT COUNT(*) AS @ FROM user AS u JOIN information_schema.schemata AS s ON u.user = s.schema_name"
                else:
                    t = "SELECT x.table_name AS @ FROM {unq} AS x JOIN {c} AS y ON x.table_name = y.table_name WHERE x.table_schema = 'd1'"
            return out(t, self.app() if own else "rs", "k" + tag if own else tag)
        if head.startswith("use:"):
            if rng.random() < 0.12:
                return out("USE refused", "nouse")
            d = self.pick(head[4:])
            self.db = d
            st["db"] = d
            return out(rng.choice(["USE %s", "use %s", "USE\n%s"]) % (d if d.isidentifier() and d.isascii() and d != "select" and rng.random() < 0.6 else "`%s`" % d), "use")
        if head == "apperr":
            return out(rng.choice([USER, MIXED, DML, DDL, EXPLAIN][rng.randrange(5)]), "apperr")
        if head in ("dml", "ddl", "explain"):
            return out(rng.choice({"dml": DML, "ddl": DDL, "explain": EXPLAIN}[head]), self.app(), "k" + tag)
        if head == "kill" or (head in LIB and rng.random() < 0.15):
            return out(rng.choice(LIB[head]), "lib")
        if head in RS:
            return out(rng.choice(RS[head]), "rs")
        return out(rng.choice(CTL[head]), "ctl")

    def app(self):
        return "appnone" if self.rng.random() < 0.15 else "app"

    def pick(self, d):
        return self.rng.choice({"d1": ["d1"], "d2": ["d2", "d 3", "D2", "select", "Ünï", "d2", "information_schem", "mysql_"], "cat": CATNAMES * 2 + ["mysql", "MySQL"], "": [""]}[d])

    def spell(self, s):
        rng = self.rng
        x = rng.random()
        if x < 0.06 and not s.startswith("("):
            return "/* c;d */ " + s
        if x < 0.12:
            return s + " /* e; SELECT a FROM t1 */"
        if x < 0.15:
            return "\n\t " + s + " "
        return s


def run(plan, seed):
    rng = random.Random(seed)
    kinds = {}
    calls = []
    refused = []

    async def q(sess, expr, sql, attrs):
        try:
            text = expr.sql()
        except Exception as e:  # noqa: BLE001
            text = "%s %r" % (e, expr)
        tags = [t for t in kinds if t in text]
        calls.append({"sql": sql, "attrs": [[k, str(v)] for k, v in sorted(dict(attrs).items())], "tags": tags, "db": sess.database or ""})
        k = kinds[tags[0]] if len(tags) == 1 else "app"
        if k == "apperr":
            raise rng.choice([MysqlError("no"), ValueError("no"), KeyError("x")])
        if k == "appnone":
            return rng.choice([None, ([], [])])
        return [(1,)], ["k" + (tags[0] if len(tags) == 1 else "?")]

    async def use(sess, db):
        if db == "refused":
            raise MysqlError("no such database")

    hist = plan["hist"]
    with World(AppSession, on_query=q, on_use=use, schema_fn=lambda s: SCHEMA) as w:
        g = Gen(rng, None)
        login = g.pick(hist[0][1])
        g.db = login or ""
        c = w.connect()
        c.greet()
        caps = c.caps | wire.CAP["QUERY_ATTRIBUTES"] | (wire.CAP["CONNECT_WITH_DB"] if login else 0)
        pk = c.rt(wire.handshake_response(b"u", b"", login.encode() if login else None, caps), 1)
        case = {"ok": bool(pk) and pk[-1][1][:1] == b"\0", "login": login, "steps": [], "what": {"plan": plan, "seed": seed}}
        if not case["ok"]:
            return case
        c.caps = caps & c.greeting["caps"]

        def step(cmd, payload, kind="text", **kw):
            calls.clear()
            r = wire.Resp(c.rt(payload), c.caps, kind)
            resp = {"k": {"ok": "ok", "rs": "rs", "err": "err"}.get(r.kind, "none"), "col": ""}
            if r.kind == "rs":
                resp["col"] = r.cols[0]["name"].decode()
            st = {"cmd": cmd, "db": "", "sql": "", "attrs": [], "stmts": [], **kw, "calls": list(calls), "resp": resp}
            case["steps"].append(st)
            return r

        def select(k, d):
            d = g.pick(d)
            if k == "chg" and rng.random() < 0.15:
                d = ""
            if k == "init" and rng.random() < 0.1:
                step("badinit", bytes([COM["INIT_DB"]]) + b"refused")
                return
            if k == "init":
                step("init", bytes([COM["INIT_DB"]]) + d.encode(), db=d)
            else:
                step("chg", wire.change_user(rng.choice([b"u", b"v"]), b"", d.encode(), caps=c.caps), db=d)
            g.db = d if d else None

        def text(stmts):
            parts = []
            sts = []
            for s in stmts:
                t, st = g.stmt(s["head"], s["src"])
                sts.append(st)
                kinds[st["tag"]] = st["k"]
                while rng.random() < 0.08:
                    parts.append(rng.choice(["", " ", "/* n */"]))
                parts.append(t)
            sql = ""
            for n, t in enumerate(parts):
                if "-- " in t:
                    t += "\n"
                sql += t + (rng.choice([";", "; ", " ;\n", ";", ";-- c; d\n"]) if n < len(parts) - 1 else "")
            return sql + rng.choice(["", "", ";", " ; ", ";;", "; -- tail", ";\n/* tail */", "; # tail"]), sts

        def attrs():
            if rng.random() < 0.6:
                return []
            return [[n, v] for n, v in sorted(rng.sample([("a", "1"), ("traceparent", "x;y"), ("é", "日本"), ("z", "")], rng.choice([1, 2])))]

        def send(stmts):
            before = g.db
            sql, sts = text(stmts)
            bad = next((n for n, s in enumerate(sts) if s["k"] in ("apperr", "nouse")), None)
            if bad is not None or any(s["k"] == "lib" for s in sts):
                # what comes after may run or not: the generator's own notion of the database ends with the failure
                g.db = before
                if bad is None:
                    g.db = next((s["db"] for s in reversed(sts) if s["k"] == "use"), before)
                    if len({before, *(s["db"] for s in sts if s["k"] == "use")}) > 1:
                        g.db = None
                else:
                    g.db = next((s["db"] for s in reversed(sts[:bad]) if s["k"] == "use"), before)
                    if any(s["k"] == "lib" for s in sts[:bad]):
                        g.db = None
            at = attrs()
            ps = [wire.pstr(v.encode(), n.encode()) for n, v in at]
            if rng.random() < 0.7 or "?" in sql or any(s["k"] == "use" for s in sts) and g.db is None:
                step("query", wire.com_query(sql.encode(), c.caps, ps), sql=sql, attrs=at, stmts=sts)
                return
            r = step("quiet", bytes([COM["STMT_PREPARE"]]) + sql.encode(), "prepare")
            if r.kind != "prepare" or r.num_params:
                case["ok"] = False
                return
            for n in range(rng.choice([1, 1, 2])):
                if n and (rng.random() < 0.3 and not any(s["src"] and "unq" in s["src"] for s in stmts) and not ({"unq"} & set(sum((s["src"] for s in stmts), [])))) and "FROM" not in sql.upper():
                    select("init", rng.choice(["d1", "d2"]))
                flag = 8 if at and n == 0 else 0
                body = bytes([COM["STMT_EXECUTE"]]) + r.stmt_id.to_bytes(4, "little") + bytes([flag]) + b"\1\0\0\0"
                if flag:
                    body += wire.lenenc(len(ps)) + wire.param_block(ps, True)
                if n and any(s["k"] == "use" for s in sts) and "FROM" in sql.upper():
                    break  # the first run may have changed what unqualified names mean
                step("exec", body, sql=sql, attrs=at if n == 0 else [], stmts=sts)

        for k, d in hist[1:]:
            select(k, d)
        send(plan["text"])
        for _ in range(plan.get("more", 0)):
            x = rng.random()
            if x < 0.2:
                select(rng.choice(["init", "chg"]), rng.choice(["d1", "d2", "cat"]))
            elif x < 0.3:
                step("quiet", rng.choice([bytes([COM["RESET_CONNECTION"]]), bytes([COM["PING"]]), bytes([COM["DEBUG"]])]))
            else:
                send(rng.choice(plan["pool"]))
        send([{"head": "dml", "src": []}])  # the database the application sees in the end
    return case
