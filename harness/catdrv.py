"""Declares schemas and asks for them in every way there is; records the answers as rows of texts."""
from __future__ import annotations

import random

from . import wire
from .wire import CAP, COM
from .world import World, AppSession

TYPES = ["INT", "TEXT", "VARCHAR(10)", "DECIMAL(10,2)", "bigint unsigned", "ENUM('a','b')", "DATETIME(6)", "double", "JSON", "int(11)"]
CHARS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789$日本語中אבжяпの한글"
WORDS = ["select", "table", "from", "order", "users", "user", "t", "T1", "t1", "t_1", "tx1", "key", "1", "2x", "a$b", "a_b", "axb", "ab", "a", "orders_2020", "order2", "id", "user_id", "userXid", "user_id_2",
         "name", "schema_name", "日本", "日_", "like", "null", "columns", "tables", "schemata", "test", "def", "x" * 64, "x" * 63, "_", "__", "_a", "a_", "$", "group", "test_db", "testXdb", "dual", "information", "mysql2",
         "true", "date", "values", "desc", "show", "int", "count", "DB", "prod", "prod_eu", "prodXeu", "user_name", "sys_x", "i", "performance"]
FIELDS = {"dbs": {"cat": "catalog_name", "db": "schema_name"}, "tabs": {"cat": "table_catalog", "db": "table_schema", "tab": "table_name"},
          "cols": {"cat": "table_catalog", "db": "table_schema", "tab": "table_name", "col": "column_name", "ty": "column_type"}}
REL = {"dbs": "schemata", "tabs": "tables", "cols": "columns"}
BUILTIN = {"information_schema", "mysql"}
NULL = [-1]
# names that the parser takes for keywords after DESCRIBE even if they're quoted
KEYWORDS = {"values", "extended", "formatted", "history"}


def cp(s):
    return NULL if s is None else [ord(c) for c in s]


def fold(s):
    return "".join(c.lower() if c.isascii() else c for c in s)


def text(codes, ren):
    return "".join(ren.get(x, chr(x)) for x in codes)


def sq(s):
    return "'%s'" % s


def nested(mapping):
    """{cat: {db: {tab: {col: (type, nullable, default)}}}} for TLA+"""
    return [[cp(c), [[cp(d), [[cp(t), [[cp(n)] + [cp(z) for z in ty] for n, ty in cols.items()]] for t, cols in tabs.items()]] for d, tabs in dbs.items()]] for c, dbs in mapping.items()]


def baseline():
    """what the library lists when nothing is declared"""
    with World(AppSession) as w:
        c = w.connect(wire.DEF_CAPS)
        c.login()

        def rows(sql):
            return [tuple(x.decode() if x is not None else None for x in r) for r in c.query(sql).text_rows()]

        m = {}
        for cat, db in rows("SELECT catalog_name, schema_name FROM information_schema.schemata"):
            m.setdefault(cat, {})[db] = {}
        for cat, db, t in rows("SELECT table_catalog, table_schema, table_name FROM information_schema.tables"):
            m.setdefault(cat, {}).setdefault(db, {})[t] = {}
        for cat, db, t, n, ty, nul, df in rows("SELECT table_catalog, table_schema, table_name, column_name, column_type, is_nullable, column_default FROM information_schema.columns"):
            m.setdefault(cat, {}).setdefault(db, {}).setdefault(t, {})[n] = (ty, nul, df)
        return m, [r[0] for r in rows("SHOW VARIABLES")]


class Case:
    def __init__(self, depth, cats, cur, rng, base=None, rich=False, login=True):
        """cats: {cat: {db: {tab: {col: (type, nullable, default)}}}} with the missing levels named "" """
        self.rng, self.depth, self.cats, self.rich = rng, depth, cats, rich
        self.base, vars_ = base or baseline()
        self.done = []
        self.mapping = mapping = self.plain()
        self.names = self.all_names()
        self.case = {"depth": depth, "decl": nested(cats), "builtin": nested(self.base), "vars": [cp(v) for v in vars_], "queries": [],
                     "core": [[cp("information_schema"), cp("mysql")], [cp("schemata"), cp("tables"), cp("columns")]],
                     "what": {"mapping": mapping, "cur": cur, "sql": []}}
        self.vars = vars_
        self.cur = cur
        self.shared = False  # catalogs share names of databases: only asked for with the catalog
        self.w = World(AppSession)
        self.w.schema_fn = self.schema
        self.c = self.w.connect(wire.DEF_CAPS & ~(CAP["DEPRECATE_EOF"] if rng.random() < 0.3 else 0))
        if cur and login and rng.random() < 0.5:
            self.c.login(db=cur.encode())
        else:
            self.c.login()
            if cur:
                self.use(cur)

    def plain(self):
        m = {c: {d: {t: {n: z[0] for n, z in cols.items()} for t, cols in tabs.items()} for d, tabs in dbs.items()} for c, dbs in self.cats.items()}
        for _ in range(4 - self.depth):
            (m,) = m.values()
        return m

    def evolve(self, vocab):
        """the application's schema changes, in place or not"""
        rng = self.rng
        dbs = rng.choice([v for v in self.cats.values() if v])
        tabs = dbs[rng.choice(list(dbs))]
        new = [v for v in vocab if fold(v) not in [fold(t) for t in tabs]]
        what = rng.choice(["add", "add", "drop", "rename", "columns"])
        if what == "drop" and len(tabs) > self.rich:
            t = rng.choice(list(tabs))
            cols = tabs.pop(t)
            if not any(x for v in self.cats.values() for ts in v.values() for x in ts.values()):
                tabs[t] = cols
        elif what == "rename" and tabs and new:
            tabs[rng.choice(new)] = tabs.pop(rng.choice(list(tabs)))
        elif what == "columns" and tabs:
            cols = tabs[rng.choice(list(tabs))]
            for n in [v for v in rng.sample(vocab, min(3, len(vocab))) if fold(v) not in [fold(n) for n in cols]]:
                cols[n] = ty(rng, self.rich)
            if len(cols) > 1:
                n = rng.choice(list(cols))
                cols.update({n: ty(rng, self.rich)}) if rng.random() < 0.5 else cols.pop(n)
        elif new:
            tabs[rng.choice(new)] = {n: ty(rng, self.rich) for n in rng.sample(["a", "b_1", "c"], rng.randrange(1, 4))}
        m = self.plain()
        if rng.random() < 0.6:
            self.mapping.clear()
            self.mapping.update(m)
        else:
            self.mapping = m
        self.names = sorted(set(self.names) | set(self.all_names()))
        self.done.append(self.case)
        self.case = {**self.case, "decl": nested(self.cats), "queries": [], "what": {"mapping": m, "cur": self.cur, "sql": [], "before": self.case["what"]}}

    def all_names(self):
        return sorted({n for dbs in self.cats.values() for d, tabs in dbs.items() for n in [d, *tabs, *[x for cols in tabs.values() for x in cols]] if n})

    def schema(self, session):
        if not self.rich:
            return self.mapping
        from mysql_mimic.schema import Column, InfoSchema, info_schema_tables
        return InfoSchema(info_schema_tables([Column(name=n, type=z[0], table=t, is_nullable=z[1] == "YES", default=z[2], schema=d, catalog=c)
                                              for c, dbs in self.cats.items() for d, tabs in dbs.items() for t, cols in tabs.items() for n, z in cols.items()]))

    def use(self, db):
        if self.rng.random() < 0.5 or fold(db) in KEYWORDS:
            self.c.rt(bytes([COM["INIT_DB"]]) + db.encode())
        else:
            self.c.query("USE `%s`" % db)
        self.cur = db

    def ident(self, n):
        if n.isascii() and n[0].isalpha() and n.replace("_", "").replace("$", "").isalnum() and any(ch in "_0123456789" for ch in n[1:]) and self.rng.random() < 0.4:
            return n
        return "`%s`" % n

    def ask(self, op, sql=None, payload=None, db="", tab="", like=None, conds=(), fields=(), distinct=False, ordered=False, level="", take=None, pos=False):
        q = {"op": op, "cur": cp(self.cur or ""), "db": cp(db), "tab": cp(tab), "like": [] if like is None else [cp(like)], "conds": [{"f": f, "k": k, "v": cp(v)} for f, k, v in conds],
             "fields": list(fields), "distinct": distinct, "ordered": ordered, "level": level, "more": False, "rows": [], "pos": [], "defs": [], "out": "none", "n": 0}
        self.case["what"]["sql"].append(sql if sql is not None else "FIELD_LIST %r %r" % (tab, like))
        self.case["queries"].append(q)
        if op == "fields":
            pk = self.c.rt(payload)
            if pk and pk[-1][1][:1] == b"\xff":
                q["out"] = "err"
                return
            if not pk or pk[-1][1][:1] not in (b"\0", b"\xfe") or len(pk[-1][1]) > 9:
                return
            try:
                defs = [wire.parse_coldef(p, True) for _, p in pk[:-1]]
            except Exception:  # noqa: BLE001
                q["out"], q["defs"] = "rs", [{"fixlen": -1, "left": 0, "def": False}]
                return
            q["out"] = "rs"
            q["defs"] = [{"fixlen": d["fixlen"], "left": d["left"], "def": d["catalog"] == b"def" and d["table"].decode("utf-8", "replace") == tab} for d in defs]
            q["rows"] = [[cp(d["name"].decode("utf-8", "replace"))] for d in defs]
            if self.rich:
                q["defs"] = [{**z, "def": z["def"] and self.default_ok(db, tab, d)} for z, d in zip(q["defs"], defs)]
            return
        r = self.c.query(sql)
        q["out"] = {"rs": "rs", "err": "err"}.get(r.kind, "none")
        if r.kind != "rs":
            return
        q["defs"] = [{"fixlen": d["fixlen"], "left": d["left"], "def": d["catalog"] == b"def"} for d in r.cols]
        rows = [tuple(x.decode("utf-8", "replace") if x is not None else None for x in row) for row in r.text_rows()]
        if op == "count":
            q["n"] = int(rows[0][0]) if len(rows) == 1 and rows[0][0] and rows[0][0].isdigit() else -1
            return
        if op == "showcols" and self.rich and rows and all(len(x) >= 5 for x in rows):
            q["more"] = True
            head = [bytes(d["name"]).decode().lower() for d in r.cols]
            try:
                i = [head.index(n) for n in ("field", "type", "null", "default")]
            except ValueError:
                i = [0, 1, 2, 4]
            q["rows"] = [[cp(row[k]) for k in i] for row in rows]
            return
        take = take if take is not None else {"showdbs": 1, "showtabs": 1, "showcols": 2, "vars": 1}.get(op, len(fields))
        q["rows"] = [[cp(x) for x in row[:take]] for row in rows]
        if pos:
            q["pos"] = [int(row[-1]) if row[-1] and row[-1].isdigit() else -1 for row in rows]

    def default_ok(self, db, tab, d):
        db = db or self.cur
        want = [cols[d["name"].decode()][2] for dbs in self.cats.values() for n, tabs in dbs.items() if not db or n == db for t, cols in tabs.items() if t == tab and d["name"].decode() in cols]
        return not want or (d["default"] in (None, b"") if want[0] is None else d["default"] == want[0].encode())

    # the ways to ask
    def like_sql(self, like):
        if like is None:
            return ""
        return self.rng.choice([" LIKE '%s'", " like '%s'", " LIKE \"%s\""]) % like

    def dbs(self, like=None):
        self.ask("showdbs", self.rng.choice(["SHOW DATABASES", "SHOW SCHEMAS", "show databases"]) + self.like_sql(like), like=like)

    def tables(self, db="", like=None):
        fr = " %s %s" % (self.rng.choice(["FROM", "IN", "from", "in"]), self.ident(db)) if db else ""
        self.ask("showtabs", self.rng.choice(["SHOW TABLES", "SHOW FULL TABLES", "show tables"]) + fr + self.like_sql(like), db=db, like=like)

    def columns(self, db, tab, like=None):
        rng = self.rng
        x = rng.random()
        t = self.ident(tab)
        if like is None and x < 0.35 and fold(db or tab) not in KEYWORDS:
            sql = rng.choice(["DESCRIBE ", "DESC ", "describe "]) + (self.ident(db) + "." if db else "") + t
        elif x < 0.5 and db:
            sql = rng.choice(["SHOW COLUMNS FROM ", "SHOW FULL COLUMNS FROM ", "SHOW COLUMNS IN "]) + self.ident(db) + "." + t + self.like_sql(like)
        else:
            fr = " %s %s" % (rng.choice(["FROM", "IN"]), self.ident(db)) if db else ""
            sql = rng.choice(["SHOW COLUMNS %s ", "SHOW FULL COLUMNS %s ", "show columns %s "]) % rng.choice(["FROM", "IN"]) + t + fr + self.like_sql(like)
        self.ask("showcols", sql, db=db, tab=tab, like=like, ordered=True)

    def fields(self, tab, like=None):
        self.ask("fields", payload=bytes([COM["FIELD_LIST"]]) + tab.encode() + b"\0" + (like or "").encode(), tab=tab, like=like or None, ordered=True)

    def variables(self, like=None):
        self.ask("vars", self.rng.choice(["SHOW VARIABLES", "SHOW SESSION VARIABLES", "SHOW GLOBAL VARIABLES", "show variables"]) + self.like_sql(like), like=like)

    def select(self, level, conds, fields=None):
        """conds: [(field, kind, value)]"""
        rng = self.rng
        f = FIELDS[level]
        names = [n for n in f if n != "cat" or self.depth == 4]
        last = {"dbs": "db", "tabs": "tab", "cols": "col"}[level]
        if self.shared:
            names = list(f)
        fields = fields or sorted(({"cat"} if self.shared else set()) | {last} | set(rng.sample(names, rng.randrange(len(names) + 1))), key=list(f).index)
        alias = rng.choice(["", "", "x"])
        pre = alias + "." if alias else ""
        up = (lambda s: s.upper()) if rng.random() < 0.3 else (lambda s: s)
        rel = up("information_schema") + "." + up(REL[level])
        if self.cur == "information_schema" and rng.random() < 0.5:
            rel = up(REL[level])
        if alias:
            rel += rng.choice([" AS x", " x"])
        sel = ", ".join(pre + up(f[n]) for n in fields)
        parts = []
        for n, k, v in conds:
            op = {"eq": "=", "ne": rng.choice(["<>", "!="]), "like": "LIKE", "nlike": "NOT LIKE"}[k]
            parts.append("%s %s '%s'" % (pre + up(f[n]), op, v))
        where = " WHERE " + " AND ".join(parts) if parts else ""
        x = rng.random()
        if x < 0.12:
            self.ask("count", "SELECT COUNT(*) FROM %s%s" % (rel, where), conds=conds, level=level)
        elif x < 0.24:
            self.ask(level, "SELECT DISTINCT %s FROM %s%s" % (sel, rel, where), conds=conds, fields=fields, distinct=True)
        elif x < 0.34 and level == "cols" and not self.shared:
            j = "SELECT %s FROM information_schema.columns AS x JOIN information_schema.tables AS y ON x.table_schema = y.table_schema AND x.table_name = y.table_name%s" % (
                ", ".join("x." + f[n] for n in fields), " WHERE " + " AND ".join("%s.%s %s '%s'" % (rng.choice("xy") if n in ("db", "tab") else "x", f[n], {"eq": "=", "ne": "<>", "like": "LIKE", "nlike": "NOT LIKE"}[k], v)
                                                                                 for n, k, v in conds) if conds else "")
            self.ask(level, j, conds=conds, fields=fields)
        else:
            pinned = {n for n, k, v in conds if k == "eq"}
            ordered = level == "cols" and "col" in fields and all(n in pinned or n in fields for n in ("db", "tab"))
            by = ["cat"] * self.shared + ["db", "tab"]
            order = ""
            pos = ordered and rng.random() < 0.5
            if pos:
                sel += ", " + pre + up("ordinal_position")
            if ordered and rng.random() < 0.5:
                order = " ORDER BY " + "".join(pre + f[n] + ", " for n in by if n not in pinned) + pre + "ordinal_position"
            self.ask(level, "SELECT %s FROM %s%s%s" % (sel, rel, where, order), conds=conds, fields=fields, ordered=ordered, pos=pos)

    def pattern(self, names=None):
        """a pattern that tells the names apart: one of them, changed here and there"""
        rng = self.rng
        pool = names or self.names or ["a"]
        s = rng.choice(pool)
        if rng.random() < 0.15:
            s = rng.choice(["information_schema", "mysql", "tables", "columns", "schemata", "user"])
        s = list(s[:20])
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
            i = rng.randrange(len(s) + 1)
            k = rng.random()
            if k < 0.25:
                s.insert(i, "%")
            elif k < 0.4 and s:
                s[min(i, len(s) - 1)] = "_"
            elif k < 0.6 and s:
                j = rng.randrange(i, len(s) + 1)
                s[i:j] = "%"
            elif k < 0.7:
                s.insert(i, "_")
            elif k < 0.8 and s:
                del s[min(i, len(s) - 1)]
            elif k < 0.85:
                s.insert(i, rng.choice(".*+?[](){}^|$-"))
            elif k < 0.9:
                s.insert(i, rng.choice(["\\_", "\\%"]))
            elif k < 0.95:
                s = s[i:]
            else:
                s = s[:i]
        s = "".join(s)
        if rng.random() < 0.06:
            s = rng.choice(["%", "_", "", "%%", "__", "_%", "%_"])
        # a backslash belongs to the wildcard after it
        out, i = "", 0
        while i < len(s):
            if s[i] == "\\" and s[i + 1:i + 2] not in ("_", "%"):
                i += 1
                continue
            out += s[i:i + 2] if s[i] == "\\" else s[i]
            i += 2 if s[i] == "\\" else 1
        return out

    def where(self):
        """some database, table of the schema"""
        rng = self.rng
        dbs = [(d, t) for dbs in list(self.cats.values()) + list(self.base.values()) * (rng.random() < 0.15) for d, tabs in dbs.items() for t in tabs]
        return rng.choice(dbs)

    def random_query(self):
        rng = self.rng
        like = self.pattern() if rng.random() < 0.6 else None
        x = rng.random() if not self.shared else 1
        d, t = self.where()
        home = self.cur if self.cur and self.cur not in BUILTIN else ""
        if self.depth == 2 and d == "":
            d = home
        if x < 0.1:
            self.dbs(like)
        elif x < 0.3:
            y = rng.random()
            self.tables(d if y < 0.5 else rng.choice(["information_schema", "mysql", "nosuch_1", rng.choice(self.names or ["x_1"])]) if y < 0.65 else "", like)
        elif x < 0.5:
            unq = self.unambiguous(d, t)
            self.columns("" if unq and rng.random() < 0.6 or not d else d, t, like) if d or unq else None
        elif x < 0.6:
            if self.unambiguous(d, t):
                self.fields(t, like)
        elif x < 0.66:
            self.variables(self.pattern(self.vars) if rng.random() < 0.9 else None)
        else:
            level = rng.choice(["dbs", "tabs", "cols", "cols"])
            conds = []
            if level != "dbs" and rng.random() < 0.7 and d:
                conds.append(("db", "eq", d))
            if level == "cols" and rng.random() < 0.6:
                conds.append(("tab", "eq", t))
            if rng.random() < 0.3:
                conds.append((rng.choice([n for n in FIELDS[level] if n not in ("cat", "ty")]), rng.choice(["ne", "nlike"]), self.pattern() if rng.random() < 0.7 else t))
            if like is not None:
                conds.append((rng.choice([n for n in FIELDS[level] if n not in ("cat", "ty")]), "like", like))
            conds = [(n, k, v.replace("\\_", "_").replace("\\%", "%") if k in ("ne", "eq") else v) for n, k, v in conds]
            self.select(level, conds)

    def unambiguous(self, d, t):
        """an unqualified name means this table: of the current database, or the only one of that name"""
        if self.cur:
            return self.cur == d or (self.depth == 2 and self.cur not in BUILTIN)
        return sum(fold(x) == fold(t) for m in (self.cats, self.base) for dbs in m.values() for tabs in dbs.values() for x in tabs) == 1

    def close(self):
        self.w.close()
        return self.done + [self.case]


def ty(rng, rich=False):
    return (rng.choice(TYPES), "NO" if rich and rng.random() < 0.4 else "YES", rng.choice(["x", "0", "CURRENT_TIMESTAMP", "", "日本", "a'b"]) if rich and rng.random() < 0.5 else None)


def run_schema(plan, queries, seed, base):
    """a schema of the model, and commands of the model"""
    rng = random.Random(seed)
    x, y = rng.sample(CHARS, 2)
    while fold(x) == fold(y):
        x, y = rng.sample(CHARS, 2)
    ren = {97: x, 98: y}
    tabs = {text(d, ren): {text(t, ren): {text(n, ren): ty(rng) for n in cols} for t, cols in ts} for d, ts in plan["dbs"]}
    depth = plan["depth"]
    if depth == 2:
        tabs = {"": list(tabs.values())[0]}
    cats = {"def": tabs}
    if depth == 4:
        names = rng.sample(["def", "cat1", "Cat_2", "x"], 2)
        cats = {}
        for d, v in tabs.items():
            cats.setdefault(rng.choice(names), {})[d] = v
    k = Case(depth, cats, text(plan["cur"], ren) or None, rng, base)
    for op, d, t, p in queries:
        d, t, p = text(d, ren), text(t, ren), None if p == [0] else text(p, ren)
        f = rng.random()
        if op == "dbs":
            k.dbs(p) if f < 0.5 else k.select("dbs", [("db", "like", p)] if p is not None else [])
        elif op == "tabs":
            eff = d or k.cur
            if f < 0.5 or not eff:
                k.tables(d, p)
            else:
                k.select("tabs", [("db", "eq", eff)] + ([("tab", "like", p)] if p is not None else []))
        else:
            if not d and not k.unambiguous(k.cur or "", t) and not k.cur:
                d = rng.choice(list(tabs))
                if not d:
                    continue
            if f < 0.25 and not d:
                k.fields(t, p)
            elif f < 0.6:
                k.columns(d, t, p)
            else:
                eff = d or k.cur
                k.select("cols", ([("db", "eq", eff)] if eff else []) + [("tab", "eq", t)] + ([("col", "like", p)] if p is not None else []))
    return k.close()


def run_like(level, pats, seed, base):
    """every short string as a name, every short pattern"""
    rng = random.Random(seed)
    x, y = rng.sample(CHARS, 2)
    while fold(x) == fold(y):
        x, y = rng.sample(CHARS, 2)
    ren = {97: x, 98: y}
    strs = [""]
    for _ in range(3):
        strs += [s + ch for s in strs[:] for ch in (x, y, "_") if len(s) == max(map(len, strs))]
    strs = sorted(set(strs) - {""})
    rng.shuffle(strs)
    if level == "dbs":
        dbs = {s: {} for s in strs}
        dbs[strs[0]] = {"t": {"c": ty(rng)}}
    elif level == "tabs":
        dbs = {"d": {s: {} for s in strs}}
        dbs["d"][strs[3]] = {"c": ty(rng)}
    else:
        dbs = {"d": {"t": {s: ty(rng) for s in strs}}}
    k = Case(3, {"def": dbs}, rng.choice([None, "d"]), rng, base)
    for p in pats:
        p = text(p, ren)
        f = rng.random()
        if level == "dbs":
            k.dbs(p) if f < 0.7 else k.select("dbs", [("db", "like", p)])
        elif level == "tabs":
            k.tables("d", p) if f < 0.7 else k.select("tabs", [("db", "eq", "d"), ("tab", "like", p)])
        else:
            k.columns("d", "t", p) if f < 0.5 else k.fields("t", p) if f < 0.75 else k.select("cols", [("db", "eq", "d"), ("col", "like", p)])
    return k.close()


def run_vars(seed, base):
    rng = random.Random(seed)
    k = Case(3, {"def": {"d": {"t": {"c": ty(rng)}}}}, None, rng, base)
    k.variables()
    for _ in range(60):
        k.variables(k.pattern(k.vars))
    return k.close()


def run_keyword(word, base):
    """DESCRIBE of a name that is a keyword for the parser"""
    rng = random.Random(word)
    k = Case(3, {"def": {"d_1": {word: {"c": ty(rng)}}}}, "d_1", rng, base)
    k.ask("kw", "DESCRIBE `%s`" % word, tab=word, take=2)
    return k.close()


def run_random(seed, base, n=14):
    rng = random.Random(seed)
    depth = rng.choice([2, 3, 3, 4, 4])
    rich = depth > 2 and rng.random() < 0.25
    if rich:
        try:
            from mysql_mimic.schema import Column, InfoSchema, info_schema_tables  # noqa: F401
        except ImportError:
            rich = False
    vocab = rng.sample(WORDS, rng.choice([4, 8, 16]))
    for _ in range(3):
        vocab.append("".join(rng.choice(CHARS + "___") for _ in range(rng.choice([1, 2, 3, 5, 9]))))
    w = rng.choice(vocab)
    vocab += [w[:-1] or "q", w + "s", "x" + w, w.replace("_", "x"), w + "_"]
    vocab = [v[:64] for v in vocab]

    def pick(n, ban=()):
        out = []
        for v in rng.sample(vocab, len(vocab)):
            if len(out) < n and fold(v) not in [fold(z) for z in out] + list(ban):
                out.append(v)
        return out

    cats = {}
    used = set()
    shared = depth == 4 and rng.random() < 0.25
    for c in ["def"] if depth < 4 else rng.sample(["def", "cat", "hive_1", "日"], rng.choice([1, 2, 3])):
        cats[c] = {}
        for d in pick(rng.choice([1, 1, 2, 3, 5]), used) if depth > 2 else [""]:
            if fold(d) in BUILTIN:
                continue
            used.add(fold(d)) if not shared else None
            cats[c][d] = {t: {n: ty(rng, rich) for n in pick(rng.choice([1, 1, 2, 3, 6, 12] if rich else [0, 1, 2, 3, 6, 12]))} for t in pick(rng.choice([1, 2, 4] if rich else [0, 1, 2, 4, 7]))}
    if not any(cols for dbs in cats.values() for tabs in dbs.values() for cols in tabs.values()):
        c, dbs = next((x for x in cats.items() if x[1]), (None, None))
        if c is None:
            cats = {"def": {"d1" if depth > 2 else "": {}}}
            dbs = cats["def"]
        dbs[next(iter(dbs))]["t1"] = {"a": ty(rng, rich)}
    cats = {c: v for c, v in cats.items() if v}
    dbs = [d for v in cats.values() for d in v if d]
    cur = rng.choice([None, rng.choice(dbs) if dbs else "db_1", rng.choice(dbs) if dbs else "db_1", "other_1", "information_schema", "mysql"])
    k = Case(depth, cats, cur, rng, base, rich)
    k.shared = shared
    for _ in range(n):
        if rng.random() < 0.12:
            k.use(rng.choice(dbs + ["other_1", "information_schema"]))
        if rng.random() < 0.08:
            k.evolve(vocab)
        k.random_query()
    return k.close()


def run(kind, *args):
    return {"schema": run_schema, "like": run_like, "vars": run_vars, "kw": run_keyword, "rand": run_random}[kind](*args)
