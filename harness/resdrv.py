"""Results with known values through the real server, in the text and binary protocols and through cursors."""
from __future__ import annotations

import datetime as dt
import decimal
import enum
import random
import struct

from . import wire
from .wire import CAP, COM
from .world import World, RawSession
from mysql_mimic.results import ResultColumn, ResultSet
from mysql_mimic.types import ColumnType as CT
from mysql_mimic.charset import CharacterSet

INTS = {"TINY": (-128, 127), "SHORT": (-(1 << 15), (1 << 15) - 1), "INT24": (-(1 << 23), (1 << 23) - 1),
        "LONG": (-(1 << 31), (1 << 31) - 1), "LONGLONG": (-(1 << 63), (1 << 63) - 1), "YEAR": (1901, 2155)}
# collations of the character sets, python codec, some representable characters
CS = {
    "utf8mb4": ([45, 46] + list(range(224, 248)) + list(range(255, 324)), "utf-8", "aZ é߀日😀\0"),
    "latin1": ([5, 8, 15, 31, 47, 48, 49, 94], "latin-1", "aZ éß¿"),
    "latin2": ([2, 9, 21, 27, 77], "iso8859-2", "aZ łŁőß"),
    "cp1251": ([14, 23, 50, 51, 52], "cp1251", "aZ Яжє"),
    "gbk": ([28, 87], "gbk", "aZ 中文"),
    "utf16": ([54, 55] + list(range(101, 125)), "utf-16-be", "aZ é日😀"),
    "utf32": ([60, 61] + list(range(160, 184)), "utf-32-be", "aZ é日😀"),
    "ucs2": ([35, 90] + list(range(128, 152)), "utf-16-be", "aZ é日"),
    "koi8r": ([7, 74], "koi8-r", "aZ Яж"),
    "ascii": ([11, 65], "ascii", "aZ 09\0"),
    "greek": ([25, 70], "iso8859-7", "aZ αΩ"),
}
STRT = ["VARCHAR", "VAR_STRING", "STRING", "ENUM", "SET", "JSON", "TINY_BLOB", "MEDIUM_BLOB", "LONG_BLOB", "BLOB", "GEOMETRY", "BIT"]
BYTET = ["BLOB", "TINY_BLOB", "MEDIUM_BLOB", "LONG_BLOB", "GEOMETRY", "BIT", "VARCHAR", "VAR_STRING", "STRING"]
KINDS = ["int", "str", "float", "bool", "bytes", "date", "datetime", "time", "decimal", "bigint"]


class Col(enum.IntEnum):
    red = 3


def text(rng, alpha):
    n = rng.choice([0, 1, 2, 5, 5, 20] + ([250, 251, 252, 300] if rng.random() < 0.1 else []))
    s = "".join(rng.choice(alpha) for _ in range(n))
    return rng.choice([s, s, s, "NULL", "0", "'\"\\%"])


def gen(kind, t, cs, rng):
    """-> (python value, model value)"""
    if kind == "int":
        lo, hi = INTS.get(t, (-(1 << 63), (1 << 63) - 1))
        v = rng.choice([lo, hi, 0, 1, -1, rng.randint(lo, hi), rng.randint(-300, 300)])
        if t == "YEAR":
            v = rng.choice([0, lo, hi, rng.randint(lo, hi)])
        return (min(hi, max(v, lo if t != "YEAR" else 0)),) * 1 + (None,)
    if kind == "bigint":
        return rng.choice([1 << 63, -(1 << 63) - 1, (1 << 64) - 1, 10 ** 30, -10 ** 19, (1 << 63) + 1]), None
    if kind == "bool":
        return rng.random() < 0.5, None
    if kind == "str":
        return text(rng, CS[cs][2]), None
    if kind == "bytes":
        return bytes(rng.choice([0, 254, 255, 251, 65, rng.randrange(256)]) for _ in range(rng.choice([0, 1, 2, 9, 255, 256] if rng.random() < 0.1 else [0, 1, 2, 9]))), None
    if kind == "float":
        if t == "FLOAT":
            return struct.unpack("<f", struct.pack("<f", rng.choice([0.0, -0.0, 1.5, -2.25, 3.4e38, 1e-38, 0.1, 16777217.0, rng.uniform(-1e6, 1e6)])))[0], None
        return rng.choice([0.0, -0.0, 1.5, -2.25, 0.1, 1e308, -1e-308, 5e-324, 1e22, 123456789.123456789, 1e16, rng.uniform(-1, 1), rng.uniform(-1e20, 1e20)]), None
    us = rng.choice([0, 0, 1, 6, 100000, 999999, rng.randrange(1000000)])
    if kind == "date":
        return rng.choice([dt.date(1, 1, 1), dt.date(9999, 12, 31), dt.date(2020, 2, 29), dt.date(999, 9, 9), dt.date(rng.randint(1, 9999), rng.randint(1, 12), rng.randint(1, 28))]), None
    if kind == "datetime":
        h, m, s = rng.choice([(0, 0, 0), (0, 0, 0), (0, 0, 1), (0, 5, 0), (23, 59, 59), (rng.randrange(24), rng.randrange(60), rng.randrange(60))])
        return dt.datetime(rng.choice([1, 1970, 2024, 9999, rng.randint(1, 9999)]), rng.randint(1, 12), rng.randint(1, 28), h, m, s, us), None
    if kind == "time":
        base = rng.choice([0, 0, 1, 59, 60, 3599, 3600, 86399, 86400, 86401, 100 * 3600, 838 * 3600 + 3599, rng.randrange(3020400), rng.randrange(86400)])
        v = dt.timedelta(seconds=base, microseconds=us)
        return (v if rng.random() < 0.5 else -v), None
    if kind == "decimal":
        return decimal.Decimal(rng.choice(["0", "1.50", "-3.14159", "123456789012345678901234567890.123", "0.000001", "-0.5"])), None
    raise AssertionError(kind)


def model(v, t, cs):
    if v is None:
        return {"k": "null"}
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return {"k": "int", "neg": v < 0, "d": [int(c) for c in str(abs(v))]}
    if isinstance(v, float):
        try:
            b4 = list(struct.pack("<f", v))
        except OverflowError:
            b4 = []
        return {"k": "float", "b": list(struct.pack("<d", v)), "b4": b4}
    if isinstance(v, decimal.Decimal):
        return {"k": "dec", "b": list(format(v, "f").encode())}
    if isinstance(v, str):
        return {"k": "bytes", "b": list(v.encode(CS[cs][1]))}
    if isinstance(v, bytes):
        return {"k": "bytes", "b": list(v)}
    if isinstance(v, dt.datetime):
        return {"k": "date", "f": [v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond]}
    if isinstance(v, dt.date):
        return {"k": "date", "f": [v.year, v.month, v.day, 0, 0, 0, 0]}
    us = round(v / dt.timedelta(microseconds=1)) if abs(v) < dt.timedelta(days=1) else (v.days * 86400 + v.seconds) * 1000000 + v.microseconds
    neg, us = us < 0, abs(us)
    s, us = divmod(us, 1000000)
    return {"k": "time", "neg": neg, "f": [s // 3600, s // 60 % 60, s % 60, us]}


def coltype(kind, rng):
    return {"int": list(INTS), "str": STRT, "float": ["FLOAT", "DOUBLE", "DOUBLE"], "bool": ["TINY", "BOOL"], "bytes": BYTET,
            "date": ["DATE"], "datetime": ["DATETIME", "TIMESTAMP"], "time": ["TIME"], "decimal": ["DECIMAL", "NEWDECIMAL"],
            "bigint": ["NEWDECIMAL", "DECIMAL"], "null": ["NULL", "LONGLONG", "TIME", "VARCHAR"]}[kind]


NAMES = ["a", "b", "A", "", "a b", "é日", "x" * 251, "count(*)", "`q`", "'"]


class Source:
    """An AsyncIterable that is no generator."""

    def __init__(self, rows):
        self.rows = rows

    def __aiter__(self):
        async def g():
            for r in self.rows:
                yield r
        return g()


class OneShot:
    def __init__(self, rows):
        self.it = iter(rows)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)


def make_source(rows, how):
    if how == "list":
        return list(rows)
    if how == "tuple":
        return tuple(rows)
    if how == "gen":
        return (r for r in rows)
    if how == "iter":
        return OneShot(rows)
    if how == "agen":
        async def g():
            for r in rows:
                yield r
        return g()
    return Source(rows)


def job(plan, seed):
    """plan: named columns and the NULL pattern; everything else is drawn from the seed."""
    rng = random.Random(seed)
    named, src = plan["named"], plan["src"]
    n = len(named)
    dup = rng.random() < 0.4
    names = [rng.choice(NAMES[:2] if dup else NAMES) for _ in range(n)]
    kinds = [rng.choice(KINDS) for _ in range(n)]
    allnull = [all(r[c] for r in src) for c in range(n)]
    cols, meta, types, css = [], [], [], []
    for c in range(n):
        k = kinds[c]
        if named[c]:
            t, cs = None, "utf8mb4"
            if k == "float":
                t = "DOUBLE"
            cols.append(names[c])
            meta.append({"name": list(names[c].encode()), "type": -1, "cs": []})
        else:
            if allnull[c] and src and rng.random() < 0.5:
                k = "null"
            t = rng.choice(coltype(k, rng))
            cs = rng.choice(list(CS)) if k == "str" else "utf8mb4"
            cols.append(ResultColumn(names[c], CT[t], CharacterSet[cs]))
            meta.append({"name": list(names[c].encode()), "type": int(CT[t]), "cs": CS[cs][0] if k == "str" else []})
        types.append(t)
        css.append(cs)
    rowlike = rng.choice([list, tuple])
    rows = [rowlike(None if nul else gen(kinds[c], types[c], css[c], rng)[0] for c, nul in enumerate(r)) for r in src]
    if rng.random() < 0.2 and len(rows) > 1:
        for i in range(1, len(rows)):
            rows[i] = rows[0] if rng.random() < 0.5 else rows[i]
    # a truth value is an integer, too (once the type of its column is settled)
    for c in range(n):
        if kinds[c] == "int" and rng.random() < 0.3:
            first = next((i for i, r in enumerate(rows) if r[c] is not None), len(rows)) if named[c] else -1
            for i in range(first + 1, len(rows)):
                if rows[i][c] is not None and rng.random() < 0.3:
                    rows[i] = rowlike([*rows[i][:c], rng.random() < 0.5, *rows[i][c + 1:]])
    mrows = [[model(v, types[c], css[c]) for c, v in enumerate(r)] for r in rows]
    how = [rng.choice(["list", "tuple", "gen", "iter", "agen", "aiterable"]) for _ in range(3)]
    asrs = rng.random() < 0.4 and not any(named)
    dep = rng.random() < 0.5
    caps = wire.DEF_CAPS if dep else wire.DEF_CAPS & ~CAP["DEPRECATE_EOF"]
    turn = iter(how)

    async def on_query(sess, expr, sql, attrs):
        s = make_source(rows, next(turn))
        return ResultSet(s, cols) if asrs else (s, cols)

    out = []
    with World(RawSession, on_query=on_query) as w:
        c = w.login(caps=caps)
        what = {"columns": [repr(x) for x in cols], "rows": [repr(r)[:200] for r in rows[:6]], "sources": how, "seed": seed, "plan": plan}

        def case(proto, pk, failed=""):
            fobs = []
            body = [p for _, p in pk]
            if proto == "text":
                bodyrows = body[1 + n + (0 if dep else 1):-1]
                for r, m in zip(bodyrows, mrows):
                    cells = []
                    rd = wire.Rd(r)
                    try:
                        while rd.left:
                            cells.append(rd.lestr())
                    except (ValueError, TypeError):
                        pass
                    o = []
                    for k in range(n):
                        x = []
                        if m[k]["k"] == "float" and k < len(cells) and cells[k]:
                            try:
                                f = float(cells[k])
                                x = list(struct.pack("<d", struct.unpack("<f", struct.pack("<f", f))[0] if types[k] == "FLOAT" else f))
                            except (ValueError, OverflowError):
                                pass
                        o.append(x)
                    fobs.append(o)
            else:
                fobs = [[[]] * n for _ in mrows]
            while len(fobs) < len(mrows):
                fobs.append([[]] * n)
            out.append({"proto": proto, "dep": dep, "cols": meta, "rows": mrows, "pk": [list(b) for b in body], "fobs": fobs,
                        "failed": failed, "what": what})

        def bad(r):
            return "" if r.kind == "rs" else repr((r.kind, r.err))[:200]

        r = c.query("SELECT x FROM t")
        case("text", r.pkts, bad(r))
        p = c.prepare("SELECT x FROM t")
        if p.kind == "prepare":
            r = c.execute(p.stmt_id)
            case("bin", r.pkts, bad(r))
            r = c.execute(p.stmt_id, cursor=1)
            pk, failed = list(r.pkts[:1 + n]), bad(r)
            for _ in range(len(rows) + 2):
                if failed:
                    break
                size = rng.choice([1, 2, len(rows) + 1] if len(rows) < 2000 else [997, 4096, len(rows) + 1])
                f = c.fetch(p.stmt_id, size)
                failed = bad(f)
                pk += f.pkts[:-1]
                if f.status is not None and f.status & 128 or len(f.pkts) - 1 < size:
                    break
            case("cursor", pk, failed)
    return out
