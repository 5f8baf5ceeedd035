"""Prepared statements with chosen texts and parameter values on the real server; records the text the application receives."""
from __future__ import annotations

import random
import re
import struct

from . import wire
from .wire import CAP, COM, P, T, pint, pstr, pnull, pfloat
from .world import World, RawSession
from mysql_mimic.errors import MysqlError

STR = ["", "'", "\\", "?", "\\'", "''", "a'b", "x\\", "\\\\", "' OR '1'='1", "'; DROP TABLE t; --", "\\0", "\\1", "\\g<0>", "%s", "{}", "{0}", "$1",
       ":a", "@x", "NULL", "5", "-5", "/*", "*/", "--", "#", "\n", "\r\n", "\0", "\x1a", "\t", "é", "日本", "😀", "\u2019", "`", '"', "\\%", "%_", "a\\nb",
       "?,?", "'?'", "\\u0027", " ", "'\\", "\\\n", "abc" * 100, "'" * 9, "\\" * 9, "x" * 255, "\u00a5", "\u02bc", "ÿ"]
NUM = re.compile(r"-?\s*(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?")


def cps(s):
    return [ord(c) for c in s]


def value(rng, allow_long=True):
    """-> (kind, wire param or None for long data, model value, chunks)"""
    k = rng.choice(["str"] * 5 + ["int"] * 3 + ["float", "float", "null", "bool"] + (["long"] * 2 if allow_long else []))
    if k in ("str", "long"):
        s = rng.choice(STR) if rng.random() < 0.75 else "".join(rng.choice("ab'\\?\"`-/*# \n%;é") for _ in range(rng.randrange(12)))
        ty = rng.choice(["VAR_STRING", "STRING", "VARCHAR", "BLOB", "TINY_BLOB", "MEDIUM_BLOB", "LONG_BLOB"])
        m = {"k": "str", "v": cps(s)}
        b = s.encode()
        if k == "str":
            return pstr(b, ty=ty), m, None
        chunks = []
        while b:
            n = rng.choice([1, 1, 2, 3, len(b), len(b)])
            chunks.append(b[:n])
            b = b[n:]
        if rng.random() < 0.3:
            chunks.insert(rng.randrange(len(chunks) + 1), b"")
        return P(T[ty], b"", longdata=True), m, chunks or [b""]
    if k == "int":
        ty = rng.choice(["TINY", "SHORT", "LONG", "INT24", "LONGLONG", "YEAR"])
        w = {"TINY": 8, "SHORT": 16, "YEAR": 16, "LONG": 32, "INT24": 32, "LONGLONG": 64}[ty]
        uns = rng.random() < 0.5
        lo, hi = (0, (1 << w) - 1) if uns else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        v = rng.choice([lo, hi, 0, 1, -1 if not uns else 1, rng.randint(lo, hi), hi // 2 + 1])
        return pint(v, ty, uns), {"k": "int", "neg": v < 0, "d": [int(c) for c in str(abs(v))]}, None
    if k == "float":
        v = rng.choice([0.0, 1.5, -2.25, 0.1, 1e-7, -1e-7, 1e22, 1e300, 5e-324, 123456.789, -0.0, 3.0, 1e16, rng.uniform(-9, 9)])
        ty = "DOUBLE"
        if rng.random() < 0.3:
            ty = "FLOAT"
            v = struct.unpack("<f", struct.pack("<f", rng.choice([0.5, 0.1, -3.25, 1e10, 1e-10])))[0]
        return pfloat(v, ty), {"k": "float", "v": list(struct.pack("<d", v))}, None
    if k == "bool":
        v = rng.random() < 0.5
        return P(T["BOOL"], bytes([v])), {"k": "bool", "v": v}, None
    return (pnull() if rng.random() < 0.5 else P(T["VAR_STRING"], None)), {"k": "null"}, None


SEG = ["SELECT ", "a = ", " AND b = ", "INSERT INTO t VALUES (", ", ", ",", ") ", " LIMIT", " LIMIT ", "'lit'", "'it''s ?'", "'\\'?'", '"q?"', '"a""?"',
       "`id?`", "`a``?`", " /* ? ' */ ", " -- ? '\n", " # ? \"\n", "x", " LIKE ", "+", "-", " - ", "/", "*", "=", "<>", "(", ")", ";", "1", ".5", "é", "\n", "\t", "  ",
       "@", "@@", "N", "_utf8mb4", "x", "%", "%s", "\\", ":", " IN (", "CASE WHEN ", " END", "''", "'\\\\'", "INTERVAL ", " DAY", "WHERE `a`='b' AND c="]


def template(rng):
    out = []
    n = rng.choice([1, 2, 3, 4, 8, 9, 10])
    for _ in range(n):
        out += [rng.choice(SEG) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        out.append("?")
    out += [rng.choice(SEG) for _ in range(rng.choice([0, 1, 1, 2]))]
    s = "".join(out)
    # texts that MySQL and other readers may lex differently are left out
    if re.search(r"--(?!\s)", s) or "/*" in re.sub(r"/\* \? ' \*/", "", s) or "\\" in re.sub(r"'[^']*'|\"[^\"]*\"", "", s):
        return template(rng)
    return s


def lexq(s):
    """Placeholders by a quick scan (the oracle is Sql.tla; this only decides how many values to send)."""
    return s.count("?")


def run_long(plan, seed):
    """a history of spec/LongMC.tla"""
    rng = random.Random(seed)
    got, fail = [], [False]

    async def q(sess, expr, sql, attrs):
        got.append(sql)
        if fail[0]:
            if rng.random() < 0.5:
                raise rng.choice([ValueError, KeyError, MysqlError])("x")

            def rows():
                yield (1,)
                raise ValueError("x")
            return rows(), ["a"]
        return rng.choice([None, ([(1,)], ["a"])])

    caps = wire.DEF_CAPS | (CAP["QUERY_ATTRIBUTES"] if rng.random() < 0.5 else 0)
    text = rng.choice(["SELECT ?, ?", "? ?", "INSERT INTO t VALUES (?,?)", "SELECT '?' , ?, `?`, ?"])
    case = {"text": cps(text), "announced": 2, "execs": [], "what": {"text": text, "seed": seed, "plan": [[x["op"], x["s"], x["p"], x["out"]] for x in plan], "received": []}}
    chunks = {k + 1: rng.choice([s for s in STR if s] + [""]) for k in range(len(plan))}
    with World(RawSession, on_query=q) as w:
        c = w.login(caps=caps)
        ids = {s: c.prepare(text).stmt_id for s in (1, 2)}
        for k, x in enumerate(plan):
            sid = ids[x["s"]].to_bytes(4, "little")
            if x["op"] == "long":
                c.rt(bytes([COM["STMT_SEND_LONG_DATA"]]) + sid + (x["p"] - 1).to_bytes(2, "little") + chunks[k + 1].encode())
            elif x["op"] == "reset":
                c.rt(bytes([COM["STMT_RESET"]]) + sid)
            elif x["op"] == "again":
                c.rt(bytes([COM["STMT_CLOSE"]]) + sid)
                ids[x["s"]] = c.prepare(text).stmt_id
            else:
                ps, vals = [], []
                for v in x["vals"]:
                    if v[0] == "long":
                        t = "".join(chunks[j] for j in v[1])
                        ps.append(P(T["BLOB"], b"", longdata=True))
                        vals.append({"k": "str", "v": cps(t)})
                    else:
                        while True:
                            wp, m, _ = value(rng, False)
                            if m["k"] != "float":
                                break
                        ps.append(wp)
                        vals.append(m)
                fail[0] = x["out"] == "fails"
                got.clear()
                payload = wire.com_stmt_execute(ids[x["s"]], caps, ps, None, int(rng.random() < 0.2))
                if x["out"] == "refused":
                    how = rng.choice(["nan", "text", "short", "flags", "types"])
                    i = rng.randrange(2)
                    if how in ("nan", "text") and not ps[i].longdata:
                        ps[i] = pfloat(float("nan")) if how == "nan" else pstr(b"\xff\xfe")
                        payload = wire.com_stmt_execute(ids[x["s"]], caps, ps)
                    elif how == "flags":
                        payload = wire.com_stmt_execute(ids[x["s"]], caps, ps, None, 4)
                    elif how == "types":
                        payload = wire.com_stmt_execute(ids[x["s"]], caps, ps, bound=0)
                    else:
                        payload = payload[:rng.randrange(11, 14)]
                r = wire.Resp(c.rt(payload), caps)
                if x["out"] == "ok":
                    case["execs"].append({"vals": vals, "nums": [], "got": [cps(g) for g in got], "err": repr(r.err)[:200] if r.kind not in ("ok", "rs") else r.kind})
                    case["what"]["received"].append(list(got))
    return case


def run(text, seed, execs=3, other=True):
    if isinstance(text, list):
        return run_long(text, seed)
    rng = random.Random(seed)
    got = []

    async def q(sess, expr, sql, attrs):
        got.append(sql)
        return rng.choice([None, ([(1,)], ["a"])])

    caps = wire.DEF_CAPS | (CAP["QUERY_ATTRIBUTES"] if rng.random() < 0.5 else 0)
    if rng.random() < 0.5:
        caps &= ~CAP["DEPRECATE_EOF"]
    case = {"text": cps(text), "announced": -1, "execs": [], "what": {"text": text, "seed": seed}}
    with World(RawSession, on_query=q) as w:
        c = w.login(caps=caps)
        o = c.prepare("SELECT ?, ?") if other else None
        p = c.prepare(text)
        if p.kind != "prepare":
            case["what"]["prepare"] = p.kind
            return case
        case["announced"] = p.num_params
        sid = p.stmt_id.to_bytes(4, "little")
        n = p.num_params
        shown = []
        for _ in range(execs):
            vals = [value(rng, n <= 20) for _ in range(n)]
            if other and rng.random() < 0.5:  # another statement's long data and executions
                c.rt(bytes([COM["STMT_SEND_LONG_DATA"]]) + o.stmt_id.to_bytes(4, "little") + b"\0\0" + b"OTHER")
                if rng.random() < 0.5:
                    c.execute(o.stmt_id, [P(T["BLOB"], b"", longdata=True), pint(1)])
            longs = [(i, ch) for i, v in enumerate(vals) for ch in v[2] or []]
            # chunks of one parameter stay in order, those of different parameters may interleave
            order = list(longs)
            if rng.random() < 0.5:
                keys = [i for i, _ in longs]
                rng.shuffle(keys)
                its = {i: iter([ch for j, ch in longs if j == i]) for i in set(keys)}
                order = [(i, next(its[i])) for i in keys]
            if rng.random() < 0.15 and n:
                c.rt(bytes([COM["STMT_SEND_LONG_DATA"]]) + sid + b"\0\0" + b"discarded")
                c.rt(bytes([COM["STMT_RESET"]]) + sid)
            for i, ch in order:
                c.rt(bytes([COM["STMT_SEND_LONG_DATA"]]) + sid + i.to_bytes(2, "little") + ch)
            attrs = [pstr(b"?'", b"k?"), pint(7, name=b"n")][: rng.choice([0, 1, 2])] if caps & CAP["QUERY_ATTRIBUTES"] else None
            got.clear()
            r = c.execute(p.stmt_id, [v[0] for v in vals], attrs, cursor=int(rng.random() < 0.2))
            nums = []
            for t in got:
                for m in NUM.finditer(t):
                    # a placeholder's literal may start anywhere inside what the regex takes for one numeral
                    for a in range(m.start(), m.end()):
                        s = t[a:m.end()]
                        if a == m.start() or (not t[a - 1].isalnum() and t[a - 1] not in "."):
                            try:
                                f = float(s.replace(" ", ""))
                            except ValueError:
                                continue
                            bits = [list(struct.pack("<d", f))]
                            for v in vals:
                                if v[0].ty == T["FLOAT"] and v[1]["k"] == "float":
                                    try:
                                        if struct.pack("<f", f) == v[0].raw:
                                            bits.append(v[1]["v"])
                                    except OverflowError:
                                        pass
                            nums += [[[ord(x) for x in s if x != " "], b] for b in bits]
            case["execs"].append({"vals": [v[1] for v in vals], "nums": nums if any(v[1]["k"] == "float" for v in vals) else [],
                                  "got": [cps(g) for g in got], "err": repr(r.err)[:200] if r.kind not in ("ok", "rs") else r.kind})
            shown.append({"values": [("".join(map(chr, v[1]["v"])) if v[1]["k"] == "str" else v[1], v[2]) for v in vals], "received": list(got)})
        case["what"]["execs"] = shown
    return case
