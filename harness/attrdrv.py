"""Query attributes on COM_QUERY and COM_STMT_EXECUTE; records payloads and what the application receives."""
from __future__ import annotations

import random
import struct

from . import wire
from .wire import CAP, COM, P, T, lenenc, pint, pstr, pnull, pfloat
from .world import World, RawSession, AppSession
from mysql_mimic.constants import DEFAULT_SERVER_CAPABILITIES
from mysql_mimic.types import Capabilities

TEXTS = [b"SELECT 1", b"\x01\x01", b"\x00\x01SELECT 1", b"\x01\x01\x00\x01\x0f\x00\x01n\x01v", b"", b"x", b"\x02\x01\x00", "SELECT 'é日'".encode(),
         b"SELECT ? , '?'", b"/* c */ SELECT 1 -- x", b" \n", b"(SELECT 1)", b"\x08\x00", b"SELECT 1;"]
# for a session of the library: the number of statements for the application
APP = [(b"SELECT a FROM t", 1), (b"SELECT a FROM t; SELECT b FROM t", 2), ("SELECT 'é' FROM t;SELECT b FROM t ;; INSERT INTO t VALUES (1)".encode(), 3), (b"SET autocommit = 1; SELECT a FROM t", 1),
       (b"USE db1; SELECT a FROM t; USE db2", 1), (b"SELECT 1; SELECT a FROM t; SELECT 2; SELECT b FROM t", 2), (b"/* x */ SELECT /*+ SET_VAR(sql_mode='') */ a FROM t", 1), (b"SHOW DATABASES; DELETE FROM t", 1),
       (b"SELECT 1", 0), (b"BEGIN; UPDATE t SET a = 1; COMMIT; SELECT a FROM t", 2)]
NAMES = ["n", "name", "é", "日本", "a b", "?", "'", "x" * 250, "y" * 251, "z" * 300, "0", "N", "traceparent", "\t", "%s", "{}"]


def val(v):
    if v is None:
        return {"k": "null"}
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return {"k": "int", "neg": v < 0, "d": [int(c) for c in str(abs(v))]}
    if isinstance(v, float):
        return {"k": "float", "v": list(struct.pack("<d", v))}
    if isinstance(v, str):
        return {"k": "str", "v": list(v.encode("utf-8", "surrogatepass"))}
    return {"k": type(v).__name__, "v": repr(v)}


def param(kind, name, rng, f4):
    if kind == "null":
        return rng.choice([pnull(name), P(T["VAR_STRING"], None, False, name), P(T["LONGLONG"], None, False, name)])
    if kind == "str":
        s = rng.choice(["", "v", "é", "日本語", "'", "?", "\\", "\0", "NULL", "5", "x" * 250, "x" * 251, "a" * 255, "b" * 256] + (["q" * 65535, "q" * 65536] if rng.random() < 0.02 else []))
        return pstr(s.encode(), name, rng.choice(["VAR_STRING", "STRING", "VARCHAR", "BLOB", "TINY_BLOB", "MEDIUM_BLOB", "LONG_BLOB"]))
    if kind == "float" or (kind in ("tiny", "utiny", "long") and rng.random() < 0.15):
        v = rng.choice([0.0, 1.5, -0.1, 1e300, -1e-300, 3.0, 123456.789])
        if rng.random() < 0.4:
            p = pfloat(rng.choice([0.5, 0.1, -3.25, 1e10]), "FLOAT", name)
            f4.append([list(p.raw), list(struct.pack("<d", struct.unpack("<f", p.raw)[0]))])
            return p
        return pfloat(v, "DOUBLE", name)
    uns = kind == "utiny" or (kind == "long" and rng.random() < 0.5)
    ty = rng.choice(["TINY", "SHORT", "LONG", "INT24", "LONGLONG", "YEAR"])
    w = {"TINY": 8, "SHORT": 16, "YEAR": 16, "LONG": 32, "INT24": 32, "LONGLONG": 64}[ty]
    lo, hi = (0, (1 << w) - 1) if uns else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    return pint(rng.choice([lo, hi, 0, 1, hi // 2 + 1, hi - 1, rng.randint(lo, hi)]), ty, uns, name)


def run(plan, seed):
    rng = random.Random(seed)
    calls = []

    async def q(sess, expr, sql, attrs):
        calls.append({"sql": list(sql.encode("utf-8", "surrogatepass")), "attrs": [[list(k.encode()), val(v)] for k, v in dict(attrs).items()]})
        return rng.choice([None, ([(1,)], ["a"])])

    app = rng.random() < 0.35
    qa, np_, f4 = plan["qa"], plan["np"], []
    caps = wire.DEF_CAPS
    server = int(DEFAULT_SERVER_CAPABILITIES)
    asked = caps
    if qa:
        caps |= CAP["QUERY_ATTRIBUTES"]
        asked = caps
    elif rng.random() < 0.4:  # one side alone wants them
        if rng.random() < 0.5:
            asked |= CAP["QUERY_ATTRIBUTES"]
            server &= ~CAP["QUERY_ATTRIBUTES"]
    else:
        server &= ~CAP["QUERY_ATTRIBUTES"] if rng.random() < 0.5 else -1
    cases = []
    with World(AppSession if app else RawSession, on_query=q, server_kwargs={"capabilities": Capabilities(server)}) as w:
        c = w.connect(caps)
        c.greet()
        raw = wire.handshake_response(b"u", b"", None, asked)
        pk = c.rt(raw, 1)
        base = {"cmd": plan["cmd"], "qa": qa, "np": np_, "long": [], "n": 1, "f4": f4, "calls": [], "base": [], "payload": [], "err": repr(pk)[:80],
                "ok": bool(pk) and pk[-1][1][:1] == b"\0", "what": {"plan": plan, "seed": seed}}
        if not base["ok"]:
            return [base]
        text, more = rng.choice(TEXTS), [b"", b""]
        if app:
            text, base["n"] = rng.choice(APP)
            if plan["cmd"] == "exec":
                text, base["n"] = rng.choice([(b" FROM t", 1), (b" FROM t; SELECT a FROM t", 2), (b" FROM t; SET autocommit = 1; DELETE FROM t ; SELECT b FROM t", 3)])
                more = [text, text]
        names = [n.encode() for n in rng.sample(NAMES, min(len(NAMES), len(plan["items"])))]
        names += [b"n%d" % i for i in range(len(plan["items"]) - len(names))]
        if rng.random() < 0.05 and names:
            names[-1] = b""
        stmts = []
        if plan["cmd"] == "exec":
            for k in range(2):
                p = c.prepare("SELECT " + ", ".join(["?"] * np_ or ["1"]) + more[k].decode() + (" -- é\n" if k else ""))
                if p.kind != "prepare" or p.num_params != np_:
                    base.update(ok=False, err="prepare")
                    return [base]
                stmts.append(p.stmt_id)
        for rep in range(3):
            case = dict(base, long=[], calls=[], f4=list(f4))
            items = plan["items"]
            if rep and qa and (np_ or plan["flag"] or plan["cmd"] == "query"):
                items = items[:np_] + [rng.choice(["str", "tiny", "utiny", "null", "long", "float"]) for _ in range(rng.choice([0, 1, 2, 5, len(items) - np_]))]
                while len(names) < len(items):
                    names.append(b"m%d" % len(names))
            if plan["cmd"] == "query":
                ps = [param(k, n, rng, case["f4"]) for k, n in zip(items, names)]
                payload = wire.com_query(text if rep != 1 or app else rng.choice(TEXTS), caps, ps)
            else:
                ps = [param(k, b"", rng, case["f4"]) for k in items[:np_]]
                at = [param(k, n, rng, case["f4"]) for k, n in zip(items[np_:], names[np_:])]
                sid = rng.choice(stmts)
                if np_ and rng.random() < 0.3:
                    k = rng.randrange(np_)
                    if not ps[k].null:
                        ps[k] = P(T["BLOB"], b"", longdata=True)
                        case["long"].append(k)
                head = bytes([COM["STMT_EXECUTE"]]) + sid.to_bytes(4, "little") + bytes([8 if qa and (plan["flag"] or (at and not np_)) else 0]) + b"\1\0\0\0"
                n = len(ps) + len(at)

                def body(ps, at):
                    out = head
                    if qa and (np_ or head[5] & 8):
                        out += lenenc(len(ps) + len(at))
                    return out + (wire.param_block(ps + at, qa) if ps or at else b"")

                def long():
                    for k in case["long"]:
                        c.rt(bytes([COM["STMT_SEND_LONG_DATA"]]) + sid.to_bytes(4, "little") + k.to_bytes(2, "little") + b"long '?")

                long()
                calls.clear()
                c.rt(body(ps, []))  # without attributes
                case["base"] = calls[0]["sql"] if len(calls) == base["n"] else [0]
                long()
                payload = body(ps, at)
            calls.clear()
            case["payload"] = list(payload)
            r = c.rt(payload)
            case["calls"] = list(calls)
            case["err"] = repr(r[-1:])[:160]
            cases.append(case)
    return cases
