"""Replays exchanges of spec/Auth.tla on the real server: symbolic responses become bytes, packets become symbols."""
from __future__ import annotations

import random
import sys
import types

from . import wire
from .wire import CAP, COM
from .world import World, AppSession, Provider
from mysql_mimic.auth import AuthPlugin, Forbidden, Success, User, KerberosAuthPlugin, NativePasswordAuthPlugin, NoLoginAuthPlugin, AbstractClearPasswordAuthPlugin

NATIVE, CLEAR = "mysql_native_password", "mysql_clear_password"
ACCOUNTS = [
    dict(name="np", plugin="native", pw="p1", old="-", ident="np"),
    dict(name="nn", plugin="native", pw="-", old="-", ident="nn"),
    dict(name="n2", plugin="native", pw="p1", old="p2", ident="real_n2"),
    dict(name="no", plugin="native", pw="-", old="p2", ident="no"),
    dict(name="nb", plugin="native", pw="!", old="-", ident="nb"),
    dict(name="nbo", plugin="native", pw="!", old="p2", ident="nbo"),
    dict(name="cl", plugin="clear", pw="p1", old="-", ident="id_cl"),
    dict(name="nl", plugin="nologin", pw="p1", old="-", ident="nl"),
    dict(name="dp", plugin="-", pw="p1", old="-", ident="dp"),
    dict(name="up", plugin="absent", pw="p1", old="-", ident="up"),
    dict(name="c2", plugin="clear2", pw="p2", old="-", ident="id_c2"),
    dict(name="ts", plugin="twostep", pw="p1", old="p2", ident="id_ts"),
    dict(name="kb", plugin="kerberos", pw="p1", old="-", ident="id_kb"),
    dict(name="nl0", plugin="nologin", pw="-", old="-", ident="nl0"),
]
CONFIGS = [["native", "nologin"], ["native", "clear", "nologin"], ["clear", "native", "nologin"],
           ["nologin", "native", "clear"], ["clear", "clear2", "native", "nologin"], ["clear2", "twostep", "clear", "native"],
           ["twostep", "native", "clear"], ["kerberos", "native"], ["native", "kerberos", "clear"]]
MALFORMED = ["zz", "not hex at all", "abc", "*" + "A" * 40, "é", "00", "da39a3ee5e6b4b0d3255bfef95601890afd80709" + "00"]


class GSSError(Exception):
    pass


class Ticketing:
    """Stands in for a Kerberos library: a ticket is "TICKET:principal" and verifies if nothing is wrong with it."""

    def __init__(self, *args, **kwargs):
        self.initiator_name = None
        self.complete = False

    def step(self, token=None):
        if not token or not bytes(token).startswith(b"TICKET:"):
            raise GSSError("invalid token")
        self.initiator_name = bytes(token)[7:].decode()
        self.complete = True


def stub_gssapi():
    m, e, r = types.ModuleType("gssapi"), types.ModuleType("gssapi.exceptions"), types.ModuleType("gssapi.raw")
    m.Credentials = m.Name = Ticketing
    m.SecurityContext = Ticketing
    m.NameType = types.SimpleNamespace(hostbased_service=1, kerberos_principal=2, user=3)
    m.exceptions, m.raw, m.__path__ = e, r, []
    e.GSSError = r.GSSError = GSSError
    sys.modules.update({"gssapi": m, "gssapi.exceptions": e, "gssapi.raw": r})


stub_gssapi()


def cfg_json(ci):
    return {"plugins": CONFIGS[ci - 1], "default": CONFIGS[ci - 1][0], "accounts": ACCOUNTS}


def password(rng):
    n = rng.choice([1, 2, 5, 8, 20, 21, 40, 200])
    alpha = rng.choice(["abcXYZ019", "pä€😀ß日本", " '\"\\%_\t", "".join(map(chr, range(1, 128)))])
    return "".join(rng.choice(alpha) for _ in range(n)).encode()[:240].decode("utf-8", "ignore")


class Sess(AppSession):
    def _rec(self, *ev):
        self.calls.append((ev[0], self.username))


class Driver:
    def __init__(self, ci, seed):
        self.rng = rng = random.Random(seed)
        self.ci = ci
        while True:
            pws = [password(rng) for _ in range(3)]
            if len(set(pws)) == 3:
                break
        self.pw = dict(zip(("p1", "p2", "px"), pws))
        self.pw["-"] = ""
        clear_pw = {a["name"]: self.pw[a["pw"]] for a in ACCOUNTS if a["plugin"] in ("clear", "clear2", "-", "absent")}

        other_pw, offered = self.pw["px"], CONFIGS[ci - 1]

        class Clear(AbstractClearPasswordAuthPlugin):
            name = "my_clear"
            mine = ("clear", "-", "absent")

            async def check(self, username, password):
                a = next((a for a in ACCOUNTS if a["name"] == username), None)
                if a is None:
                    return None
                if a["plugin"] not in self.mine:  # the same name means somebody else here
                    return "other_" + username if password == other_pw and a["plugin"] in offered else None
                return a["ident"] if clear_pw.get(username) == password else None

        class Clear2(Clear):
            name = "my_clear2"
            mine = ("clear2", "-", "absent")

        pws = self.pw
        real_pws = ("p1", "p2")

        class TwoStep(AuthPlugin):
            name = "my_twostep"
            client_plugin_name = CLEAR

            async def auth(self, auth_info=None):
                if not auth_info:
                    auth_info = yield b"first?"
                a = next(a for a in ACCOUNTS if a["name"] == auth_info.username)
                good = a["pw"] in real_pws and auth_info.data == pws[a["pw"]].encode() + b"\0"
                auth_info = yield b"second?"
                good = good and a["old"] in real_pws and auth_info.data == pws[a["old"]].encode() + b"\0"
                yield Success(a["ident"]) if good else Forbidden()

        real = {"native": "mysql_native_password", "nologin": "mysql_no_login", "clear": "my_clear", "clear2": "my_clear2",
                "twostep": "my_twostep", "kerberos": "authentication_kerberos", "-": None, "absent": "not_offered"}
        make = {"native": NativePasswordAuthPlugin, "nologin": NoLoginAuthPlugin, "clear": Clear, "clear2": Clear2, "twostep": TwoStep,
                "kerberos": lambda: KerberosAuthPlugin("mysql/db.example.com", "EXAMPLE.COM")}

        def stored(p):
            if p == "-":
                return rng.choice([None, ""])
            if p == "!":
                return rng.choice(MALFORMED)
            s = wire.native_auth_string(self.pw[p].encode())
            return s

        users = {}
        for a in ACCOUNTS:
            users[a["name"]] = User(name=a["ident"], auth_string=stored(a["pw"]), auth_plugin=real[a["plugin"]],
                                    old_auth_string=stored(a["old"]))
        self.users = users
        self.w = World(Sess, provider=Provider(users, [make[p]() for p in CONFIGS[ci - 1]]), watchdog=4.0)
        self.nonces = {}
        self.other = self.w.connect()
        self.other.greet()
        self.note(self.other.greeting["nonce_full"])
        self.all_nonces = [bytes(self.other.greeting["nonce_full"][:20])] if CONFIGS[ci - 1][0] == "native" else []
        self.conn()

    def note(self, b):
        return self.nonces.setdefault(bytes(b[:20]), len(self.nonces))

    def conn(self, caps=wire.DEF_CAPS):
        self.c = self.w.connect(caps)
        self.steps = []
        self.sess = None
        self.ncalls = 0
        self.seq = 0
        self.hs = self.cur = None
        self.cur_plugin = None
        self.caps = caps

    def observe(self, send):
        self.w.pump()
        out = []
        for seq, p in self.c.recv():
            self.seq = (seq + 1) & 255
            t = p[:1]
            o = {"k": "other", "plugin": "", "nonce": -1, "bytes": []}
            if send["t"] == "open" and t == b"\x0a":
                g = self.c.greeting = wire.parse_handshake_v10(p)
                name = (g["plugin"] or b"").decode("latin1")
                o = {"k": "greet", "plugin": name, "nonce": self.note(g["nonce_full"]), "bytes": list(g["nonce_full"])}
                self.hs = g["nonce_full"][:20]
                self.cur = None
                if name == NATIVE:
                    self.all_nonces.append(bytes(self.hs))
            elif t == b"\x00":
                o["k"] = "ok"
            elif t == b"\xff":
                o["k"] = "err"
            elif t == b"\xfe" and b"\0" in p[1:]:
                name, data = p[1:].split(b"\0", 1)
                o = {"k": "chal", "plugin": name.decode("latin1"), "nonce": self.note(data), "bytes": list(data)}
                self.cur, self.cur_plugin = data[:20], name.decode("latin1")
            elif t == b"\x01" and send["t"] in ("hs", "resp", "chuser"):
                data = p[1:]
                o = {"k": "chal", "plugin": "", "nonce": self.note(data), "bytes": list(data)}
                self.cur = data[:20]
            if o["k"] == "chal" and (o["plugin"] or self.cur_plugin) == NATIVE:
                self.all_nonces.append(bytes(self.cur))
            out.append(o)
        if self.w.sessions:
            mine = [s for s in self.w.sessions if s.idx == self.sidx]
            self.sess = mine[0] if mine else None
        calls = []
        if self.sess is not None:
            calls = [{"c": c, "user": "-" if u is None else str(u)} for c, u in self.sess.calls[self.ncalls:]]
            self.ncalls = len(self.sess.calls)
            user = "-" if self.sess.username is None else str(self.sess.username)
        else:
            user = "-"
        self.steps.append({"send": send, "out": out, "calls": calls, "username": user, "closed": bool(self.c.closed)})
        return out

    def open(self):
        self.sidx = len(self.w.sessions)
        # the factory runs when the connection task starts
        self.observe({"t": "open"})
        self.sidx = max(0, len(self.w.sessions) - 1)

    def nonce_bytes(self, sym):
        if sym == 9:
            return self.other.greeting["nonce_full"][:20]
        if sym == 1:
            return self.hs
        return self.cur if self.cur is not None else self.hs

    def retune(self, p, nonce, pos, byte):
        """Chooses the password p anew, such that its proof under this nonce has that byte there."""
        k = self.rng.randrange(1 << 20)
        while wire.native_scramble(b"pw%d" % k, nonce)[pos] != byte:
            k += 1
        self.pw[p] = "pw%d" % k
        for a in ACCOUNTS:
            if a["pw"] == p:
                self.users[a["name"]].auth_string = wire.native_auth_string(self.pw[p].encode())
            if a["old"] == p:
                self.users[a["name"]].old_auth_string = wire.native_auth_string(self.pw[p].encode())

    def concrete(self, r):
        """-> (bytes or None for EOF, response as judged)"""
        k, rng = r["k"], self.rng
        j = {"k": k, "pw": r["pw"], "nonce": -1, "mut": r["mut"]}
        if k == "scr":
            nb = self.nonce_bytes(r["nonce"])
            j["nonce"] = self.note(nb)
            if "tune" in r:
                self.retune(r["pw"], nb, *r["tune"])
            b = wire.native_scramble(self.pw[r["pw"]].encode(), nb)
            if r["mut"] == "flip":
                bit = r.get("at", rng.randrange(160))
                b = bytearray(b)
                b[bit // 8] ^= 1 << bit % 8
                b = bytes(b)
            elif r["mut"] == "trunc":
                b = b[: r.get("at", rng.randrange(1, 20))]
            elif r["mut"] == "ext":
                b += bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 20])))
            elif r["mut"] == "behead":
                b = b[1:]
            elif r["mut"] == "zero":
                b = bytes(20)
            elif r["mut"] == "hash":  # what is stored, instead of a proof
                b = bytes.fromhex(wire.native_auth_string(self.pw[r["pw"]].encode()))
            if not b:  # the proof of the empty password
                j["k"] = "empty"
            return b, j
        if k == "clear":
            b = self.pw[r["pw"]].encode()
            if r["mut"] == "alt":
                k = rng.randrange(len(b) + 1)
                alts = [b + b" ", b" " + b, b + b"\n", b[:-1], b[1:], b.swapcase(), b[:k] + b"\xff" + b[k:], b + b"\xc3",
                        b"\xef\xbb\xbf" + b, b[:k] + b"\xe2\x82" + b[k:], b[:k] + "\u200b".encode() + b[k:], b * 2]
                b = rng.choice([x for x in alts if x not in {p.encode() for p in self.pw.values()}])
                return b + b"\0", j
            return (b + b"\0" if r["mut"] == "exact" else b), j
        if k == "krb":
            u = self.claim
            who = {"p1": [u], "p2": ["np" if u != "np" else "nn", "kb" if u != "kb" else "np"],
                   "px": [u + "x", "x" + u, u.swapcase() + "_", u + "/admin", "root", u[:-1] or "y"]}[r["pw"]]
            b = b"TICKET:" + rng.choice(who).encode() + b"@EXAMPLE.COM"
            return (b if r["mut"] == "exact" else rng.choice([b[1:], b"x" + b, b.swapcase()])), j
        if k == "empty":
            return b"", j
        if k == "eof":
            return None, j
        return rng.choice([b"\0", b"\0" * 20, b"\xff" * 20, b"x", b"\x03select 1", b"\x0e", b"\0" * 21,
                           bytes(rng.randrange(1, 256) for _ in range(20)), b"p1\0"]), j

    def act(self, a, send_extra=b""):
        """One client action of a plan."""
        t = a["t"]
        if t in ("hs", "chuser"):
            self.claim = a["user"]
            user = a["user"].encode()
            if user == b"ghost":  # nobody, but much like somebody
                user = self.rng.choice([b"ghost", b"", b"np ", b" np", b"NP", b"Nn", b"n", b"np'@'%", b"nn ", b"real_n2", b"id_cl", b"CL",
                                        b"nn@localhost", b"root", "ńp".encode(), b"np\r", b"kb@EXAMPLE.COM", b"nl\x01"])
            b, j = self.concrete(dict(a["resp"], nonce=1 if a["resp"]["nonce"] == 2 else a["resp"]["nonce"]))
            send = {"t": t, "user": a["user"], "plugin": a["plugin"], "resp": j}
            self.cur_plugin = a["plugin"]
            if b is None:
                self.c.conn.close()
            else:
                pl = a["plugin"].encode()
                caps = self.caps
                if a["plugin"] == "none":
                    caps, pl = caps & ~CAP["PLUGIN_AUTH"], None
                if t == "hs":
                    self.seq = 1
                    if len(b) > 250 and not caps & CAP["PLUGIN_AUTH_LENENC"]:
                        caps |= CAP["PLUGIN_AUTH_LENENC"]
                    self.caps = caps
                    raw = wire.handshake_response(user, b, None, caps, plugin=pl)
                else:
                    self.seq = 0
                    raw = wire.change_user(user, b[:255], b"db", plugin=pl, caps=caps)
                    if self.caps & CAP["PLUGIN_AUTH"] == 0:
                        send["plugin"] = "none"
                self.c.conn.send(wire.packet(raw, self.seq) + send_extra)
            return self.observe(send)
        if t == "resp":
            b, j = self.concrete(a["resp"])
            if b is None:
                self.c.conn.close()
            else:
                self.c.conn.send(wire.packet(b, self.seq) + send_extra)
            return self.observe({"t": "resp", "resp": j})
        if t == "raw":
            self.c.conn.send(wire.packet(a["payload"], a.get("seq", 0)))
            return self.observe({"t": a.get("as", "cmd")})
        raise AssertionError(t)

    def commands(self):
        """Things a client may try after its authentication failed."""
        nb = self.hs or b"\0" * 20
        good = wire.native_scramble(self.pw["p1"].encode(), nb)
        cmds = [
            bytes([COM["QUERY"]]) + b"SELECT a FROM t", bytes([COM["PING"]]), bytes([COM["INIT_DB"]]) + b"db2",
            wire.change_user(b"np", good, b"db"), wire.change_user(b"nn", b"", b"db"),
            bytes([COM["STMT_PREPARE"]]) + b"SELECT a FROM t WHERE b = ?", wire.com_stmt_execute(0, self.caps),
            bytes([COM["FIELD_LIST"]]) + b"t\0", bytes([COM["RESET_CONNECTION"]]), bytes([COM["DEBUG"]]),
            wire.handshake_response(b"nn", b""), wire.handshake_response(b"np", good),
            bytes([COM["STMT_FETCH"]]) + b"\0\0\0\0\1\0\0\0", b"\0", good, b"\x02",
            bytes([COM["QUERY"]]) + b"SELECT CURRENT_USER()",
        ]
        return cmds

    def replay(self, plan, trailing=0, pipeline=False):
        acts = [dict(a) for a in plan]
        self.open()
        last = None
        k = 0
        rounds = 0
        while k < len(acts):
            a = acts[k]
            chal = self.steps[-1]["out"] and self.steps[-1]["out"][-1]["k"] == "chal"
            if a["t"] == "resp" and not chal:
                k += 1
                continue
            if chal and a["t"] != "resp":
                break
            extra = b""
            if pipeline and k == len(acts) - 1:
                extra = b"".join(wire.packet(c, 0) for c in self.rng.sample(self.commands(), 2))
            self.act(a, extra)
            last = a
            k += 1
        while self.steps[-1]["out"] and self.steps[-1]["out"][-1]["k"] == "chal" and rounds < 3:
            # asked more often than the model asks: answer as before
            rounds += 1
            r = {"k": "garbage", "pw": "-", "nonce": 0, "mut": "exact"}
            if last["t"] != "open" and "resp" in last:
                r = dict(last["resp"])
                if r["k"] == "scr" and r["nonce"] != 9:
                    r["nonce"] = 2
            self.act({"t": "resp", "resp": r})
        if trailing:
            cmds = self.commands()
            self.rng.shuffle(cmds)
            for c in cmds[:trailing]:
                as_ = "cmd"
                dead = self.steps[-1]["out"] and self.steps[-1]["out"][-1]["k"] in ("err",)
                if not dead and c[0] not in (COM["QUERY"], COM["PING"], COM["INIT_DB"], COM["DEBUG"]):
                    continue
                self.c.conn.send(wire.packet(c, self.rng.choice([0, 0, self.seq])))
                self.observe({"t": as_})
        return {"cfg": cfg_json(self.ci), "steps": self.steps}

    def close(self):
        self.w.close()
