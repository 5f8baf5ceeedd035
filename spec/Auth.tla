-------------------------------- MODULE Auth --------------------------------
(* Authentication of one connection: the initial handshake and COM_CHANGE_USER, through every route to a plugin
   (optimistic response in the handshake, AuthSwitchRequest, AuthMoreData carrying a challenge, COM_CHANGE_USER on the
   nonce of the handshake), and the command phase that authentication guards.          Properties C01 and C02.

   Secrets are symbolic.  A response is [k, pw, nonce, mut]:
     k = "scr"    the mysql_native_password proof of password pw under the nonce with that identity, mutated as mut says
                  ("exact", "ext" = followed by junk, "flip", "trunc", ...)
     k = "clear"  the clear-text password pw ("exact" = NUL-terminated, "nonul", "alt" = something like it)
     k = "krb"    a Kerberos ticket: pw = "p1" of the user that the client claims to be, otherwise of somebody else
                  ("exact" = genuine, "alt" = it doesn't verify)
     k = "empty"  no bytes at all;   "garbage" anything else;   "eof" the client closes instead.
   An account is [name, plugin, pw, old, ident]: pw/old are passwords, "-" = there is none, "!" = a malformed stored
   hash, which no password fits.  plugin "-" = the account names no plugin.  ident is the identity that the plugin
   vouches for.  A configuration is [plugins, default, accounts].

   Besides mysql_native_password ("native") and the no-login plugin the provider may offer "clear" and "clear2", two
   clear-password plugins with the same client side and different users, and "twostep", which asks for two passwords (pw,
   then old), one after the other, and decides after the second; and "kerberos", the library's Kerberos plugin, which names
   its service and realm and then wants a ticket (the answer to its auth switch is ignored).                                                   *)
EXTENDS Judge

NativePlugin == "mysql_native_password"
ClearPlugin == "mysql_clear_password"
KrbPlugin == "authentication_kerberos_client"

(* The server-side plugin that decides about an account: its own if the provider offers it, else the default one. *)
PluginOf(cfg, a) == IF a.plugin \in Range1(cfg.plugins) THEN a.plugin ELSE cfg.default
ClientSide(p) == IF p = "native" THEN NativePlugin ELSE IF p \in {"clear", "clear2", "twostep"} THEN ClearPlugin ELSE IF p = "kerberos" THEN KrbPlugin ELSE ""

Known(cfg, u) == \E k \in 1..Len(cfg.accounts) : cfg.accounts[k].name = u
Acct(cfg, u) == cfg.accounts[CHOOSE k \in 1..Len(cfg.accounts) : cfg.accounts[k].name = u]
(* Kerberos vouches for the principal of the ticket, which must be the user that the client claims to be *)
Identity(cfg, u) == LET a == Acct(cfg, u) IN IF PluginOf(cfg, a) = "kerberos" THEN u ELSE a.ident

Passwords(a) == {a.pw, a.old} \ {"-", "!"}

(* The answer to the first question of a plugin that asks twice *)
FirstRound(a, p, r) == p = ClearPlugin /\ r.k = "clear" /\ r.mut = "exact" /\ r.pw = a.pw

(* Response r proves account a to server plugin sp when the client answers nonce n with client plugin p; rd tells for each
   earlier question of the plugin whether the answer was right. *)
Exact(a, sp, p, n, r, rd) ==
  CASE sp = "native" ->
         /\ p = NativePlugin
         /\ \/ r.k = "empty" /\ a.pw = "-"
            \/ r.k = "scr" /\ r.mut = "exact" /\ n >= 0 /\ r.nonce = n /\ r.pw \in Passwords(a)
    [] sp \in {"clear", "clear2"} -> r.k = "clear" /\ r.mut = "exact" /\ r.pw \in Passwords(a) /\ p = ClearPlugin
    [] sp = "kerberos" -> p = KrbPlugin /\ r.k = "krb" /\ r.mut = "exact" /\ r.pw = "p1" /\ Len(rd) = 1
    [] sp = "twostep" -> p = ClearPlugin /\ r.k = "clear" /\ r.mut = "exact" /\ r.pw = a.old /\ rd = <<TRUE>>
    [] OTHER -> FALSE

(* What may be taken for a proof: junk behind the first 20 bytes may be ignored, and an empty proof of an account without
   a password needs no plugin. *)
Loose(a, sp, p, n, r, rd) ==
  \/ Exact(a, sp, p, n, r, rd)
  \/ sp = "native" /\ r.k = "scr" /\ r.mut = "ext" /\ n >= 0 /\ r.nonce = n /\ r.pw \in Passwords(a)
  \/ sp = "native" /\ r.k = "empty" /\ a.pw = "-"

MayAccept(cfg, u, p, n, r, rd) ==
  Known(cfg, u) /\ LET a == Acct(cfg, u) IN Loose(a, PluginOf(cfg, a), p, n, r, rd)
(* Accounts bound to a plugin that the provider doesn't offer may be refused *)
MustAccept(cfg, u, p, n, r, rd) ==
  Known(cfg, u) /\ LET a == Acct(cfg, u) IN
     /\ a.plugin = "-" \/ a.plugin \in Range1(cfg.plugins)
     /\ Exact(a, PluginOf(cfg, a), p, n, r, rd)

------------------------------------------------------------------------------
(* The connection as the client and the application can see it.
     ph: "new" -> "hs" -> ("chal")* -> "cmd" -> ("chal")* -> "cmd" ... -> "dead"
   ident is the identity that passed authentication last ("-" = none), n the nonce that counts for the pending response.

   A step is [send, out, calls, username, closed]: what the client did, the packets it caused up to quiescence, the calls
   the application received (each with the user the session ran under), the session's user afterwards, and whether the
   server closed the connection.                                                                                    *)
S0 == [ph |-> "new", ident |-> "-", user |-> "-", plugin |-> "-", nonce |-> -1, hsnonce |-> -1, changing |-> FALSE, rounds |-> <<>>,
       clause |-> ""]

Kinds(step) == [k \in 1..Len(step.out) |-> step.out[k].k]
OnlyErr(step) == \A k \in 1..Len(step.out) : step.out[k].k = "err"
Calls(step) == {step.calls[k].c : k \in 1..Len(step.calls)}
Harmless == {"close"}
Fail(s, clause) == [s EXCEPT !.clause = clause]

(* mysql_native_password challenges are 20 bytes without NUL, followed by a NUL *)
GoodNonce(o) ==
  o.plugin # NativePlugin \/ (Len(o.bytes) = 21 /\ o.bytes[21] = 0 /\ \A k \in 1..20 : o.bytes[k] # 0)

UserUnchanged(s, step) ==
  /\ step.username = s.ident
  /\ \A k \in 1..Len(step.calls) : step.calls[k].user = s.ident

Answer(cfg, s, step, u, p, n, r) ==
  LET ks == Kinds(step)
      last == IF Len(ks) = 0 THEN "none" ELSE ks[Len(ks)]
      id == Identity(cfg, u)
  IN CASE last = "none" ->
            IF Calls(step) \ Harmless # {} THEN Fail(s, "C01: a command was executed during an unfinished authentication")
            ELSE IF ~UserUnchanged(s, step) THEN Fail(s, "C01: the user changed during an unfinished authentication")
            ELSE IF r.k = "eof" THEN [s EXCEPT !.ph = "dead"]
            ELSE Fail(s, "C01: an authentication response was not answered")
       [] last = "ok" ->
            IF ~MayAccept(cfg, u, p, n, r, s.rounds)
              THEN Fail(s, "C01+C02: authentication succeeded without a proof for this account, plugin and nonce")
            ELSE IF Len(ks) # 1 THEN Fail(s, "C01: more than one packet answered an authentication response")
            ELSE IF Calls(step) # (IF s.changing THEN {"reset"} ELSE {"init"})
              THEN Fail(s, "C01: a successful authentication must initialise (reset) the session and nothing else")
            ELSE IF step.username # id \/ \E k \in 1..Len(step.calls) : step.calls[k].user # id
              THEN Fail(s, "C01+C02: the session runs under a user that the plugin did not vouch for")
            ELSE IF step.closed THEN Fail(s, "C02: the connection was closed after a successful authentication")
            ELSE [s EXCEPT !.ph = "cmd", !.ident = id, !.changing = FALSE]
       [] last = "chal" ->
            IF Len(ks) # 1 THEN Fail(s, "C01: more than one packet answered an authentication response")
            ELSE IF Calls(step) # {} THEN Fail(s, "C01: a command was executed during an unfinished authentication")
            ELSE IF ~UserUnchanged(s, step) THEN Fail(s, "C01: the user changed during an unfinished authentication")
            ELSE IF ~GoodNonce(step.out[1]) THEN Fail(s, "C02: a nonce is not 20 NUL-free bytes")
            ELSE LET np == IF step.out[1].plugin = "" THEN p ELSE step.out[1].plugin IN
                 [s EXCEPT !.ph = "chal", !.user = u, !.plugin = np,
                           !.nonce = IF np = NativePlugin THEN step.out[1].nonce ELSE -1,
                           !.rounds = IF step.out[1].plugin = "" /\ Known(cfg, u)
                                      THEN Append(@, FirstRound(Acct(cfg, u), p, r)) ELSE <<>>]
       [] last = "err" ->
            IF ~OnlyErr(step) THEN Fail(s, "C01: a failed authentication was answered with something else than ERR")
            ELSE IF MustAccept(cfg, u, p, n, r, s.rounds) THEN Fail(s, "C02: a valid proof was not accepted")
            ELSE IF Calls(step) \ Harmless # {} THEN Fail(s, "C01: a command was executed although authentication failed")
            ELSE IF ~UserUnchanged(s, step) THEN Fail(s, "C01: the user changed although authentication failed")
            ELSE [s EXCEPT !.ph = "dead"]
       [] OTHER -> Fail(s, "C01: an authentication response was answered with something else than OK/ERR/challenge")

(* The client broke off: nothing but ERR or close *)
BrokenOff(s, step, what) ==
  IF Calls(step) \ Harmless # {} THEN Fail(s, "C01: a command was executed " \o what)
  ELSE IF ~OnlyErr(step) THEN Fail(s, "C01: a packet other than ERR was sent " \o what)
  ELSE IF ~UserUnchanged(s, step) THEN Fail(s, "C01: the user changed " \o what)
  ELSE [s EXCEPT !.ph = "dead"]

Step(cfg, s, step) ==
  IF s.clause # "" THEN s
  ELSE LET x == step.send IN
    CASE s.ph = "new" ->
           IF x.t # "open" THEN Fail(s, "driver: open expected")
           ELSE IF Kinds(step) # <<"greet">> THEN Fail(s, "C01: the greeting is not one handshake packet")
           ELSE IF Calls(step) # {} THEN Fail(s, "C01: the application was called before authentication")
           ELSE IF ~GoodNonce(step.out[1]) THEN Fail(s, "C02: a nonce is not 20 NUL-free bytes")
           ELSE [s EXCEPT !.ph = "hs",
                          !.hsnonce = IF step.out[1].plugin = NativePlugin THEN step.out[1].nonce ELSE -1]
      [] s.ph = "hs" /\ x.t = "hs" -> Answer(cfg, s, step, x.user, x.plugin, s.hsnonce, x.resp)
      [] s.ph = "hs" -> BrokenOff(s, step, "before authentication")
      [] s.ph = "chal" /\ x.t = "resp" -> Answer(cfg, s, step, s.user, s.plugin, s.nonce, x.resp)
      [] s.ph = "chal" -> BrokenOff(s, step, "during an unfinished authentication")
      [] s.ph = "cmd" /\ x.t = "chuser" ->
           Answer(cfg, [s EXCEPT !.changing = TRUE, !.rounds = <<>>], step, x.user, x.plugin, s.hsnonce, x.resp)
      [] s.ph = "cmd" /\ x.t = "badchuser" -> BrokenOff(s, step, "after a malformed COM_CHANGE_USER")
      [] s.ph = "cmd" ->
           IF ~UserUnchanged(s, step) THEN Fail(s, "C01: a command ran under a user that did not authenticate")
           ELSE IF "init" \in Calls(step) THEN Fail(s, "C01: the session was initialised twice")
           ELSE IF step.closed THEN [s EXCEPT !.ph = "dead"] ELSE s
      [] s.ph = "dead" -> BrokenOff(s, step, "after authentication failed")
      [] OTHER -> Fail(s, "driver: unknown step")

Final(c) == FoldLeft(LAMBDA s, step : Step(c.cfg, s, step), S0, c.steps)

(* Nonces seen on different connections (in however many server processes) *)
Fresh(c) ==
  FirstClause(<<
    Need(\A k \in 1..Len(c.nonces) : Len(c.nonces[k]) = 20 /\ \A j \in 1..20 : c.nonces[k][j] # 0,
         "C02: a nonce is not 20 NUL-free bytes"),
    Need(Cardinality(Range1(c.nonces)) = Len(c.nonces), "C02: a nonce was issued twice") >>)

Verdict(c) == IF Has(c, "nonces") THEN Fresh(c) ELSE Final(c).clause
=============================================================================
