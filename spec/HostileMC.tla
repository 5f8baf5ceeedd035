------------------------------ MODULE HostileMC ------------------------------
(* Property C07, design level: a connection on which a hostile client injects packets, next to a witness connection.

   Layouts describes every kind of packet the server reads, field by field; Mutations what can be done to a field or to the
   packet as a whole.  At every position of a session the client injects any mutation of any packet that belongs there.
   Whatever it is, the server does a bounded amount of work on it, then answers with one ERR and stays in step, or closes
   the connection, or (when the result still is a valid packet) goes on.  Every injection is printed as a plan.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxInject,   \* injections per connection
          Step         \* upper bound of the work spent on one packet (abstract units)

F(t, v) == [t |-> t, v |-> v]
Head41 == <<F("u4", "caps"), F("u4", "16777216"), F("u1", "45"), F("pad", "23")>>
Attrs2 == <<F("total", "attrs"), F("lestr", "_client"), F("lestr", "mimic"), F("lestr", "pid"), F("lestr", "1")>>
Layouts == [
  hs |-> Head41 \o <<F("nul", "u"), F("le1", ""), F("nul", "db"), F("nul", "mysql_native_password")>> \o Attrs2,
  hsold |-> Head41 \o <<F("nul", "u"), F("le1", "")>>,
  hsclear |-> Head41 \o <<F("nul", "c"), F("le1", "secret0"), F("nul", "db"), F("nul", "mysql_clear_password")>> \o Attrs2,
  hsproof |-> Head41 \o <<F("nul", "n"), F("le1", "proof"), F("nul", "db"), F("nul", "mysql_native_password")>> \o Attrs2,
  sslreq |-> <<F("u4", "caps+ssl"), F("u4", "16777216"), F("u1", "45"), F("pad", "23")>>,
  proof |-> <<F("bytes", "proof")>>,
  secret |-> <<F("nul", "secret")>>,
  garbage |-> <<F("bytes", "tls")>>,
  quit |-> <<F("code", "1")>>,
  init_db |-> <<F("code", "2"), F("rest", "db1")>>,
  query |-> <<F("code", "3"), F("lenc", "0"), F("lenc", "1"), F("sql", "SELECT a, b FROM t")>>,
  show |-> <<F("code", "3"), F("lenc", "0"), F("lenc", "1"), F("sql", "SHOW VARIABLES LIKE 'ver%'")>>,
  queryattrs |-> <<F("code", "3"), F("lenc", "3"), F("lenc", "1"), F("mask", "0"), F("u1", "1"),
                   F("type", "253"), F("u1", "0"), F("lestr", "a1"), F("type", "8"), F("u1", "128"), F("lestr", "a2"),
                   F("type", "5"), F("u1", "0"), F("lestr", "a3"), F("lestr", "value"), F("u8", "7"), F("u8", "0"),
                   F("sql", "SELECT a, b FROM t")>>,
  field_list |-> <<F("code", "4"), F("nul", "t"), F("rest", "a%")>>,
  prepare |-> <<F("code", "22"), F("sql", "SELECT a FROM t WHERE a = ? AND b = ?")>>,
  execute |-> <<F("code", "23"), F("u4", "stmt"), F("u1", "8"), F("u4", "1"), F("lenc", "3"), F("mask", "0"), F("u1", "1"),
                F("type", "253"), F("u1", "0"), F("lestr", ""), F("type", "1"), F("u1", "0"), F("lestr", ""),
                F("type", "252"), F("u1", "0"), F("lestr", "attr"), F("lestr", "x"), F("u1", "5"), F("lestr", "z")>>,
  execursor |-> <<F("code", "23"), F("u4", "stmt"), F("u1", "1"), F("u4", "1"), F("lenc", "2"), F("mask", "1"), F("u1", "1"),
                F("type", "3"), F("u1", "128"), F("lestr", ""), F("type", "2"), F("u1", "0"), F("lestr", ""), F("u2", "9")>>,
  longdata |-> <<F("code", "24"), F("u4", "stmt"), F("u2", "0"), F("rest", "long data")>>,
  fetch |-> <<F("code", "28"), F("u4", "stmt"), F("u4", "1")>>,
  reset |-> <<F("code", "26"), F("u4", "stmt")>>,
  close |-> <<F("code", "25"), F("u4", "99")>>,
  ping |-> <<F("code", "14")>>,
  debug |-> <<F("code", "13")>>,
  reset_connection |-> <<F("code", "31")>>,
  change_user |-> <<F("code", "17"), F("nul", "u"), F("le1", ""), F("nul", "db2"), F("u2", "45"),
                    F("nul", "mysql_native_password")>> \o Attrs2,
  change_user_min |-> <<F("code", "17"), F("nul", "u"), F("le1", ""), F("nul", "db2")>>]

Login == {"hs", "hsold", "hsclear", "hsproof", "sslreq"}
Command == {"quit", "init_db", "query", "show", "queryattrs", "field_list", "prepare", "execute", "execursor", "longdata",
            "fetch", "reset", "close", "ping", "debug", "reset_connection", "change_user", "change_user_min"}
(* Positions: before the handshake response (without/with TLS offered), after the SSL request, while an authentication
   switch is pending, and in the command phase: nothing prepared, a statement with long data, an open cursor              *)
Positions == {"new", "newtls", "tls", "switch", "clear", "cuswitch", "cuclear", "idle", "prep", "cursor"}
InCommands == {"idle", "prep", "cursor"}
At(p) == CASE p \in {"new", "newtls"} -> Login
           [] p = "tls" -> {"garbage", "hs", "sslreq"}
           [] p \in {"switch", "cuswitch"} -> {"proof"}
           [] p \in {"clear", "cuclear"} -> {"secret"}
           [] p = "idle" -> Command
           [] OTHER -> Command \ {"quit", "debug", "reset_connection", "ping", "show"}

Numbers == {"0", "250", "251", "252", "253", "254", "255", "65536", "16777216", "max"}
OfField(f) ==
  CASE f.t \in {"u1", "u2", "u4", "u8"} -> Numbers \cup {"flip"}
    [] f.t \in {"lenc", "total"} -> Numbers \cup {"raw251", "raw252", "raw253", "raw254", "raw255", "flip"}
    [] f.t \in {"lestr", "le1"} -> Numbers \cup {"raw251", "raw254", "raw255", "huge", "badtext", "flip"}
    [] f.t = "nul" -> {"noterm", "huge", "hugenoterm", "inner", "badtext", "empty", "flip"}
    [] f.t = "code" -> {"all"}
    [] f.t = "type" -> {"all"}
    [] f.t = "mask" -> {"zero", "ones", "drop"}
    [] f.t \in {"rest", "bytes"} -> {"empty", "huge", "badtext", "flip", "random", "wild", "drop"}
    [] f.t = "pad" -> {"ones", "drop", "flip"}
    [] f.t = "sql" -> {"empty", "badtext", "flip", "random", "parens", "open", "quotes", "comment", "unions", "operators",
                       "marks", "semicolons", "wildcard", "hugestring", "brackets", "case", "with", "exists"}
OfPacket == {"truncate", "bits", "extend", "random", "emptypayload", "seq", "announce_more", "announce_less", "header_only",
             "twice"}
Injection(p, k) ==
  {[pos |-> p, tpl |-> k, field |-> 0, mut |-> m] : m \in OfPacket} \cup
  UNION {{[pos |-> p, tpl |-> k, field |-> j, mut |-> m] : m \in OfField(Layouts[k][j])} : j \in 1..Len(Layouts[k])}

-----------------------------------------------------------------------------
VARIABLES pos,      \* position of the hostile connection, "gone" when it has ended
          reg,      \* it is registered
          owed,     \* "" nothing, "answer", or "rest" (the server has to wait for the rest of a packet it was promised)
          work,     \* work spent on the packet being handled
          n,        \* injections so far
          wit       \* the witness waits for the answer to a PING
vars == <<pos, reg, owed, work, n, wit>>

ASSUME PrintT(<<"LAYOUTS", ToJson(Layouts)>>)

Init == pos \in Positions /\ reg = TRUE /\ owed = "" /\ work = 0 /\ n = 0 /\ wit = FALSE
Emit == IF pos \in Positions /\ n = 0 /\ owed = "" THEN \A k \in At(pos) : \A x \in Injection(pos, k) : PrintT(<<"PLAN", ToJson(x)>>) ELSE TRUE

Inject == /\ pos # "gone" /\ owed = "" /\ n < MaxInject
          /\ \E k \in At(pos), r \in {"answer", "rest"} : Injection(pos, k) # {} /\ owed' = r
          /\ n' = n + 1 /\ work' = 0 /\ UNCHANGED <<pos, reg, wit>>
Work == owed = "answer" /\ work < Step /\ work' = work + 1 /\ UNCHANGED <<pos, reg, owed, n, wit>>
(* A single ERR: stays in step in the command phase, the end of a login *)
Err == /\ owed = "answer" /\ owed' = "" /\ work' = 0
       /\ pos' = IF pos \in InCommands THEN pos ELSE "gone"
       /\ reg' = IF pos \in InCommands THEN reg ELSE FALSE
       /\ UNCHANGED <<n, wit>>
Close == /\ owed # "" /\ owed' = "" /\ work' = 0 /\ pos' = "gone" /\ reg' = FALSE /\ UNCHANGED <<n, wit>>
(* Still a valid packet *)
Proceed == /\ owed = "answer" /\ owed' = "" /\ work' = 0
           /\ pos' \in CASE pos \in {"new", "newtls"} -> {"idle", "switch", "clear", "tls"}
                         [] pos = "tls" -> {"idle", "tls"}
                         [] pos \in {"switch", "clear", "cuswitch", "cuclear"} -> {"idle"}
                         [] OTHER -> {pos, "idle", "prep", "cursor", "cuswitch", "cuclear"}
           /\ UNCHANGED <<reg, n, wit>>
End == pos # "gone" /\ pos' = "gone" /\ reg' = FALSE /\ owed' = "" /\ work' = 0 /\ UNCHANGED <<n, wit>>
Ping == ~wit /\ wit' = TRUE /\ UNCHANGED <<pos, reg, owed, work, n>>
Pong == wit /\ wit' = FALSE /\ UNCHANGED <<pos, reg, owed, work, n>>

Next == Emit /\ (Inject \/ Work \/ Err \/ Close \/ Proceed \/ End \/ Ping \/ Pong)
Fair == WF_vars(Err \/ Close \/ Proceed) /\ WF_vars(Pong) /\ WF_vars(End)
Spec == Init /\ [][Next]_vars /\ Fair

TypeOK == pos \in Positions \cup {"gone"} /\ owed \in {"", "answer", "rest"} /\ work \in 0..Step
Registered == reg <=> pos # "gone"
Answered == (owed = "answer") ~> (owed = "")
Released == <>(~reg)
WitnessServed == wit ~> ~wit
Covered == \A p \in Positions, k \in UNION {At(q) : q \in Positions} : k \in DOMAIN Layouts
=============================================================================
