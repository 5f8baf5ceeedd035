----------------------------- MODULE LockstepMC -----------------------------
(* The design: a server that answers each command as the protocol prescribes, one packet at a time, with an application
   that may fail at any point, next to the client automaton of Lockstep.tla.  TLC explores every program of up to MaxLen
   commands.  Checked: when the server waits for a command the client doesn't wait for a packet, and vice versa; the
   outcome is what the application did.  Programs are printed and replayed on the real server.                    *)
EXTENDS Lockstep

CONSTANTS MaxLen, MaxRows

VARIABLES dep,      \* CLIENT_DEPRECATE_EOF negotiated
          prog,     \* commands so far
          out,      \* packets of the current response not yet sent
          failing,  \* the application raises when the next row is due
          cl,       \* the client
          cur       \* the statement: "none", "prepared", or rows left in its cursor
vars == <<dep, prog, out, failing, cl, cur>>

O(o, n, m) == [o |-> o, n |-> n, m |-> m]
Outcomes == {O("none", 0, 0), O("zero", 0, 1), O("fail", 0, 0)}
            \cup {O("rs", n, m) : n \in 1..2, m \in 0..MaxRows} \cup {O("mid", 1, m) : m \in 0..1}
Cmd(kind, o) == [kind |-> kind, o |-> o]
Simple == {Cmd("ping", O("ok", 0, 0)), Cmd("init_db", O("ok", 0, 0)), Cmd("debug", O("ok", 0, 0)),
           Cmd("reset_connection", O("ok", 0, 0)), Cmd("unsupported", O("err", 0, 0)), Cmd("bad_sql", O("err", 0, 0)),
           Cmd("field_list", O("fl", 0, 0)), Cmd("field_list", O("fl", 0, 2)), Cmd("change_user", O("ok", 0, 0)),
           Cmd("init_db", O("err", 0, 0)), Cmd("stmt_execute_unknown", O("err", 0, 0)),
           Cmd("stmt_fetch_unknown", O("err", 0, 0)), Cmd("stmt_reset_unknown", O("err", 0, 0)),
           Cmd("stmt_close", O("none", 0, 0)), Cmd("send_long_data", O("none", 0, 0))}
Kind(c) == CASE c.kind \in {"query", "execute", "cursor", "fetch", "prepare", "field_list"} -> c.kind
             [] c.kind \in {"stmt_close", "stmt_close_own", "send_long_data"} -> "none"
             [] c.kind \in {"stmt_execute_unknown"} -> "execute"
             [] c.kind \in {"stmt_fetch_unknown"} -> "fetch"
             [] c.kind = "bad_sql" -> "query"
             [] OTHER -> "ok"

Rep(p, n) == [k \in 1..n |-> p]
Eof(c) == [Pk("eof") EXCEPT !.cur = c]
Defs(n) == <<[Pk("count") EXCEPT !.n = n]>> \o Rep(Pk("coldef"), n)
Meta == IF dep THEN <<>> ELSE <<Eof(FALSE)>>
(* The response the design sends; "mid" stops before the failing row, the ERR follows *)
Response(c) ==
  LET o == c.o IN
  CASE c.kind \in {"query", "execute"} ->
         CASE o.o \in {"none", "zero"} -> <<Pk("ok")>>
           [] o.o = "rs" -> Defs(o.n) \o Meta \o Rep(Pk("row"), o.m) \o <<Eof(FALSE)>>
           [] o.o = "mid" -> Defs(o.n) \o Meta \o Rep(Pk("row"), o.m)
           [] OTHER -> <<>>
    [] c.kind = "cursor" -> CASE o.o \in {"none", "zero"} -> <<Pk("ok")>>
                              [] o.o \in {"rs", "mid"} -> Defs(o.n) \o <<Eof(TRUE)>>
                              [] OTHER -> <<>>
    [] c.kind = "fetch" -> IF o.o = "err" THEN <<>> ELSE Rep(Pk("row"), o.m) \o <<Eof(FALSE)>>
    [] c.kind = "prepare" -> <<[Pk("prepok") EXCEPT !.n = o.n]>> \o
                             (IF o.n = 0 THEN <<>> ELSE Rep(Pk("coldef"), o.n) \o Meta)
    [] c.kind = "field_list" -> Rep(Pk("coldef"), o.m) \o <<Eof(FALSE)>>
    [] Kind(c) = "none" -> <<>>
    [] o.o = "ok" -> <<Pk("ok")>>
    [] OTHER -> <<>>
Fails(c) == Kind(c) # "none" /\ (c.o.o \in {"fail", "err"} \/ (c.o.o = "mid" /\ c.kind # "cursor"))

Idle == out = <<>> /\ ~failing
Init == /\ dep \in BOOLEAN /\ prog = <<>> /\ out = <<>> /\ failing = FALSE /\ cl = Start("none") /\ cur = "none"
Send(c) == /\ prog' = Append(prog, c) /\ out' = Response(c) /\ failing' = Fails(c) /\ cl' = Start(Kind(c)) /\ UNCHANGED dep
Command ==
  /\ Idle /\ Len(prog) < MaxLen
  /\ \/ \E c \in Simple : Send(c) /\ UNCHANGED cur
     \/ \E o \in Outcomes : Send(Cmd("query", o)) /\ UNCHANGED cur
     \/ \E n \in 0..2 : Send(Cmd("prepare", O("ok", n, 0))) /\ cur' = "prepared"
     \/ cur # "none" /\ \E o \in Outcomes : Send(Cmd("execute", o)) /\ cur' = "prepared"
     \/ cur # "none" /\ \E o \in Outcomes : Send(Cmd("cursor", o)) /\ cur' = IF o.o \in {"rs", "mid"} THEN "open" ELSE "prepared"
     \/ cur = "prepared" /\ Send(Cmd("fetch", O("err", 0, 0))) /\ UNCHANGED cur
     \/ cur = "open" /\ \E m \in 0..MaxRows : Send(Cmd("fetch", O("any", 0, m))) /\ UNCHANGED cur
     \/ cur # "none" /\ Send(Cmd("stmt_reset", O("ok", 0, 0))) /\ cur' = "prepared"
     \/ cur # "none" /\ Send(Cmd("stmt_close_own", O("none", 0, 0))) /\ cur' = "none"
Emit1 == /\ out # <<>> /\ cl' = Client(cl, out[1], dep) /\ out' = Tail(out) /\ UNCHANGED <<dep, prog, failing, cur>>
Raise == /\ out = <<>> /\ failing /\ cl' = Client(cl, Pk("err"), dep) /\ failing' = FALSE /\ UNCHANGED <<dep, prog, out, cur>>
Next == Command \/ Emit1 \/ Raise

InStep == (Idle <=> cl.ph = "done") /\ cl.res \notin {"unasked", "malformed"}
Matches == Idle /\ prog # <<>> => Amounts(Kind(prog[Len(prog)]), prog[Len(prog)].o, cl)
EmitPlan == Idle /\ Len(prog) = MaxLen => PrintT(<<"PLAN", ToJson([dep |-> dep, prog |-> prog])>>)
=============================================================================
