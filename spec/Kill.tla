-------------------------------- MODULE Kill --------------------------------
(* Kills (property C09): the target's client (the automaton of Lockstep.tla) extended with the kills that are under way.

   A recorded history is a sequence of events, in the order in which they happened:
     cmd    the target's client sends a command [kind, o, stmt, self]; self: "" or the kind of kill it is aimed at itself
     pk     it receives a packet [seq, b]
     kill   kill number n (QUERY or CONNECTION) is issued; hit: its id is the target's
     killed the issuer knows that kill n is done (at once when it is issued through the Control API)
     closed the server closes the target's socket
   A KILL QUERY may break off one command that the client is waiting for while the kill is under way, and nothing else.       *)
EXTENDS ClientAutomaton

S0 == [on |-> FALSE, s |-> Start("none"), cmd |-> [kind |-> "none", o |-> [o |-> "any", n |-> 0, m |-> 0], stmt |-> "-", self |-> ""],
       types |-> <<>>, mem |-> ("-" :> <<>>), seq |-> 1,
       open |-> {}, over |-> {}, used |-> {},   \* kills under way; those that overlap the command; those that broke off a command
       conn |-> FALSE, extra |-> 0, selfdone |-> FALSE, closed |-> FALSE, clause |-> ""]

Fail(a, c) == [a EXCEPT !.clause = c]
What(a) == a.cmd.kind \o "/" \o a.cmd.o.o
Finish(a, r) == \* the response to the command is complete
  LET as == Amounts(a.cmd.kind, a.cmd.o, a.s)
      free == {n \in a.over : n \notin a.used}
  IN CASE a.s.res = "malformed" -> Fail(a, What(a) \o ": a packet the client cannot make sense of at this point")
       [] as -> [a EXCEPT !.on = FALSE, !.selfdone = a.cmd.self = "CONNECTION"]
       [] a.cmd.self = "QUERY" /\ a.s.res = "err" -> [a EXCEPT !.on = FALSE]
       [] a.s.res \in {"err", "rserr"} /\ free # {} -> [a EXCEPT !.on = FALSE, !.used = @ \cup {Min(free)}]
       [] a.conn /\ a.s.res \in {"err", "rserr"} -> [a EXCEPT !.on = FALSE, !.extra = 1]
       [] a.s.res \in {"err", "rserr"} -> Fail(a, What(a) \o ": broken off, but no kill was aimed at it")
       [] OTHER -> Fail(a, What(a) \o ": the response (" \o a.s.res \o ") is not what the outcome calls for")

Packet(a, x) ==
  IF a.closed THEN Fail(a, "a packet after the socket is closed")
  ELSE IF a.cmd.kind = "greet" /\ a.on
    THEN IF x.b # <<>> /\ x.b[1] = 10 THEN [a EXCEPT !.on = FALSE] ELSE IF a.conn /\ IsErr(x.b, FALSE) THEN [a EXCEPT !.on = FALSE, !.extra = 1] ELSE Fail(a, "no greeting")
  ELSE IF ~a.on
    THEN IF a.selfdone THEN Fail(a, "a second response to a KILL statement")
         ELSE IF a.conn /\ a.extra = 0 /\ IsErr(x.b, TRUE) THEN [a EXCEPT !.extra = 1]
         ELSE Fail(a, "an unsolicited packet (after " \o What(a) \o ")")
  ELSE LET p == Classify(x.b, a.s, a.dep, a.types, a.cmd.kind = "query")
           s2 == Client(a.s, p, a.dep)
           a2 == [a EXCEPT !.s = s2, !.seq = (@ + 1) % 256,
                           !.types = IF a.s.ph = "defs" /\ p.c = "coldef" THEN Append(@, ColDef(x.b, FALSE).type) ELSE @]
           a3 == IF s2.ph = "done" /\ a.cmd.kind \in {"execute", "cursor"} THEN [a2 EXCEPT !.mem = (a.cmd.stmt :> a2.types) @@ @] ELSE a2
       IN IF a.cmd.kind # "login" /\ x.seq # a.seq /\ ~(a.conn /\ p.c = "err") THEN Fail(a, What(a) \o ": sequence number " \o ToString(x.seq) \o " for " \o ToString(a.seq))
          ELSE IF s2.ph = "done" THEN Finish(a3, s2.res) ELSE a3

Event(a, x) ==
  CASE a.clause # "" -> a
    [] x.e = "cmd" ->
         IF a.on THEN Fail(a, What(a) \o ": the response is incomplete and nothing goes on")
         ELSE LET st == Start(IF x.kind = "login" THEN "ok" ELSE x.kind) IN
              [a EXCEPT !.on = st.ph # "done" \/ x.kind = "greet", !.s = st, !.cmd = x, !.seq = 1, !.over = a.open,
                        !.types = IF x.kind = "fetch" /\ x.stmt \in DOMAIN a.mem THEN a.mem[x.stmt] ELSE <<>>]
    [] x.e = "pk" -> Packet(a, x)
    [] x.e = "kill" -> IF ~x.hit THEN a
                       ELSE IF x.kind = "CONNECTION" THEN [a EXCEPT !.conn = TRUE]
                       ELSE [a EXCEPT !.open = @ \cup {x.n}, !.over = IF a.on THEN @ \cup {x.n} ELSE @]
    [] x.e = "killed" -> [a EXCEPT !.open = @ \ {x.n}]
    [] x.e = "closed" -> IF ~a.conn /\ a.cmd.self # "CONNECTION" /\ a.cmd.kind # "quit"
                         THEN Fail(a, "the connection is closed (" \o What(a) \o ")") ELSE [a EXCEPT !.closed = TRUE]

(* Recorded case: dep, events, and at the end: killers (for each KILL statement the packets of its response), inited and closes (of the
   target's session), reg (the target is registered), tasks (tasks of the target still run), others (the other connections
   still answer)                                                                                                      *)
Verdict(c) ==
  LET a == FoldLeft(Event, [S0 EXCEPT !.on = FALSE] @@ [dep |-> c.dep], c.events)
      dead == a.conn \/ a.selfdone \/ a.cmd.self = "CONNECTION"
  IN FirstClause(<<
       a.clause,
       Need(~a.on \/ dead, What(a) \o ": the response is incomplete"),
       Need(\A k \in 1..Len(c.killers) : LET p == c.killers[k] IN Len(p) = 1 /\ (IsOk(p[1]) \/ IsErr(p[1], TRUE)),
            "the issuer of a KILL doesn't get exactly one response"),
       Need(dead => a.closed, "KILL CONNECTION doesn't end the connection"),
       Need(dead => ~c.reg, "a killed connection stays registered"),
       Need(dead => ~c.tasks, "a task keeps running for a killed connection"),
       Need(dead => c.closes = (IF c.inited THEN 1 ELSE 0), "the session of a killed connection is closed " \o ToString(c.closes) \o " times"),
       Need(dead \/ c.closes = 0, "the session is closed"),
       Need(c.others, "another connection is affected") >>)
=============================================================================
