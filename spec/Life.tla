-------------------------------- MODULE Life --------------------------------
(* The life of a connection (property C10), judged by the application session's call log and by what is left at the end.

   log: the calls of the application's session in order, each [call, ev] with ev "begin", "end", "raise" or "cancel".  At the end: sock
   (the server has closed the socket), reg (the connection is registered), tasks (a task of the connection runs), spin (the server
   never comes to rest), others (the other connections still answer), premature (close was called while the client was connected
   and no reason to end the connection had occurred).                                                                  *)
EXTENDS Judge

Idx(log, c, e) == {k \in 1..Len(log) : log[k].call = c /\ log[k].ev = e}
Inited(log) == Idx(log, "init", "end") # {}
Undecided(log) == Idx(log, "init", "begin") # {} /\ Idx(log, "init", "end") = {} /\ Idx(log, "init", "raise") = {}
Closes(log) == Cardinality(Idx(log, "close", "begin"))
(* Calls under way before position k *)
Pending(log, k) == Cardinality({j \in 1..(k - 1) : log[j].ev = "begin"}) - Cardinality({j \in 1..(k - 1) : log[j].ev # "begin"})

Clause(c) ==
  LET n == Closes(c.log)
      p == Idx(c.log, "close", "begin")
  IN FirstClause(<<
       Need(~c.spin, "the server never comes to rest"),
       Need(Cardinality(Idx(c.log, "init", "begin")) <= 1, "the session is initialised twice"),
       IF Inited(c.log) THEN Need(n = 1, "an initialised session is closed " \o ToString(n) \o " times")
       ELSE IF Undecided(c.log) THEN Need(n <= 1, "a session is closed " \o ToString(n) \o " times")
       ELSE Need(n = 0, "a session that was not initialised is closed"),
       Need(\A k \in p : \A j \in (k + 1)..Len(c.log) : c.log[j].call = "close" \/ c.log[j].ev # "begin", "the session is used after it was closed"),
       Need(\A k \in p : Pending(c.log, k) = 0, "the session is closed while a call of it is under way"),
       Need(Idx(c.log, "close", "cancel") = {}, "the closing of the session is broken off"),
       Need(~c.premature, "the session is closed although the connection goes on"),
       Need(c.sock, "the socket is not closed"),
       Need(~c.reg, "the connection stays registered"),
       Need(~c.tasks, "a task keeps running for the connection"),
       Need(c.others, "another connection is affected") >>)
Verdict(c) == LET v == Clause(c) IN IF v = "" THEN "" ELSE c.end \o ": " \o v
=============================================================================
