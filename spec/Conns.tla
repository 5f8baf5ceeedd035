------------------------------- MODULE Conns -------------------------------
(* Connection ids (property C18).  An id is a pair <<upper half, lower half>> of 16-bit numbers.

   The machine's state: free, the lower halves not used by a live connection; live, the connections a client holds, by name, with their
   ids.  Connections registered in bulk only occupy lower halves.                                                      *)
EXTENDS Judge

Size == 65536
All == 0..(Size - 1)

(* A connection arrives; obs is what the client is told: [k |-> "in", id, ask] (id in the handshake, the one CONNECTION_ID() returns) or
   [k |-> "refused", code] or [k |-> other].                                                                          *)
Arrive(q, upper, x) ==
  IF q.free = {}
  THEN [q |-> q, clause |-> IF x.obs.k = "refused" THEN Need(x.obs.code = 1040, "refused with error " \o ToString(x.obs.code))
                            ELSE "all ids are in use, and the client is not refused with ERR (" \o x.obs.k \o ")"]
  ELSE IF x.obs.k # "in" THEN [q |-> q, clause |-> ToString(Cardinality(q.free)) \o " ids are free, and the client is not admitted (" \o x.obs.k \o ")"]
  ELSE LET id == x.obs.id IN
       [q |-> [free |-> q.free \ {id[2]}, live |-> q.live @@ (x.c :> id)],
        clause |-> FirstClause(<<
          Need(id[1] = upper, "the upper half of the id is not the server id"),
          Need(id[2] \in All, "not a 32-bit id"),
          Need(id[2] \in q.free, "the id is that of a live connection"),
          Need(x.obs.ask = <<>> \/ x.obs.ask = id, "CONNECTION_ID() is not the id announced") >>)]

(* n connections register one after the other and stay: ids, lower halves *)
Fill(q, upper, x) ==
  LET s == Range1(x.lo) IN
  [q |-> [q EXCEPT !.free = @ \ s],
   clause |-> FirstClause(<<
     Need(\A k \in 1..Len(x.up) : x.up[k] = upper, "the upper half of an id is not the server id"),
     Need(Cardinality(s) = Len(x.lo), "two live connections have the same id"),
     Need(s \subseteq q.free, "an id is that of a live connection"),
     Need(Len(x.lo) = x.n \/ (Len(x.lo) < x.n /\ q.free \ s = {} /\ x.full), "ids are free, and a connection is not admitted") >>)]
(* n connections register and end, one after the other: the set of their lower halves *)
Churn(q, upper, x) ==
  [q |-> q, clause |-> FirstClause(<<
     Need(\A k \in 1..Len(x.up) : x.up[k] = upper, "the upper half of an id is not the server id"),
     Need(Range1(x.lo) \subseteq q.free, "an id is that of a live connection"),
     Need(x.full = (q.free = {}), IF x.full THEN "ids are free, and a connection is not admitted" ELSE "all ids are in use, and a connection is not refused") >>)]
Leave(q, x) == [q |-> [q EXCEPT !.free = @ \cup Range1(x.lo)], clause |-> ""]

Drop(q, c) == [free |-> q.free \cup {q.live[c][2]}, live |-> [d \in DOMAIN q.live \ {c} |-> q.live[d]]]
End(q, x) == [q |-> Drop(q, x.c), clause |-> ""]
(* KILL id by connection c (0: the registry is asked): the connection of that id ends, no other does.  obs: the connections still open *)
Kill(q, x) ==
  LET hit == {d \in DOMAIN q.live : q.live[d] = x.id} IN
  [q |-> IF hit = {} THEN q ELSE Drop(q, Min(hit)),
   clause |-> FirstClause(<<
     Need(Range1(x.open) \cap hit = {}, "KILL does not end the connection of that id"),
     Need(DOMAIN q.live \ hit \subseteq Range1(x.open), "KILL ends a connection of another id") >>)]
(* Connections are asked for CONNECTION_ID() *)
Ask(q, x) == [q |-> q, clause |-> Need(\A y \in Range1(x.ids) : y[1] \in DOMAIN q.live /\ q.live[y[1]] = <<y[2], y[3]>>,
                                       "CONNECTION_ID() of a connection is not its id")]

Step(q, upper, x) ==
  CASE x.op = "arrive" -> Arrive(q, upper, x)
    [] x.op = "fill" -> Fill(q, upper, x)
    [] x.op = "churn" -> Churn(q, upper, x)
    [] x.op = "leave" -> Leave(q, x)
    [] x.op = "end" -> End(q, x)
    [] x.op = "kill" -> Kill(q, x)
    [] x.op = "ask" -> Ask(q, x)

(* Recorded history: upper (the server id modulo 2^16), steps *)
Run(upper, steps, q0) ==
  FoldLeft(LAMBDA a, k :
      IF a.clause # "" THEN a
      ELSE LET x == steps[k]  t == Step(a.q, upper, x) IN
           [q |-> t.q, clause |-> IF t.clause = "" THEN "" ELSE "step " \o ToString(k) \o " (" \o x.op \o "): " \o t.clause],
    [q |-> q0, clause |-> ""], [k \in 1..Len(steps) |-> k])
Verdict(c) ==
  Run(c.upper, c.steps, [free |-> All, live |-> <<>>]).clause
=============================================================================
