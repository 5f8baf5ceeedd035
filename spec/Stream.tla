------------------------------- MODULE Stream -------------------------------
(* Lazy results and fairness (property C12), judged by how many rows the application's source was asked for.

   A case: row (bytes of one row on the wire), peek (leading rows of NULL, which are smaller, at most 50),
   samples: [pulled, handed (rows the client's socket has accepted), open (nothing is left to happen, and
   the socket would accept more), want (rows the client has asked for so far, -1 for all), left (whether the source has more rows)];
   waits: for each command of another connection the rows pulled while it waited, -1 if it is not answered although nothing is left
   to happen; done: "" or what is wrong with the complete result.                                                   *)
EXTENDS Judge

AheadRows == 40000         \* some 200 KiB of the smallest rows
AheadBytes == 1500000
WaitRows == 100000

Ahead(s) == s.pulled - s.handed
Bounded(c, s) == /\ Ahead(s) <= AheadRows
                 /\ Ahead(s) <= 4 + c.peek + AheadBytes \div c.row
Moves(s) == s.open /\ s.left => s.want >= 0 /\ s.handed >= s.want
Sample(c, k) ==
  LET s == c.samples[k] IN
  IF ~Bounded(c, s) THEN ToString(s.pulled) \o " rows are pulled when the socket has accepted " \o ToString(s.handed)
  ELSE IF ~Moves(s) THEN "the stream stops after " \o ToString(s.handed) \o " rows although the socket would accept more"
  ELSE ""
Wait(c, k) == IF c.waits[k] < 0 THEN "another connection's command is never answered"
              ELSE IF c.waits[k] > WaitRows THEN "another connection's command waits for " \o ToString(c.waits[k]) \o " rows"
              ELSE ""
Verdict(c) == FirstClause([k \in 1..Len(c.samples) |-> Sample(c, k)] \o [k \in 1..Len(c.waits) |-> Wait(c, k)] \o <<c.done>>)
=============================================================================
