------------------------------- MODULE Hostile -------------------------------
(* Property C07: what the server did with hostile packets.  A case is one connection: steps (one injected packet each), then
   what the witness and a new connection got, and what was left of the connection after its end.

   Work is measured as processor time; the bound leaves two orders of magnitude to what valid packets of that size take. *)
EXTENDS ClientAutomaton

WorkMs(n) == 2000 + n \div 250
MemMb(n) == 96 + n \div 8192
COMMANDS == {"idle", "prep", "cursor"}
KindOf(cmd, flags) ==
  CASE cmd = 3 -> "query" [] cmd = 22 -> "prepare" [] cmd = 4 -> "field_list" [] cmd = 28 -> "fetch"
    [] cmd = 23 -> IF flags % 2 = 1 THEN "cursor" ELSE "execute"
    [] OTHER -> "other"
NoReply == {1, 24, 25}

Reply(x) ==
  FoldLeft(LAMBDA acc, k :
      LET b == x.pk[k][2]
          p == Classify(b, acc.s, TRUE, acc.types, KindOf(x.cmd, x.flags) = "query")
      IN [s |-> Client(acc.s, p, TRUE),
          types |-> IF acc.s.ph = "defs" /\ p.c = "coldef" THEN Append(acc.types, ColDef(b, FALSE).type) ELSE acc.types],
    [s |-> Start(KindOf(x.cmd, x.flags)), types |-> <<>>], [k \in 1..Len(x.pk) |-> k]).s
Seqs(x) == \A k \in 1..Len(x.pk) : x.pk[k][1] = (x.seq + k) % 256

OneErr(x) == x.n_pk = 1 /\ x.first[1] = 255
(* A response to something that still is a valid command *)
Complete(x) ==
  IF x.n_pk = 0 THEN FALSE
  ELSE IF x.big THEN x.last # 255 /\ x.first[1] # 255
  ELSE CASE x.cmd = 28 -> x.n_pk >= 1 /\ x.last = 254 /\ \A k \in 1..(x.n_pk - 1) : x.pk[k][2][1] = 0
         [] OTHER -> LET s == Reply(x) IN s.ph = "done" /\ s.res \notin {"malformed", "unasked", "err"}
(* (what a login negotiates may have been mutated: an OK packet without PROTOCOL_41 is shorter) *)
Pong(x) == /\ Len(x.ping) = 1 /\ x.ping[1][1] = 1
           /\ Len(x.ping[1][2]) >= (IF x.pos \in COMMANDS THEN 7 ELSE 3) /\ x.ping[1][2][1] = 0

Served(x) ==
  IF x.closed \/ x.free THEN ""
  ELSE IF x.partial THEN Need(x.n_pk = 0, "an answer to an incomplete packet")
  ELSE IF x.tlswait /\ x.n_pk = 0 THEN ""
  ELSE IF x.mut = "seq" THEN Need(OneErr(x), "wrong sequence number: neither an ERR nor closed")
  ELSE IF x.pos \in COMMANDS THEN
    IF x.cmd \in NoReply /\ x.n_pk = 0 THEN ""
    ELSE IF x.cmd = 17 /\ x.n_pk = 1 /\ x.first[1] = 254 THEN ""
    ELSE FirstClause(<<
           Need(x.n_pk > 0, "neither answered nor closed"),
           Need(OneErr(x) \/ Complete(x), "neither one ERR packet nor a complete response nor closed"),
           Need(x.big \/ Seqs(x), "the answer is out of sequence") >>)
  ELSE FirstClause(<<
         Need(x.n_pk = 1, "login: neither one answer nor closed"),
         Need(x.n_pk = 0 \/ x.first[1] # 255 \/ x.pos \in {"cuswitch", "cuclear"}, "login: the connection stays open after the ERR"),
         Need(x.n_pk = 0 \/ x.first[1] \in {0, 1, 254, 255}, "login: not an answer") >>)
InStep(x) == IF x.after \in COMMANDS THEN Need(Pong(x), "out of step: the next PING is not answered by one OK") ELSE ""

Step1(x) ==
  LET cl == FirstClause(<<
        Need(~x.hung, "the event loop is held"),
        Need(x.cpu <= WorkMs(x.n), "more work than its size warrants (ms: " \o ToString(x.cpu) \o ")"),
        Need(x.mem <= MemMb(x.n), "more memory than its size warrants (MB: " \o ToString(x.mem) \o ")"),
        Served(x), InStep(x) >>)
  IN IF cl = "" THEN "" ELSE x.pos \o "/" \o x.tpl \o "/" \o x.mut \o " field " \o ToString(x.field) \o ": " \o cl
Verdict(c) ==
  IF c.steps = <<>> THEN "the connection does not get to its position" ELSE
  LET cl == FirstClause(Map(c.steps, Step1))
      x == c.steps[Len(c.steps)]
      end == FirstClause(<<
        Need(Len(c.witness) = 1 /\ c.witness[1][1] = 1 /\ c.witness[1][2][1] = 0, "the witness's PING is not answered"),
        Need(c.fresh = "", "a new connection is not served (" \o c.fresh \o ")"),
        Need(c.left = 0, "the connection stays registered after its end"),
        Need(c.tasks = 0, "a task of the connection is left after its end") >>)
  IN IF cl # "" THEN cl
     ELSE IF end # "" THEN "after " \o x.pos \o "/" \o x.tpl \o "/" \o x.mut \o ": " \o end ELSE ""
=============================================================================
