------------------------------ MODULE Lockstep ------------------------------
(* Property C03: the server's packets drive the client's automaton (ClientAutomaton.tla) exactly to its end - never short of it, never
   past it - with sequence numbers counting up from the command's own, for every command of a conversation.              *)
EXTENDS ClientAutomaton

(* One recorded command: [kind, o, stmt, pk, closed, types]; pk is a sequence of <<seq, bytes>>.  mem maps statement ids (as
   strings) to the column types of their last result.                                                             *)
Consume(cmd, dep, mem) ==
  FoldLeft(LAMBDA acc, k :
      LET b == cmd.pk[k][2]
          p == Classify(b, acc.s, dep, acc.types, cmd.kind = "query")
          s2 == Client(acc.s, p, dep)
      IN [s |-> s2,
          types |-> IF acc.s.ph = "defs" /\ p.c = "coldef" THEN Append(acc.types, ColDef(b, FALSE).type) ELSE acc.types,
          seq |-> acc.seq /\ cmd.pk[k][1] = k % 256],
    [s |-> Start(cmd.kind),
     types |-> IF cmd.kind = "fetch" /\ cmd.stmt \in DOMAIN mem THEN mem[cmd.stmt] ELSE <<>>, seq |-> TRUE],
    [k \in 1..Len(cmd.pk) |-> k])

Judge1(c, acc, cmd) ==
  IF acc.clause # "" THEN acc
  ELSE LET r == Consume(cmd, c.dep, acc.mem)
           what == cmd.kind \o "/" \o cmd.o.o
           cl == FirstClause(<<
             Need(r.s.res # "unasked", what \o ": a packet the client didn't ask for"),
             Need(r.s.res # "malformed", what \o ": a packet the client cannot make sense of at this point"),
             Need(r.s.ph = "done", what \o ": the response is incomplete"),
             Need(r.seq, what \o ": sequence numbers don't count up from the command's"),
             Need(Amounts(cmd.kind, cmd.o, r.s), what \o ": the response (" \o r.s.res \o ") is not what the outcome calls for"),
             Need(cmd.closed = (cmd.kind = "quit") \/ (cmd.closed /\ cmd.mayclose), what \o ": connection closed or left open") >>)
       IN [clause |-> IF cl = "" THEN "" ELSE "command " \o ToString(acc.k) \o " " \o cl, k |-> acc.k + 1,
           mem |-> IF cmd.kind \in {"execute", "cursor"} THEN (cmd.stmt :> r.types) @@ acc.mem ELSE acc.mem]
Verdict(c) == FoldLeft(LAMBDA acc, cmd : Judge1(c, acc, cmd), [clause |-> "", k |-> 1, mem |-> ("-" :> <<>>)], c.cmds).clause
=============================================================================
