-------------------------------- MODULE Iso ---------------------------------
(* Connections do not interfere (property C08), judged by transcripts.

   A case: for every connection its steps, each [what, solo, mixed]: the packets (hex, sequence numbers included) that answered the step when the
   connection was alone, and when it ran with others.  What is legitimately different in every run (the connection id and the random
   challenge in the handshake) is masked by the recorder, and the client uses its own challenge.                     *)
EXTENDS Judge

Step(s) == IF s.solo = s.mixed THEN ""
           ELSE s.what \o ": alone the answer is " \o ToString(SubSeq(s.solo, 1, Min({4, Len(s.solo)}))) \o ", with others it is "
                \o ToString(SubSeq(s.mixed, 1, Min({4, Len(s.mixed)})))
Conn(c) == FirstClause([k \in 1..Len(c) |-> Step(c[k])])
Verdict(case) == FirstClause([k \in 1..Len(case.conns) |-> Conn(case.conns[k])])
=============================================================================
