------------------------------- MODULE LongMC -------------------------------
(* Long data (property C06): a statement holds the chunks it was sent for each of its parameters until it is executed, whatever becomes of the
   execution, or reset.  TLC explores every history of two statements up to MaxLen commands.  Checked: what an execution binds to a parameter is the chunks
   that its client has sent for it since the last execution or reset of this statement, in order, and the inline value if there are
   none; commands on one statement leave the other alone.  Histories are printed, with the values, and replayed.

   out: "ok"; "fails" (the application raises); "refused" (a value of the execution is unusable, so that the application is not called).   *)
EXTENDS Judge

CONSTANTS MaxLen
VARIABLES buf,    \* the design's buffers: statement -> parameter -> <<>> (none) or <<chunks>>
          sent,   \* ghost: chunks since the last execution or reset, <<statement, parameter, chunk>>
          hist
vars == <<buf, sent, hist>>
Stmts == {1, 2}
Params == {1, 2}
None == [p \in Params |-> <<>>]
Init == buf = [s \in Stmts |-> None] /\ sent = <<>> /\ hist = <<>>
E(op, s, p, out, vals) == [op |-> op, s |-> s, p |-> p, out |-> out, vals |-> vals]
Forget(s) == sent' = SelectSeq(sent, LAMBDA x : x[1] # s)
Bound(s, p) == IF buf[s][p] = <<>> THEN <<"inline">> ELSE <<"long", buf[s][p][1]>>
Long(s, p) == LET k == Len(hist) + 1 IN
              /\ buf' = [buf EXCEPT ![s][p] = IF @ = <<>> THEN <<<<k>>>> ELSE <<Append(@[1], k)>>]
              /\ sent' = Append(sent, <<s, p, k>>)
              /\ hist' = Append(hist, E("long", s, p, "", <<>>))
Exec(s, out) == /\ hist' = Append(hist, E("exec", s, 0, out, <<Bound(s, 1), Bound(s, 2)>>))
                /\ buf' = [buf EXCEPT ![s] = None] /\ Forget(s)
Drop(s, op) == /\ hist' = Append(hist, E(op, s, 0, "", <<>>)) /\ buf' = [buf EXCEPT ![s] = None] /\ Forget(s)
Next == /\ Len(hist) < MaxLen
        /\ \E s \in Stmts : \/ \E p \in Params : Long(s, p)
                            \/ \E o \in {"ok", "fails", "refused"} : Exec(s, o)
                            \/ \E o \in {"reset", "again"} : Drop(s, o)      \* again: closed, and prepared anew
Sent(s, p) == Map(SelectSeq(sent, LAMBDA x : x[1] = s /\ x[2] = p), LAMBDA x : x[3])
BindsWhatWasSent == \A s \in Stmts, p \in Params : Bound(s, p) = (IF Sent(s, p) = <<>> THEN <<"inline">> ELSE <<"long", Sent(s, p)>>)
EmitPlan == IF Len(hist) > 0 /\ hist[Len(hist)].op = "exec" /\ hist[Len(hist)].out = "ok" /\ (\E k \in 1..Len(hist) : hist[k].op = "long")
            THEN PrintT(<<"PLAN", ToJson(hist)>>) ELSE TRUE
=============================================================================
