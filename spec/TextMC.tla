------------------------------- MODULE TextMC -------------------------------
(* Client and server each keep a client and a results character set.  The client switches its own when it sends the switch, the server
   when it handles it; commands travel in a queue, so that a command may be on its way - encoded in the new set - before the server has
   switched.  Checked: every text is decoded with the set it was encoded in and results with the one the client expects, prepared text with
   the set at the time it was prepared.  Every history is printed and replayed; "pipe" marks a command sent before the last answer.  *)
EXTENDS Judge

CONSTANTS MaxOps, Sets
VARIABLES cc, cr, sc, sr, queue, ps, hist, bad, outq, sps
vars == <<cc, cr, sc, sr, queue, ps, hist, bad, outq, sps>>

Switches == {"names", "charset", "setc", "setr", "chg"}
Plain == {"bad", "query", "result", "error", "initdb", "fieldlist", "prep", "exec"}
Init == /\ cc \in Sets /\ sc = cc /\ cr = "utf8mb4" /\ sr = cr /\ queue = <<>> /\ ps = "" /\ sps = "" /\ hist = <<<<"hs", cc, FALSE>>>> /\ bad = "" /\ outq = <<>>
NewC(op, cs, old) == IF op \in {"names", "charset", "setc", "chg"} THEN cs ELSE old
NewR(op, cs, old) == IF op \in {"names", "charset", "setr"} THEN cs ELSE old
Send == /\ Len(hist) <= MaxOps /\ Len(queue) < 2
        /\ \E op \in Switches \cup Plain, cs \in Sets :
             /\ (op \in Plain => cs = CHOOSE x \in Sets : TRUE)
             /\ (op = "exec" => ps # "")
             /\ queue' = Append(queue, <<op, cs, cc>>)
             /\ cc' = NewC(op, cs, cc) /\ cr' = NewR(op, cs, cr)
             /\ ps' = IF op = "prep" THEN cc ELSE ps
             /\ outq' = IF op \in {"result", "error", "fieldlist"} THEN Append(outq, cr) ELSE outq
             /\ hist' = Append(hist, <<op, cs, queue # <<>>>>)
        /\ UNCHANGED <<sc, sr, bad, sps>>
Handle == /\ queue # <<>>
          /\ LET m == Head(queue) IN
             /\ bad' = IF m[3] # sc THEN "decoded with another set"
                       ELSE IF m[1] \in {"result", "error", "fieldlist"} /\ Head(outq) # sr THEN "encoded in another set"
                       ELSE IF m[1] = "exec" /\ sps = "" THEN "statement lost" ELSE bad
             /\ sps' = IF m[1] = "prep" THEN sc ELSE sps
             /\ sc' = NewC(m[1], m[2], sc) /\ sr' = NewR(m[1], m[2], sr)
             /\ outq' = IF m[1] \in {"result", "error", "fieldlist"} THEN Tail(outq) ELSE outq
          /\ queue' = Tail(queue) /\ UNCHANGED <<cc, cr, ps, hist>>
Next == Send \/ Handle

Sound == bad = ""
Agree == queue = <<>> => sc = cc /\ sr = cr /\ sps = ps
EmitPlan == queue = <<>> /\ Len(hist) = MaxOps + 1 => PrintT(<<"PLAN", ToJson(hist)>>)
=============================================================================
