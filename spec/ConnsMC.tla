------------------------------ MODULE ConnsMC ------------------------------
(* The design: a sequence that wraps around, skipping lower halves in use, refusing only when all are.  A registry of Slots ids stands
   for one of 65536 in which the others are held by long-lived connections.  TLC explores every history up to MaxLen.  Checked: live
   ids are distinct, the search for an id ends, a client is refused exactly when no id is free, KILL reaches the id's holder.
   Histories are printed and replayed on the real registry and server with all ids but Slots occupied.                    *)
EXTENDS Judge

CONSTANTS Slots, MaxLen
VARIABLES seq, live, trying, refused, hist
vars == <<seq, live, trying, refused, hist>>
(* live: ids in order of arrival; trying: -1, or the steps of the search for an id so far *)
Init == seq \in 0..(Slots - 1) /\ live = <<>> /\ trying = -1 /\ refused = FALSE /\ hist = <<>>
E(op, a, b) == [op |-> op, a |-> a, b |-> b]
InUse(x) == \E k \in 1..Len(live) : live[k] = x
Arrive == /\ trying = -1 /\ Len(hist) < MaxLen
          /\ IF Len(live) >= Slots THEN refused' = TRUE /\ hist' = Append(hist, E("arrive", 0, 0)) /\ UNCHANGED <<seq, live, trying>>
             ELSE trying' = 0 /\ UNCHANGED <<seq, live, refused, hist>>
Search == /\ trying >= 0 /\ seq' = (seq + 1) % Slots /\ refused' = FALSE
          /\ IF InUse(seq) THEN trying' = trying + 1 /\ UNCHANGED <<live, hist>>
             ELSE /\ trying' = -1
                  /\ \/ live' = Append(live, seq) /\ hist' = Append(hist, E("arrive", 0, 0))
                     \/ UNCHANGED live /\ hist' = Append(hist, E("churn", 1, 0))   \* ends at once
Without(k) == [j \in 1..(Len(live) - 1) |-> live[IF j < k THEN j ELSE j + 1]]
End == /\ trying = -1 /\ Len(hist) < MaxLen /\ \E k \in 1..Len(live) :
          live' = Without(k) /\ hist' = Append(hist, E("end", k, 0)) /\ refused' = FALSE /\ UNCHANGED <<seq, trying>>
Kill == /\ trying = -1 /\ Len(hist) < MaxLen /\ \E k \in 1..Len(live), by \in 0..Len(live) :
          live' = Without(k) /\ hist' = Append(hist, E("kill", k, by)) /\ refused' = FALSE /\ UNCHANGED <<seq, trying>>
Next == Arrive \/ Search \/ End \/ Kill
Distinct == \A j, k \in 1..Len(live) : j # k => live[j] # live[k]
SearchEnds == trying < Slots
RefusedOnlyFull == refused => Len(live) = Slots
EmitPlan == trying = -1 /\ Len(hist) = MaxLen => PrintT(<<"PLAN", ToJson(hist)>>)
=============================================================================
