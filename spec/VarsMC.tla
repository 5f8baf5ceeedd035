------------------------------- MODULE VarsMC -------------------------------
(* The store and its clients: SET lists are applied from left to right and stop at the first failure; a SET_VAR hint saves, assigns,
   runs and restores, also when an assignment or the statement fails or a KILL QUERY ends it.  Two variables x, y can be written, r is read-only, u unknown.
   Checked over every history up to the bound: r never changes; values have the type; after a hinted statement the store is what it
   was before; a SET that succeeded is what is read next.  Each history is printed and replayed with concrete variables.     *)
EXTENDS Judge

CONSTANTS MaxItems
VARIABLES store, hist, saved, todo, mode, used
vars == <<store, hist, saved, todo, mode, used>>

Names == {"x", "y", "r"}
Items == ([n : {"x", "y"}, val : {"good", "bad", "default"}] \cup [n : {"r", "u"}, val : {"good"}])
Lists == {<<i>> : i \in Items} \cup {<<i, j>> : i, j \in Items}
Modes == {"set", "hint", "hintfail", "hintkill"}
Init == /\ store = [n \in Names |-> 0] /\ hist = <<>> /\ saved = store /\ todo = <<>> /\ mode = "idle" /\ used = 0
Start == /\ mode = "idle"
         /\ \E m \in Modes, l \in Lists :
              /\ used + Len(l) <= MaxItems
              /\ mode' = m /\ todo' = l /\ used' = used + Len(l) /\ hist' = Append(hist, [m |-> m, l |-> l])
              /\ saved' = store /\ UNCHANGED store
(* value k is the one assigned by the k-th statement; 0 the default *)
Succeeds(i) == i.n \in {"x", "y"} /\ i.val # "bad"
Done == mode' = "idle" /\ todo' = <<>>
Assign == /\ mode \in Modes /\ todo # <<>>
          /\ LET i == Head(todo) IN
             IF Succeeds(i)
             THEN store' = [store EXCEPT ![i.n] = IF i.val = "good" THEN Len(hist) ELSE 0] /\ todo' = Tail(todo) /\ UNCHANGED mode
             ELSE Done /\ store' = IF mode = "set" THEN store ELSE saved
          /\ UNCHANGED <<hist, saved, used>>
Finish == /\ mode \in Modes /\ todo = <<>> /\ Done /\ store' = (IF mode = "set" THEN store ELSE saved) /\ UNCHANGED <<hist, saved, used>>
Next == Start \/ Assign \/ Finish

ReadOnly == store["r"] = 0
Restored == mode = "idle" /\ hist # <<>> /\ hist[Len(hist)].m # "set" => store = saved
LastAssigned == mode = "idle" /\ hist # <<>> /\ hist[Len(hist)].m = "set" =>
  LET l == hist[Len(hist)].l IN
  \A n \in {"x", "y"} :
    LET upto == LET f == SelectInSeq(l, LAMBDA i : ~Succeeds(i)) IN IF f = 0 THEN Len(l) ELSE f - 1
        k == SelectLastInSubSeq(l, 1, upto, LAMBDA i : i.n = n) IN
    store[n] = IF k = 0 THEN saved[n] ELSE IF l[k].val = "good" THEN Len(hist) ELSE 0
EmitPlan == mode = "idle" /\ used = MaxItems => PrintT(<<"PLAN", ToJson(hist)>>)
=============================================================================
