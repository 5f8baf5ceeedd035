----------------------------- MODULE ResultsMC -----------------------------
(* The design of type inference: columns given by name are typed by peeking at leading rows, which are then delivered before the
   rest of the source.  TLC explores every NULL pattern, every mix of named and typed columns and every row count up to the
   bounds.  Checked: the rows delivered are the source's, in order, each once; a named column has the type of its first
   non-NULL value; no more rows are peeked at than needed.  Each scenario is printed and replayed.                        *)
EXTENDS Judge

CONSTANTS MaxCols, MaxRows
VARIABLES named,   \* which columns are bare names
          src,     \* NULL pattern of the source: rows of booleans (TRUE = NULL); row r column c holds value <<r, c>>
          pos,     \* rows pulled so far
          peeks, typed, out, phase
vars == <<named, src, pos, peeks, typed, out, phase>>

Init == /\ \E n \in 1..MaxCols : /\ named \in [1..n -> BOOLEAN]
                                 /\ \E m \in 0..MaxRows : src \in [1..m -> [1..n -> BOOLEAN]]
        /\ pos = 0 /\ peeks = <<>> /\ out = <<>> /\ phase = "peek"
        /\ typed = [c \in DOMAIN named |-> IF named[c] THEN 0 ELSE -1]   \* 0 unknown, -1 declared, r the row that told
Peek == /\ phase = "peek"
        /\ IF (\A c \in DOMAIN named : typed[c] # 0) \/ pos = Len(src)
           THEN phase' = "replay" /\ UNCHANGED <<pos, peeks, typed>>
           ELSE /\ pos' = pos + 1 /\ peeks' = Append(peeks, pos + 1)
                /\ typed' = [c \in DOMAIN named |-> IF typed[c] = 0 /\ ~src[pos + 1][c] THEN pos + 1 ELSE typed[c]]
                /\ UNCHANGED phase
        /\ UNCHANGED <<named, src, out>>
Replay == /\ phase = "replay"
          /\ IF peeks # <<>> THEN out' = Append(out, peeks[1]) /\ peeks' = Tail(peeks) /\ UNCHANGED <<pos, phase>>
             ELSE IF pos < Len(src) THEN out' = Append(out, pos + 1) /\ pos' = pos + 1 /\ UNCHANGED <<peeks, phase>>
             ELSE phase' = "done" /\ UNCHANGED <<pos, peeks, out>>
          /\ UNCHANGED <<named, src, typed>>
Next == Peek \/ Replay

FirstRow(c) == LET s == {r \in DOMAIN src : ~src[r][c]} IN IF s = {} THEN 0 ELSE Min(s)
Delivered == /\ out = [k \in 1..Len(out) |-> k]
             /\ (phase = "done" => Len(out) = Len(src))
Typing == phase # "peek" => \A c \in DOMAIN named : typed[c] = IF named[c] THEN FirstRow(c) ELSE -1
NoMoreThanNeeded == phase = "peek" /\ pos > 0 =>
   \E c \in DOMAIN named : named[c] /\ \A r \in 1..(pos - 1) : src[r][c]
EmitPlan == phase = "done" => PrintT(<<"PLAN", ToJson([named |-> named, src |-> src])>>)
=============================================================================
