-------------------------------- MODULE Like --------------------------------
(* SQL LIKE on sequences of code points: % any sequence, _ any one character, \ takes the next character literally. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Pct == 37
Und == 95
Esc == 92
(* a pattern as a sequence of <<"c", code>>, <<"1">>, <<"*">> *)
RECURSIVE Elements(_)
Elements(p) == IF p = <<>> THEN <<>>
               ELSE IF p[1] = Pct THEN <<<<"*", 0>>>> \o Elements(Tail(p))
               ELSE IF p[1] = Und THEN <<<<"1", 0>>>> \o Elements(Tail(p))
               ELSE IF p[1] = Esc /\ Len(p) > 1 THEN <<<<"c", p[2]>>>> \o Elements(SubSeq(p, 3, Len(p)))
               ELSE <<<<"c", p[1]>>>> \o Elements(Tail(p))
(* the set of prefixes of s (by length) that the elements so far match *)
StepPos(s, P, e) == IF e[1] = "*" THEN {j \in 0..Len(s) : \E i \in P : i <= j}
                    ELSE {i + 1 : i \in {k \in P : k < Len(s) /\ (e[1] = "1" \/ s[k + 1] = e[2])}}
Like(p, s) == Len(s) \in FoldLeft(LAMBDA P, e : StepPos(s, P, e), {0}, Elements(p))
Fold1(x) == IF x \in 65..90 THEN x + 32 ELSE x
Fold(s) == [k \in 1..Len(s) |-> Fold1(s[k])]
=============================================================================
