------------------------------- MODULE Judge -------------------------------
(* Conventions shared by every module that judges recorded behaviours.

   Cases is the JSON array of recorded cases in the file named by the environment variable CASES.  A module that judges
   defines Verdict(case): "" when the case is a behaviour of the specification, else the clause that it breaks.
   harness/tlc.py wraps such a module in
       EXTENDS <Module>
       VARIABLE i
       Init == i = 0
       Next == i < Len(Cases) /\ i' = i + 1 /\ Report(i + 1, Verdict(Cases[i + 1]))
   so that TLC steps through all the cases and prints the verdicts that are not "".                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, TLCExt, IOUtils, Json

Cases == JsonDeserialize(IOEnv.CASES)
Report(k, v) == IF v = "" THEN TRUE ELSE PrintT(<<"VERDICT", k, v>>)

(* First non-empty clause of a sequence of clauses *)
FirstClause(cs) == LET k == SelectInSeq(cs, LAMBDA c : c # "") IN IF k = 0 THEN "" ELSE cs[k]
Need(cond, clause) == IF cond THEN "" ELSE clause
Range1(s) == {s[k] : k \in 1..Len(s)}
Has(r, f) == f \in DOMAIN r
Map(s, Op(_)) == [k \in 1..Len(s) |-> Op(s[k])]
=============================================================================
