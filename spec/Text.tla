-------------------------------- MODULE Text --------------------------------
(* Text and character sets on a connection (property C15).

   The state is the client character set and the possible results character sets.  A step changes it or exchanges texts:
     "hs"/"chg"  login / COM_CHANGE_USER with a collation id (0: none given)       "names" "charset" "setc" "setr"  SET statements
     "bad"       a SET that has to fail                                           "msg"  any other command
   A text is [dir, gov, want, got, tab, what]: for "in", tab gives for each character set in play what the bytes sent mean in it, got is
   what the application received; for "out", tab gives the bytes of the text the application meant, got the bytes received.
   gov: "client", "results" or "column" (cs: the column's set as its definition says).  No entry: not representable, nothing is asked. *)
EXTENDS Judge

CollationSet(c, id) == LET k == SelectInSeq(c.colls, LAMBDA x : x[1] = id) IN c.colls[k][2]
Entry(t, cs) == LET k == SelectInSeq(t.tab, LAMBDA x : x[1] = cs) IN IF k = 0 THEN [ok |-> FALSE, v |-> <<>>] ELSE [ok |-> TRUE, v |-> t.tab[k][2]]
Fits(t, cs) == LET e == Entry(t, cs) IN ~e.ok \/ e.v = t.got
(* the character sets of css that explain the text; {} if none does *)
Explain(t, css) == {cs \in css : Fits(t, cs)}
Text(c, a, t) ==
  IF a.v # "" THEN a
  ELSE IF t.gov = "client"
  THEN [a EXCEPT !.v = IF Explain(t, a.client) # {} THEN "" ELSE t.what \o " is not decoded with " \o ToString(a.client)]
  ELSE IF t.gov = "column"
  THEN [a EXCEPT !.v = FirstClause(<<Need(t.cs # "", t.what \o ": its column definition names no character set"),
                                     Need(t.declared = "" \/ t.cs = t.declared, t.what \o ": its column definition names " \o t.cs \o " for " \o t.declared),
                                     Need(Fits(t, t.cs), t.what \o " is not encoded in its column's character set " \o t.cs)>>)]
  ELSE LET e == Explain(t, a.results) IN
       [a EXCEPT !.v = IF e # {} THEN "" ELSE t.what \o " is not encoded in " \o ToString(a.results), !.results = IF e # {} THEN e ELSE @]
Texts(c, a, ts) == FoldLeft(LAMBDA b, t : Text(c, b, t), a, ts)
Fail(a, cond, clause) == IF a.v = "" /\ ~cond THEN [a EXCEPT !.v = clause] ELSE a

Step(c, a, s) ==
  CASE s.op = "hs" -> Texts(c, Fail([a EXCEPT !.client = {CollationSet(c, s.coll)}, !.results = {"utf8mb4"}], s.out = "ok", "login is refused: " \o s.cs), s.texts)
    [] s.op = "chg" ->
         LET new == IF s.coll = 0 THEN a.client ELSE {CollationSet(c, s.coll)}
             b == Texts(c, Fail([a EXCEPT !.client = @ \cup new], s.out = "ok", "COM_CHANGE_USER is refused"), s.texts) IN
         [b EXCEPT !.client = new, !.results = @ \cup new \cup {"utf8mb4"}]
    [] s.op \in {"names", "charset"} -> Fail([a EXCEPT !.client = {s.cs}, !.results = {s.cs}], s.out = "ok", "a SET of the character set is refused: " \o s.cs)
    [] s.op = "setc" -> Fail([a EXCEPT !.client = {s.cs}], s.out = "ok", "a SET of the character set is refused: " \o s.cs)
    [] s.op = "setr" -> Fail([a EXCEPT !.results = {s.cs}], s.out = "ok", "a SET of the character set is refused: " \o s.cs)
    [] s.op = "bad" -> Fail(a, s.out = "err", "an unknown character set is accepted")
    [] OTHER -> Texts(c, Fail(a, s.out # "none", "no proper answer to " \o s.op), s.texts)
Verdict(c) == FoldLeft(LAMBDA a, s : IF a.v # "" THEN a ELSE Step(c, a, s), [v |-> "", client |-> {}, results |-> {"utf8mb4"}], c.steps).v
=============================================================================
