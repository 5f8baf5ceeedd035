------------------------------ MODULE Dispatch ------------------------------
(* Which statements of a text reach the application (property C13).

   A statement is [k, tag, db, col]:
     "app"    reaches the application, which answers rows under the column col
     "appnone" reaches the application, which answers nothing (OK)
     "apperr" reaches the application, which raises
     "use"    selects db            "nouse"  the application refuses to select the database
     "ctl"    session control, answered OK by the library
     "rs"     answered with rows by the library, under the column col if col # ""
     "lib"    not for the application; the library may answer anything, an error included
   A step is a command: "init"/"chg" (database selections) or a text sent by "query" or "exec".
   Recorded: the application's calls [sql, attrs, tags, db] and the response [k, col].                                          *)
EXTENDS Judge

AppKinds == {"app", "appnone", "apperr"}
(* the default database when statement i of S starts; dbs: the possible ones at the start *)
DbAt(S, i, dbs) == FoldLeft(LAMBDA a, j : IF S[j].k = "use" THEN {S[j].db} ELSE a, dbs, [j \in 1..(i - 1) |-> j])
Prefix(S, j) == SelectSeq([i \in 1..j |-> i], LAMBDA i : S[i].k \in AppKinds)
(* the statements after which a text answered by an error may have ended *)
Ends(S) == {j \in 1..Len(S) : S[j].k \in {"apperr", "lib", "nouse"} /\ \A i \in 1..(j - 1) : S[i].k \notin {"apperr", "nouse"}}
Total(S) == \A i \in 1..Len(S) : S[i].k \notin {"apperr", "nouse"}

CallsClause(c, S, j, dbs) ==
  LET want == Prefix(S, j)
      got == c.calls IN
  IF Len(got) # Len(want) THEN "the application is called " \o ToString(Len(got)) \o " times for " \o ToString(Len(want)) \o " statements of its own"
  ELSE FirstClause([n \in 1..Len(want) |->
         LET g == got[n]
             s == S[want[n]] IN
         FirstClause(<<
           Need(Range1(g.tags) = {s.tag}, "the application gets another statement than its next one"),
           Need(g.sql = c.sql, "the application does not get the client's text"),
           Need(g.attrs = c.attrs, "the application does not get the client's query attributes"),
           Need(g.db \in DbAt(S, want[n], dbs), "the application sees the default database " \o g.db) >>)])

Expected(s, r) ==
  CASE s.k = "app" -> Need(r.k = "rs" /\ r.col = s.col, "the client does not get the application's rows for the last statement")
    [] s.k = "appnone" -> Need(r.k = "ok", "the client does not get OK for the last statement")
    [] s.k \in {"ctl", "use"} -> Need(r.k = "ok", "the client does not get OK for the last statement")
    [] s.k = "rs" -> Need(r.k = "rs" /\ (s.col = "" \/ r.col = s.col), "the client does not get the library's rows for the last statement")
    [] OTHER -> ""
(* [v: clause, dbs: the possible default databases afterwards] *)
Text(c, dbs) ==
  LET S == c.stmts
      n == Len(S)
      ends == {j \in Ends(S) : CallsClause(c, S, j, dbs) = ""} IN
  IF c.resp.k = "none" THEN [v |-> "no answer", dbs |-> dbs]
  ELSE IF n = 0 THEN [v |-> Need(c.calls = <<>>, "the application is called for a text without statements"), dbs |-> dbs]
  ELSE IF c.resp.k = "err"
  THEN IF ends # {} THEN [v |-> "", dbs |-> UNION {DbAt(S, j, dbs) : j \in ends}]
       ELSE [v |-> IF Ends(S) = {} THEN "an error for statements that succeed"
                   ELSE LET j == Max(Ends(S)) IN CallsClause(c, S, j, dbs), dbs |-> dbs]
  ELSE [v |-> FirstClause(<<Need(Total(S), "a failed statement does not end the text with an error"),
                            IF Total(S) THEN CallsClause(c, S, n, dbs) ELSE "",
                            IF Total(S) THEN Expected(S[n], c.resp) ELSE "">>),
        dbs |-> DbAt(S, n + 1, dbs)]
Step(c, dbs) ==
  CASE c.cmd = "init" -> [v |-> Need(c.resp.k = "ok" /\ c.calls = <<>>, "COM_INIT_DB is not answered OK"), dbs |-> {c.db}]
    [] c.cmd = "badinit" -> [v |-> Need(c.resp.k = "err" /\ c.calls = <<>>, "a refused COM_INIT_DB is not answered by an error"), dbs |-> dbs]
    [] c.cmd = "chg" -> [v |-> Need(c.resp.k = "ok" /\ c.calls = <<>>, "COM_CHANGE_USER is not answered OK"),
                         dbs |-> {c.db}]   \* "" as on a new connection without a database
    [] c.cmd = "quiet" -> [v |-> Need(c.calls = <<>>, "the application is called for no statement"), dbs |-> dbs]
    [] OTHER -> Text(c, dbs)
Verdict(case) ==
  IF ~case.ok THEN "the connection is not set up"
  ELSE FoldLeft(LAMBDA a, c : IF a.v # "" THEN a ELSE Step(c, a.dbs), [v |-> "", dbs |-> {case.login}], case.steps).v
=============================================================================
