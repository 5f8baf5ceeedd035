----------------------------- MODULE DispatchMC -----------------------------
(* The dispatcher: a chain of interceptors per statement, the application at its end.  Statements are [head, src]: src is what a
   SELECT reads - tables of the user's, of a catalog database by name, or "unq", a catalog table's name without a database, which
   is the catalog's only while a catalog database is the default one.  TLC explores every history of selections and texts up to the
   bounds.  Checked: the application's log is the sequence of statements that are its own by the property's definition, each once,
   in textual order, each seen with the database last selected; the answer is the last statement's, or the first failed one's.  *)
EXTENDS Judge

CONSTANTS MaxSel, MaxText
VARIABLES hist,     \* the plan: login database, then the selections
          sel,      \* ghost: the database last selected
          db,       \* the session's database
          text, pos, \* the text and the next statement
          log, ans, phase
vars == <<hist, sel, db, text, pos, log, ans, phase>>

Dbs == {"d1", "d2", "cat"}
Sources == {{}, {"user"}, {"cat"}, {"unq"}, {"user", "cat"}, {"user", "unq"}, {"cat", "unq"}}
Stmts == [head : {"select"}, src : Sources] \cup [head : {"dml", "explain", "ddl", "apperr", "set", "show", "desc", "kill", "tx", "use:d1", "use:d2", "use:cat"}, src : {{}}]
UseDb(h) == CASE h = "use:d1" -> "d1" [] h = "use:d2" -> "d2" [] h = "use:cat" -> "cat" [] OTHER -> ""

(* the property: is it the application's? *)
Own(s, d) == \/ s.head \in {"dml", "explain", "ddl", "apperr"}
             \/ s.head = "select" /\ ("user" \in s.src \/ ("unq" \in s.src /\ d # "cat"))
(* the chain: the first interceptor that takes the statement *)
Chain == <<"set", "static", "use", "kill", "show", "desc", "tx", "catalog">>
Takes(m, s, d) ==
  CASE m = "static" -> s.head = "select" /\ s.src = {}
    [] m = "use" -> UseDb(s.head) # ""
    [] m = "catalog" -> s.head = "select" /\ s.src # {} /\ \A x \in s.src : x = "cat" \/ (x = "unq" /\ d = "cat")
    [] OTHER -> s.head = m
Taker(s, d) == LET k == SelectInSeq(Chain, LAMBDA m : Takes(m, s, d)) IN IF k = 0 THEN "app" ELSE Chain[k]

Init == /\ sel \in {"", "d1", "cat"} /\ hist = <<<<"login", sel>>>> /\ db = sel /\ text = <<>> /\ pos = 0 /\ log = <<>> /\ ans = 0 /\ phase = "sel"
Select == /\ phase = "sel" /\ Len(hist) <= MaxSel
          /\ \E k \in {"init", "chg"}, d \in Dbs :
               sel' = d /\ db' = d /\ hist' = Append(hist, <<k, d>>)
          /\ UNCHANGED <<text, pos, log, ans, phase>>
Send == /\ phase = "sel"
        /\ \E n \in 1..(MaxText - (IF Len(hist) > 1 THEN 1 ELSE 0)) : text' \in [1..n -> Stmts]
        /\ pos' = 1 /\ phase' = "run" /\ UNCHANGED <<hist, sel, db, log, ans>>
Run == /\ phase = "run" /\ pos <= Len(text)
       /\ LET s == text[pos]
              t == Taker(s, db) IN
          /\ log' = IF t = "app" THEN Append(log, <<pos, db>>) ELSE log
          /\ db' = IF t = "use" THEN UseDb(s.head) ELSE db
          /\ sel' = IF UseDb(s.head) # "" THEN UseDb(s.head) ELSE sel
          /\ ans' = pos
          /\ IF t = "app" /\ s.head = "apperr" THEN phase' = "done" /\ pos' = pos
             ELSE pos' = pos + 1 /\ phase' = IF pos = Len(text) THEN "done" ELSE phase
          /\ UNCHANGED <<hist, text>>
Next == Select \/ Send \/ Run

DbBefore(i) == FoldLeft(LAMBDA a, j : IF UseDb(text[j].head) # "" THEN UseDb(text[j].head) ELSE a,
                        hist[Len(hist)][2], [j \in 1..(i - 1) |-> j])
Failed == SelectInSeq(text, LAMBDA s : s.head = "apperr")
Reached == IF Failed = 0 THEN Len(text) ELSE Failed
Logged == phase = "done" =>
  /\ log = [k \in 1..Len(log) |-> <<log[k][1], DbBefore(log[k][1])>>]
  /\ [k \in 1..Len(log) |-> log[k][1]] = SelectSeq([i \in 1..Reached |-> i], LAMBDA i : Own(text[i], DbBefore(i)))
Answered == phase = "done" => ans = Reached
Selected == db = sel
Once == \A i, j \in 1..Len(log) : i < j => log[i][1] < log[j][1]
EmitPlan == phase = "run" /\ pos = 1 => PrintT(<<"PLAN", ToJson([hist |-> hist, text |-> [i \in 1..Len(text) |-> [head |-> text[i].head, src |-> SetToSeq(text[i].src)]]])>>)
=============================================================================
