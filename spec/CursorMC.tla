------------------------------ MODULE CursorMC ------------------------------
(* The design: a cursor is the suspended row source itself; a fetch pulls from it row by row until it has as many as asked for, the
   source ends (flag) or raises; while it pulls, the statement has no cursor, and gets it back if the fetch ends well.  TLC explores
   every program over Stmts up to MaxLen commands (Sizes = FALSE), or every sequence of fetch sizes over one result of up to MaxN
   rows until it is exhausted (Sizes = TRUE).  Checked: each fetch ends as the reference machine of Cursor.tla prescribes and delivers
   the rows that it prescribes.  Programs are printed and replayed on the real server.                                 *)
EXTENDS Cursor

CONSTANTS Stmts, MaxN, MaxLen, Sizes
VARIABLES q,     \* the reference machine
          cur,   \* the design's cursor of each statement: <<>> or <<[res, n, fail, pos, over]>>
          got,   \* of the fetch under way: [s, k, rows, cur, exp] (exp: what the reference machine expects), or <<>>
          ok,    \* the last fetch was what the reference machine expects
          prog
vars == <<q, cur, got, ok, prog>>

O(op, s) == [op |-> op, s |-> s, k |-> 0, n |-> 0, fail |-> 0, cursor |-> FALSE]
Init == /\ q = [s \in Stmts |-> Idle] /\ cur = [s \in Stmts |-> <<>>] /\ got = <<>> /\ ok = TRUE /\ prog = <<>>

Results == {[n |-> n, fail |-> 0] : n \in 0..MaxN} \cup (IF Sizes THEN {} ELSE {[n |-> 2, fail |-> 2]})
Exec(s) == \/ \E r \in Results :
                /\ prog' = Append(prog, [O("exec", s) EXCEPT !.n = r.n, !.fail = r.fail, !.cursor = TRUE])
                /\ q' = [q EXCEPT ![s] = IF @.st = "unknown" THEN @ ELSE Open(Len(prog), r.n, r.fail)]
                /\ cur' = [cur EXCEPT ![s] = IF q[s].st = "unknown" THEN @
                                             ELSE <<[res |-> Len(prog), n |-> r.n, fail |-> r.fail, pos |-> 0, over |-> FALSE]>>]
                /\ UNCHANGED <<got, ok>>
           \/ /\ ~Sizes
              /\ \E n \in {-2, -1, 2} : prog' = Append(prog, [O("exec", s) EXCEPT !.n = n])
              /\ q' = [q EXCEPT ![s] = IF @.st = "unknown" THEN @ ELSE Idle] /\ cur' = [cur EXCEPT ![s] = <<>>]
              /\ UNCHANGED <<got, ok>>
StartFetch(s) == \E k \in (IF Sizes THEN 1..(q[s].n + 1) ELSE 0..(MaxN + 1)) :
                   LET e == Fetch(q[s], k) IN
                   /\ prog' = Append(prog, [O("fetch", s) EXCEPT !.k = k])
                   /\ q' = [q EXCEPT ![s] = e.q]
                   /\ IF cur[s] = <<>>
                      THEN ok' = (e.end \in {"err", "any"} /\ e.to < e.from) /\ UNCHANGED <<cur, got>>
                      ELSE got' = <<[s |-> s, k |-> k, rows |-> <<>>, cur |-> cur[s][1], exp |-> e]>> /\ cur' = [cur EXCEPT ![s] = <<>>] /\ UNCHANGED ok
Same(e, rows, res, end, flag) == /\ rows = [j \in 1..(e.to - e.from + 1) |-> e.from + j - 1] /\ e.q.res = res
                                 /\ e.end \in {end, "any"}
                                 /\ end = "eof" => e.flag \in {"either", IF flag THEN "set" ELSE "clear"}
(* One pull of the source, or the end of the fetch *)
Pull == LET g == got[1]  c == g.cur IN
        IF Len(g.rows) = g.k \/ c.over \/ (c.fail = 0 /\ c.pos = c.n)
        THEN /\ cur' = [cur EXCEPT ![g.s] = <<[c EXCEPT !.over = @ \/ Len(g.rows) < g.k]>>]
             /\ ok' = Same(g.exp, g.rows, c.res, "eof", Len(g.rows) < g.k)
             /\ got' = <<>> /\ UNCHANGED <<q, prog>>
        ELSE IF c.pos + 1 = c.fail
        THEN ok' = Same(g.exp, g.rows, c.res, "err", FALSE) /\ got' = <<>> /\ UNCHANGED <<q, prog, cur>>
        ELSE got' = <<[g EXCEPT !.rows = Append(@, c.pos + 1), !.cur.pos = @ + 1]>> /\ UNCHANGED <<q, prog, cur, ok>>
Drop(s) == \E op \in {"reset", "close"} :
             /\ prog' = Append(prog, O(op, s)) /\ cur' = [cur EXCEPT ![s] = <<>>]
             /\ q' = [q EXCEPT ![s] = IF op = "close" \/ @.st = "unknown" THEN Unknown ELSE Idle] /\ UNCHANGED <<got, ok>>
Ended == Sizes /\ prog # <<>> /\ \E s \in Stmts : q[s].st = "open" /\ q[s].done
Command == /\ got = <<>> /\ Len(prog) < MaxLen /\ ~Ended
           /\ \E s \in Stmts : IF Sizes THEN IF prog = <<>> THEN Exec(s) ELSE StartFetch(s)
                               ELSE Exec(s) \/ StartFetch(s) \/ Drop(s)
Next == Command \/ (got # <<>> /\ Pull)

Delivers == ok
EmitPlan == got = <<>> /\ (IF Sizes THEN Ended ELSE Len(prog) = MaxLen) => PrintT(<<"PLAN", ToJson(prog)>>)
=============================================================================
