------------------------------- MODULE Cursor -------------------------------
(* Server-side cursors (property C11): a reference machine over the statements of one connection, and the judgement of a recorded
   conversation against it.

   A statement is "unknown", "idle" (prepared, no cursor), "open" (result res, rows delivered so far pos) or "spent" (a fetch of the
   cursor has failed, so its remaining rows are gone).  A result has a number res and a source of n rows; a source with fail = j > 0
   raises instead of giving row j.  Row r of result res carries the tag 65536 * res + r in its first column.               *)
EXTENDS Wire

Unknown == [st |-> "unknown", res |-> 0, pos |-> 0, n |-> 0, fail |-> 0, done |-> FALSE]
Idle == [Unknown EXCEPT !.st = "idle"]
Open(res, n, fail) == [st |-> "open", res |-> res, pos |-> 0, n |-> n, fail |-> fail, done |-> FALSE]   \* done: exhaustion was flagged
(* Rows the source can give: all, or those before the failing one *)
Gives(q) == IF q.fail > 0 THEN q.fail - 1 ELSE q.n
Left(q) == Gives(q) - q.pos

(* What fetching k rows of statement q yields: rows from..to of its result, then a terminator (flag: "set", "clear" or "either") or ERR *)
Fetch(q, k) ==
  CASE q.st \in {"unknown", "idle"} -> [from |-> 1, to |-> 0, end |-> "err", flag |-> "either", q |-> q]
    [] q.st = "spent" -> [from |-> 1, to |-> 0, end |-> "any", flag |-> "set", q |-> q]
    [] k <= Left(q) -> [from |-> q.pos + 1, to |-> q.pos + k, end |-> "eof",
                        flag |-> IF k < Left(q) \/ q.fail > 0 THEN "clear" ELSE "either", q |-> [q EXCEPT !.pos = @ + k]]
    [] q.fail > 0 -> [from |-> q.pos + 1, to |-> Gives(q), end |-> "err", flag |-> "either", q |-> [q EXCEPT !.st = "spent"]]
    [] OTHER -> \* not filled; a cursor already exhausted may also be refused
                [from |-> q.pos + 1, to |-> q.n, end |-> IF q.pos = q.n /\ q.done THEN "any" ELSE "eof", flag |-> "set",
                 q |-> [q EXCEPT !.pos = q.n, !.done = TRUE]]

-----------------------------------------------------------------------------
(* Recorded packets *)
TagOf(b) == b[3] + 256 * b[4] + 65536 * b[5]     \* after the header and a one-byte null bitmap, an 8-byte integer
LenencLen(w) == IF w < 251 THEN 1 ELSE IF w < 65536 THEN 3 ELSE 4
(* Row r of result res: the row's first bytes and its length, the second column being a string of w bytes *)
IsRow(p, res, r, w) == /\ p.len = 10 + LenencLen(w) + w /\ p.b[1] = 0 /\ p.b[2] = 0
                       /\ TagOf(p.b) = 65536 * res + r /\ \A k \in 6..10 : p.b[k] = 0
Rows(p, from, to, res, w) == /\ Len(p) >= to - from + 1
                             /\ \A k \in 1..(to - from + 1) : IsRow(p[k], res, from + k - 1, w)
Tail1(p, n) == SubSeq(p, n + 1, Len(p))
OneErr(p) == Len(p) = 1 /\ p[1].len = Len(p[1].b) /\ IsErr(p[1].b, TRUE)
OneTerm(p, dep) == Len(p) = 1 /\ p[1].len = Len(p[1].b) /\ IsTerm(p[1].b, dep)
Flag(p, dep) == LastRowSent(TermStatus(p[1].b, dep))
OneOk(p) == Len(p) = 1 /\ p[1].len = Len(p[1].b) /\ IsOk(p[1].b)

FirstBad(p, from, to, res, w) ==
  LET bad == {k \in 1..(to - from + 1) : k > Len(p) \/ ~IsRow(p[k], res, from + k - 1, w)} IN
  IF bad = {} THEN "" ELSE "row " \o ToString(from + Min(bad) - 1) \o " of the result is not delivered in its place"

FetchClause(e, p, dep, w) ==
  LET n == e.to - e.from + 1
      end == Tail1(p, n)
  IN IF ~Rows(p, e.from, e.to, e.q.res, w)
       THEN FirstBad(p, e.from, e.to, e.q.res, w) \o " (" \o ToString(Len(p)) \o " packets for " \o ToString(n) \o " rows)"
     ELSE CASE e.end = "err" -> Need(OneErr(end), "no ERR")
            [] e.end = "any" /\ OneErr(end) -> ""
            [] OTHER -> IF ~OneTerm(end, dep) THEN "the rows due are not followed by a terminator (" \o ToString(Len(end)) \o " packets follow)"
                        ELSE IF e.flag = "set" THEN Need(Flag(end, dep), "exhaustion is not flagged")
                        ELSE IF e.flag = "clear" THEN Need(~Flag(end, dep), "exhaustion is flagged while rows remain") ELSE ""

(* COM_STMT_EXECUTE: x.n rows (-1: OK without a result set, -2: the application refuses), x.cursor asked for *)
ExecClause(x, p, dep) ==
  LET defs == [k \in 1..2 |-> ColDef(p[1 + k].b, FALSE)]
      meta == Len(p) >= 3 /\ p[1].len = 1 /\ p[1].b[1] = 2 /\ \A k \in 1..2 : p[1 + k].len = Len(p[1 + k].b) /\ defs[k].ok
      rest == Tail1(p, IF x.cursor THEN 3 ELSE IF dep THEN 3 ELSE 4)
      gives == IF x.fail > 0 THEN x.fail - 1 ELSE x.n
  IN CASE x.n = -1 -> Need(OneOk(p), "execute: no OK")
       [] x.n = -2 -> Need(OneErr(p), "execute: no ERR")
       [] x.fail > 0 /\ OneErr(p) -> ""   \* rows are looked at before the first is sent
       [] ~meta -> "execute: no column definitions"
       [] x.cursor -> IF ~OneTerm(rest, dep) THEN "execute: a cursor is asked for, but something else than metadata is sent"
                      ELSE Need(CursorExists(TermStatus(rest[1].b, dep)) , "execute: the cursor is not announced")
       [] OTHER -> IF ~Rows(rest, 1, gives, x.res, x.w) THEN "execute: " \o FirstBad(rest, 1, gives, x.res, x.w)
                   ELSE IF x.fail > 0 THEN Need(OneErr(Tail1(rest, gives)), "execute: no ERR")
                   ELSE Need(OneTerm(Tail1(rest, gives), dep), "execute: no terminator")

(* The machine's step: [q: statements after it, clause] *)
Step(q, w, x, dep) ==
  CASE x.op = "prepare" -> [q |-> [q EXCEPT ![x.s] = Idle], w |-> w, clause |-> Need(x.ok, "prepare fails")]
    [] x.op = "exec" ->
         IF q[x.s].st = "unknown" THEN [q |-> q, w |-> w, clause |-> Need(OneErr(x.pk), "execute of an unknown statement: no ERR")]
         ELSE [q |-> [q EXCEPT ![x.s] = IF x.cursor /\ x.n >= 0 /\ ~OneErr(x.pk)
                                        THEN Open(x.res, x.n, x.fail) ELSE Idle],
               w |-> [w EXCEPT ![x.s] = x.w], clause |-> ExecClause(x, x.pk, dep)]
    [] x.op = "fetch" -> LET e == Fetch(q[x.s], x.k) IN
                         [q |-> [q EXCEPT ![x.s] = e.q], w |-> w, clause |-> FetchClause(e, x.pk, dep, w[x.s])]
    [] x.op = "reset" -> [q |-> [q EXCEPT ![x.s] = IF @.st = "unknown" THEN @ ELSE Idle], w |-> w,
                          clause |-> IF q[x.s].st = "unknown" THEN Need(OneErr(x.pk), "reset of an unknown statement: no ERR")
                                     ELSE Need(OneOk(x.pk), "reset: no OK")]
    [] x.op = "close" -> [q |-> [q EXCEPT ![x.s] = Unknown], w |-> w, clause |-> Need(x.pk = <<>>, "close is answered")]
    [] OTHER -> [q |-> q, w |-> w, clause |-> Need(x.pk # <<>>, "another command gets no answer")]

(* Recorded case: dep, steps *)
Verdict(c) ==
  LET r == FoldLeft(LAMBDA a, k :
             IF a.clause # "" THEN a
             ELSE LET x == c.steps[k]
                      t == Step(a.q, a.w, x, c.dep)
                  IN [q |-> t.q, w |-> t.w,
                      clause |-> IF t.clause = "" THEN "" ELSE "step " \o ToString(k) \o " (" \o x.op \o " of statement " \o ToString(x.s)
                                 \o ", " \o a.q[x.s].st \o "): " \o t.clause],
           [q |-> [s \in 1..3 |-> Unknown], w |-> [s \in 1..3 |-> 0], clause |-> ""], [k \in 1..Len(c.steps) |-> k])
  IN r.clause
=============================================================================
