-------------------------- MODULE ClientAutomaton --------------------------
(* The command phase as a standard client sees it: for every command the client runs a deterministic automaton over the
   packets of the response.

   The automaton works on abstract packets [c, n, m, cur]:
     "err", "ok", "count" (n columns), "coldef", "eof" (the packet that ends metadata or rows; cur = a cursor exists),
     "row", "prepok" (n parameters, m columns), "bad".
   Classify reads them off the bytes, as a client does, given the automaton's state.                               *)
EXTENDS Wire

Pk(c) == [c |-> c, n |-> 0, m |-> 0, cur |-> FALSE]

(* Automaton state: ph, columns left, rows so far, column count, kind of command, result *)
Start(kind) ==
  [kind |-> kind, n |-> 0, left |-> 0, rows |-> 0, res |-> "", m |-> 0,
   ph |-> CASE kind \in {"query", "execute", "cursor"} -> "head"
            [] kind = "fetch" -> "rows"
            [] kind = "prepare" -> "prep"
            [] kind = "field_list" -> "fl"
            [] kind \in {"none", "quit"} -> "done"
            [] OTHER -> "ok"]
Done(s, res) == [s EXCEPT !.ph = "done", !.res = res]
AfterDefs(s, dep) == [s EXCEPT !.ph = IF dep \/ s.kind = "cursor" THEN "rows" ELSE "meta"]
AfterParams(s, dep) ==
  IF s.m > 0 THEN [s EXCEPT !.ph = "pcols", !.left = s.m] ELSE Done(s, "prepare")

Client(s, p, dep) ==
  CASE s.ph = "done" -> Done(s, "unasked")
    [] p.c = "bad" -> Done(s, "malformed")
    [] p.c = "err" -> Done(s, IF s.ph \in {"defs", "meta", "rows", "pparams", "pcols", "pmeta"} THEN "rserr" ELSE "err")
    [] s.ph = "ok" -> Done(s, IF p.c = "ok" THEN "ok" ELSE "malformed")
    [] s.ph = "head" ->
         CASE p.c = "ok" -> Done(s, "ok")
           [] p.c = "count" /\ p.n > 0 -> [s EXCEPT !.ph = "defs", !.n = p.n, !.left = p.n]
           [] OTHER -> Done(s, "malformed")
    [] s.ph = "defs" ->
         IF p.c # "coldef" THEN Done(s, "malformed")
         ELSE IF s.left = 1 THEN AfterDefs([s EXCEPT !.left = 0], dep) ELSE [s EXCEPT !.left = @ - 1]
    [] s.ph = "meta" -> IF p.c = "eof" THEN [s EXCEPT !.ph = "rows"] ELSE Done(s, "malformed")
    [] s.ph = "rows" ->
         CASE p.c = "row" -> [s EXCEPT !.rows = @ + 1]
           [] p.c = "eof" -> Done(s, IF p.cur /\ s.kind = "cursor" THEN "cursor" ELSE "rs")
           [] OTHER -> Done(s, "malformed")
    [] s.ph = "prep" ->
         IF p.c # "prepok" THEN Done(s, "malformed")
         ELSE IF p.n > 0 THEN [s EXCEPT !.ph = "pparams", !.n = p.n, !.left = p.n, !.m = p.m]
         ELSE AfterParams([s EXCEPT !.m = p.m], dep)
    [] s.ph \in {"pparams", "pcols"} ->
         IF p.c # "coldef" THEN Done(s, "malformed")
         ELSE IF s.left > 1 THEN [s EXCEPT !.left = @ - 1]
         ELSE IF ~dep THEN [s EXCEPT !.left = 0, !.ph = IF s.ph = "pparams" THEN "pmeta" ELSE "pend"]
         ELSE IF s.ph = "pparams" THEN AfterParams([s EXCEPT !.left = 0], dep) ELSE Done(s, "prepare")
    [] s.ph = "pmeta" -> IF p.c = "eof" THEN AfterParams(s, dep) ELSE Done(s, "malformed")
    [] s.ph = "pend" -> IF p.c = "eof" THEN Done(s, "prepare") ELSE Done(s, "malformed")
    [] s.ph = "fl" ->
         CASE p.c = "coldef" -> [s EXCEPT !.rows = @ + 1]
           [] p.c = "eof" -> Done(s, "fl")
           [] OTHER -> Done(s, "malformed")

(* What the response must amount to, given what the application did: [o, n, m]
     "none"/"zero" no result; "rs" n columns and m rows; "fail" an error before the result; "mid" n columns, then an error
     after m rows; "err" the command itself is wrong; "okerr" OK or ERR; "any" whatever is well-formed.           *)
Amounts(kind, o, s) ==
  LET r == s.res IN
  CASE r \in {"unasked", "malformed"} -> FALSE
    [] kind \in {"none", "quit"} -> r = ""
    [] o.o = "any" -> r # ""
    [] kind \in {"query", "execute", "cursor"} ->
         CASE o.o \in {"none", "zero"} -> r = "ok"
           [] o.o = "rs" -> s.n = o.n /\ IF kind = "cursor" THEN r = "cursor" /\ s.rows = 0 ELSE r = "rs" /\ s.rows = o.m
           [] o.o \in {"fail", "err"} -> r = "err"
           [] o.o = "mid" -> IF kind = "cursor" THEN r \in {"cursor", "err"}
                             ELSE r = "err" \/ (r = "rserr" /\ s.rows <= o.m /\ (s.n = o.n \/ s.n = 0))
           [] o.o = "okerr" -> r \in {"ok", "err"}
           [] OTHER -> FALSE
    [] kind = "fetch" -> IF o.o = "err" THEN r \in {"err", "rserr"} /\ s.rows = 0 ELSE r \in {"rs", "err", "rserr"}
    [] kind = "prepare" -> IF o.o = "err" THEN r = "err" ELSE r = "prepare" /\ s.n = o.n
    [] kind = "field_list" -> IF o.o = "err" THEN r = "err" ELSE r = "fl"
    [] OTHER -> CASE o.o = "ok" -> r = "ok"
                  [] o.o = "err" -> r = "err"
                  [] OTHER -> r \in {"ok", "err"}

-----------------------------------------------------------------------------
(* Bytes to abstract packets, in the state in which the client reads them.  types are the column types of the result
   (binary rows), as announced in its column definitions.                                                         *)
Classify(b, s, dep, types, text) ==
  IF Len(b) = 0 THEN (IF s.ph = "rows" /\ text /\ s.n = 0 THEN Pk("row") ELSE Pk("bad"))
  ELSE IF b[1] = 255 THEN (IF IsErr(b, TRUE) THEN Pk("err") ELSE Pk("bad"))
  ELSE CASE s.ph = "ok" -> IF IsOk(b) THEN Pk("ok") ELSE Pk("bad")
         [] s.ph = "head" ->
              IF b[1] = 0 THEN (IF IsOk(b) THEN Pk("ok") ELSE Pk("bad"))
              ELSE LET l == Lenenc(b, 1) IN
                   IF l.ok /\ ~l.null /\ l.np = Len(b) + 1 THEN [Pk("count") EXCEPT !.n = l.v] ELSE Pk("bad")
         [] s.ph \in {"defs", "pparams", "pcols"} -> IF ColDef(b, FALSE).ok THEN Pk("coldef") ELSE Pk("bad")
         [] s.ph \in {"meta", "pmeta", "pend"} -> IF IsEofPacket(b) THEN Pk("eof") ELSE Pk("bad")
         [] s.ph = "rows" ->
              IF LooksTerm(b, dep)
                THEN IF IsTerm(b, dep) THEN [Pk("eof") EXCEPT !.cur = CursorExists(TermStatus(b, dep))] ELSE Pk("bad")
              ELSE IF text THEN (IF TextRow(b, s.n).ok THEN Pk("row") ELSE Pk("bad"))
              ELSE IF BinRow(b, types).ok THEN Pk("row") ELSE Pk("bad")
         [] s.ph = "fl" ->
              IF LooksTerm(b, dep) THEN (IF IsTerm(b, dep) THEN Pk("eof") ELSE Pk("bad"))
              ELSE IF ColDef(b, TRUE).ok THEN Pk("coldef") ELSE Pk("bad")
         [] s.ph = "prep" ->
              IF b[1] = 0 /\ Len(b) = 12 /\ b[10] = 0
                THEN [c |-> "prepok", n |-> U2(b, 8), m |-> U2(b, 6), cur |-> FALSE] ELSE Pk("bad")
         [] OTHER -> Pk("bad")
=============================================================================
