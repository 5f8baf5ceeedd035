------------------------------- MODULE Attrs -------------------------------
(* COM_QUERY and COM_STMT_EXECUTE as a server must parse them, byte by byte (property C17).

   Parameter block of n > 0 values: null bitmap, new-params-bound flag (1), n times type, flags and - with CLIENT_QUERY_ATTRIBUTES -
   name, then the values that aren't NULL.  Values as in Binding.tla: "str" (v: bytes), "int" (neg, d), "float" (v: its bytes), "null". *)
EXTENDS Wire

R == INSTANCE Results
ParamLen(b, p, ty) ==
  CASE ty \in {1, 244} -> 1 [] ty \in {2, 13} -> 2 [] ty \in {3, 9, 4} -> 4 [] ty \in {8, 5} -> 8 [] ty = 6 -> 0
    [] OTHER -> LET s == LenStr(b, p) IN IF ~s.ok \/ s.null THEN -1 ELSE s.np - p
ParamVal(raw, ty, unsigned) ==
  CASE ty \in {1, 2, 13, 3, 9, 8, 244} -> LET i == R!SInt(raw, unsigned) IN [k |-> "int", neg |-> i.neg /\ i.d # <<0>>, d |-> i.d]
    [] ty \in {4, 5} -> [k |-> "float", v |-> raw]
    [] ty = 6 -> [k |-> "null"]
    [] OTHER -> [k |-> "str", v |-> R!LenEnc(raw)]
Fail == [ok |-> FALSE, ps |-> <<>>, np |-> 1]

(* n values from position p on; long is the set of (0-based) parameters sent as long data *)
Block(b, p, n, named, long) ==
  LET nb == (n + 7) \div 8
      null(k) == Bit(b[p + ((k - 1) \div 8)], (k - 1) % 8)
      heads == FoldLeft(LAMBDA a, k :
                  IF ~a.ok \/ a.np + 1 > Len(b) THEN [a EXCEPT !.ok = FALSE]
                  ELSE LET s == IF named THEN LenStr(b, a.np + 2) ELSE [ok |-> TRUE, null |-> FALSE, from |-> 1, to |-> 0, np |-> a.np + 2] IN
                       IF ~s.ok \/ s.null THEN [a EXCEPT !.ok = FALSE]
                       ELSE [ok |-> TRUE, np |-> s.np,
                             hs |-> Append(a.hs, [ty |-> b[a.np], uns |-> b[a.np + 1] >= 128, name |-> Str(b, s)])],
                  [ok |-> TRUE, np |-> p + nb + 1, hs |-> <<>>], [k \in 1..n |-> k])
      vals == FoldLeft(LAMBDA a, k :
                 LET h == heads.hs[k] IN
                 IF ~a.ok THEN a
                 ELSE IF null(k) THEN [a EXCEPT !.ps = Append(@, [name |-> h.name, v |-> [k |-> "null"]])]
                 ELSE IF (k - 1) \in long THEN [a EXCEPT !.ps = Append(@, [name |-> h.name, v |-> [k |-> "long"]])]
                 ELSE LET l == ParamLen(b, a.np, h.ty) IN
                      IF l < 0 \/ a.np + l - 1 > Len(b) THEN [a EXCEPT !.ok = FALSE]
                      ELSE [ok |-> TRUE, np |-> a.np + l,
                            ps |-> Append(a.ps, [name |-> h.name, v |-> ParamVal(SubSeq(b, a.np, a.np + l - 1), h.ty, h.uns)])],
                 [ok |-> heads.ok, np |-> heads.np, ps |-> <<>>], [k \in 1..n |-> k])
  IN IF n = 0 THEN [ok |-> TRUE, ps |-> <<>>, np |-> p]
     ELSE IF Len(b) < p + nb \/ b[p + nb] # 1 THEN Fail
     ELSE vals

(* COM_QUERY payload -> the attributes and the SQL *)
ParseQuery(b, qa) ==
  IF ~qa THEN [ok |-> TRUE, ps |-> <<>>, sql |-> SubSeq(b, 2, Len(b))]
  ELSE LET n == Lenenc(b, 2)
           s == IF n.ok THEN Lenenc(b, n.np) ELSE n
           r == IF n.ok /\ s.ok /\ ~n.null /\ s.v = 1 THEN Block(b, s.np, n.v, TRUE, {}) ELSE Fail
       IN [ok |-> r.ok, ps |-> r.ps, sql |-> SubSeq(b, r.np, Len(b))]
(* COM_STMT_EXECUTE payload of a statement with np placeholders -> the values of the placeholders, then the attributes *)
ParseExecute(b, qa, np, long) ==
  LET count == qa /\ (np > 0 \/ Bit(b[6], 3))
      n == IF count THEN Lenenc(b, 11) ELSE [Bad EXCEPT !.ok = TRUE, !.v = np, !.np = 11]
      r == IF n.ok /\ ~n.null THEN Block(b, n.np, n.v, qa, long) ELSE Fail
  IN [ok |-> r.ok /\ r.np = Len(b) + 1 /\ Len(r.ps) >= np, params |-> SubSeq(r.ps, 1, np), attrs |-> SubSeq(r.ps, np + 1, Len(r.ps))]

-----------------------------------------------------------------------------
(* Recorded: the payload, and what the application got: n the number of statements for the application,
   calls [sql, attrs: sequence of <<name, value>>]; f4 maps the bytes of single
   precision values to the double they are; base is the SQL the same command without attributes led to.                  *)
Widen(c, v) == IF v.k = "float" /\ Len(v.v) = 4
               THEN LET k == SelectInSeq(c.f4, LAMBDA x : x[1] = v.v) IN [v EXCEPT !.v = c.f4[k][2]] ELSE v
AttrClause(c, want, got) ==
  FirstClause(<<
    Need(Cardinality({want[k].name : k \in 1..Len(want)}) = Len(want), "driver: attribute names repeat"),
    Need({want[k].name : k \in 1..Len(want)} = {got[k][1] : k \in 1..Len(got)}, "the application receives attributes of other names"),
    Need(Len(got) = Len(want) /\ \A k \in 1..Len(want) : \E j \in 1..Len(got) : got[j][1] = want[k].name /\ got[j][2] = Widen(c, want[k].v),
         "an attribute has another value") >>)
VCall(c) ==
  LET p == IF c.cmd = "query" THEN ParseQuery(c.payload, c.qa) ELSE ParseExecute(c.payload, c.qa, c.np, Range1(c.long)) IN
  IF ~p.ok THEN "driver: payload"
  ELSE IF Len(c.calls) # c.n THEN c.cmd \o ": the application is called " \o ToString(Len(c.calls)) \o " times, not " \o ToString(c.n) \o " (" \o c.err \o ")"
  ELSE FirstClause([k \in 1..c.n |->
       LET g == c.calls[k] IN
       FirstClause(<<
         IF c.cmd = "query" THEN Need(g.sql = p.sql, "the SQL text is altered")
         ELSE Need(g.sql = c.base, "the SQL text depends on the attributes"),
         AttrClause(c, IF c.cmd = "query" THEN p.ps ELSE p.attrs, g.attrs) >>)])
Verdict(c) == IF ~c.ok THEN "the connection is not set up: " \o c.err ELSE VCall(c)
=============================================================================
