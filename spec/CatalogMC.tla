----------------------------- MODULE CatalogMC ------------------------------
(* The catalog as relations: a mapping is flattened to one row for each column, table and database; a SHOW becomes a selection on one
   relation.  Checked for every mapping, current database, command and pattern in the bounds: the answer is what the mapping says.
   LIKE is computed the way a matcher works that never backs up (segments between %s, each at its first occurrence).
   Printed: every schema with its current database (SCHEMA), every command with its target and pattern (PLAN), the alphabet of LIKE. *)
EXTENDS Like, TLC, Json, FiniteSetsExt

CONSTANTS MaxPat, Names, ColSeqs, Dbs
VARIABLES sch, depth, cur, qry
vars == <<sch, depth, cur, qry>>

a == 97
b == 98
McNames == {<<a>>, <<a, b>>, <<a, Und>>}
McColSeqs == {<<>>, <<<<b>>>>, <<<<a, b>>, <<a, Und>>, <<a>>>>}
McColSeqsOne == {<<<<b>>>>}
McDbs == {<<a>>, <<b, a>>}
McNamesSmall == {<<a>>, <<a, b>>}
McNamesLong == {<<a, a, b, a>>, <<a, b, a, b, a>>, <<b, a, Und, a, a, b>>, <<a, a, a, a>>}
McDbsLong == {<<a, b, b, a, b>>}
Letters == {a, b, Und, Pct}
Pats == UNION {[1..n -> Letters] : n \in 0..MaxPat}
TabMaps == UNION {[T -> ColSeqs] : T \in SUBSET Names}
Cols(m) == \E t \in DOMAIN m : m[t] # <<>>
Schemas == UNION {[D -> TabMaps] : D \in SUBSET Dbs}
None == <<>>
Curs == {None} \cup Dbs \cup {<<b, b>>}
Commands == {"dbs", "tabs", "cols"}

Init == /\ depth \in {2, 3, 4} /\ sch \in Schemas /\ cur \in Curs /\ qry = <<>>
        /\ \E d \in DOMAIN sch : Cols(sch[d])
        /\ depth = 2 => Cardinality(DOMAIN sch) = 1 /\ DOMAIN sch = {CHOOSE d \in Dbs : TRUE}
Ask == /\ qry = <<>>
       /\ \E op \in Commands, d \in {None} \cup Dbs, t \in Names, p \in Pats \cup {<<0>>} :
            /\ (op = "dbs" => d = None) /\ (op # "cols" => t = CHOOSE n \in Names : TRUE)
            /\ qry' = <<op, d, t, p>>
       /\ UNCHANGED <<sch, depth, cur>>
Next == Ask

(* the relations *)
HomeDb(d) == IF depth = 2 THEN cur ELSE d
ColRel == UNION {UNION {{<<HomeDb(d), t, k, sch[d][t][k]>> : k \in 1..Len(sch[d][t])} : t \in DOMAIN sch[d]} : d \in DOMAIN sch}
TabRel == {<<r[1], r[2]>> : r \in ColRel} \cup UNION {{<<HomeDb(d), t>> : t \in DOMAIN sch[d]} : d \in DOMAIN sch}
DbRel == {<<r[1]>> : r \in TabRel} \cup {<<HomeDb(d)>> : d \in DOMAIN sch}

(* a matcher without backtracking *)
RECURSIVE Segs(_, _, _)
Segs(es, seg, out) == IF es = <<>> THEN Append(out, seg)
                      ELSE IF es[1][1] = "*" THEN Segs(Tail(es), <<>>, Append(out, seg))
                      ELSE Segs(Tail(es), Append(seg, es[1]), out)
Fits(seg, s, i) == i + Len(seg) <= Len(s) /\ \A k \in 1..Len(seg) : seg[k][1] = "1" \/ seg[k][2] = s[i + k]
RECURSIVE Walk(_, _, _)
Walk(segs, s, i) ==   \* segs: those after the first %
  IF Len(segs) = 1 THEN Len(s) - Len(segs[1]) >= i /\ Fits(segs[1], s, Len(s) - Len(segs[1]))
  ELSE LET at == {j \in i..Len(s) : Fits(segs[1], s, j)} IN at # {} /\ Walk(Tail(segs), s, Min(at) + Len(segs[1]))
Greedy(p, s) == LET segs == Segs(Elements(p), <<>>, <<>>) IN
                IF Len(segs) = 1 THEN Len(segs[1]) = Len(s) /\ Fits(segs[1], s, 0)
                ELSE Fits(segs[1], s, 0) /\ Walk(Tail(segs), s, Len(segs[1]))
(* LIKE by its definition: the string is a concatenation of what the elements match *)
RECURSIVE Def(_, _)
Def(es, s) == IF es = <<>> THEN s = <<>>
              ELSE IF es[1][1] = "*" THEN \E k \in 0..Len(s) : Def(Tail(es), SubSeq(s, k + 1, Len(s)))
              ELSE s # <<>> /\ (es[1][1] = "1" \/ es[1][2] = s[1]) /\ Def(Tail(es), Tail(s))

Op == qry[1]
Target == IF qry[2] # None THEN qry[2] ELSE cur
Match(s) == qry[4] = <<0>> \/ Greedy(qry[4], s)
Answer == CASE Op = "dbs" -> {r \in DbRel : Match(r[1])}
            [] Op = "tabs" -> {r \in TabRel : r[1] = Target /\ Match(r[2])}
            [] Op = "cols" -> {r \in ColRel : r[2] = qry[3] /\ (Target = None \/ r[1] = Target) /\ Match(r[4])}
(* what the mapping says *)
OK(s) == qry[4] = <<0>> \/ Like(qry[4], s)
Owner(d) == IF depth = 2 THEN Target = cur ELSE Target = d
Says == CASE Op = "dbs" -> {<<HomeDb(d)>> : d \in {x \in DOMAIN sch : OK(HomeDb(x))}}
          [] Op = "tabs" -> UNION {{<<Target, t>> : t \in {x \in DOMAIN sch[d] : OK(x)}} : d \in {x \in DOMAIN sch : Owner(x)}}
          [] Op = "cols" -> UNION {IF qry[3] \in DOMAIN sch[d] THEN {<<HomeDb(d), qry[3], k, sch[d][qry[3]][k]>> : k \in {x \in 1..Len(sch[d][qry[3]]) : OK(sch[d][qry[3]][x])}}
                                   ELSE {} : d \in {x \in DOMAIN sch : Target = None \/ Owner(x)}}

Mirrors == qry # <<>> => Answer = Says
Matcher == qry # <<>> /\ qry[4] # <<0>> => \A s \in Names \cup Dbs : /\ Greedy(qry[4], s) = Like(qry[4], s)
                                                                   /\ Def(Elements(qry[4]), s) = Like(qry[4], s)
Tabs(m) == {<<t, m[t]>> : t \in DOMAIN m}
EmitPlan == /\ (qry = <<>> => PrintT(<<"SCHEMA", ToJson([depth |-> depth, cur |-> cur, dbs |-> {<<d, Tabs(sch[d])>> : d \in DOMAIN sch}])>>))
            /\ (qry # <<>> /\ depth = 2 /\ cur = None /\ sch = (CHOOSE s \in Schemas : DOMAIN s = {CHOOSE d \in Dbs : TRUE} /\ \E d \in DOMAIN s : Cols(s[d]))
                => PrintT(<<"PLAN", ToJson(qry)>>))
=============================================================================
