------------------------------ MODULE Catalog -------------------------------
(* The catalog of a session (property C16).

   A mapping is a sequence of <<catalog, <<<<db, <<<<table, <<<<column, type, nullable, default>>, ...>>>>, ...>>>>, ...>>>> (texts are
   sequences of code points; c.depth tells which levels the application's own mapping had; missing levels are <<>>).  c.builtin is the
   mapping of the library's own databases, c.vars the names of the system variables.
   A query is a relation ("dbs" "tabs" "cols" "vars") restricted by conditions [f, k, v] (k: "eq" "like" "nlike" "ne") and projected to fields;
   the SHOW, DESCRIBE and COM_FIELD_LIST commands are translated to conditions here.                                              *)
EXTENDS Judge, Like

Null == <<-1>>
BuiltinDbs(c) == UNION {{d[1] : d \in Range1(m[2])} : m \in Range1(c.builtin)}
(* a mapping without databases declares tables of the current one *)
Home(c, q) == IF q.cur # <<>> /\ q.cur \notin BuiltinDbs(c) THEN q.cur ELSE <<>>
DbName(c, q, d) == IF c.depth = 2 THEN Home(c, q) ELSE d
Flat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
DbItems(c, q, m, own) == Flat(Map(m, LAMBDA x : Map(x[2], LAMBDA d : [cat |-> x[1], db |-> IF own THEN DbName(c, q, d[1]) ELSE d[1], opt |-> own /\ c.depth = 2])))
TabItems(c, q, m, own) ==
  Flat(Map(m, LAMBDA x : Flat(Map(x[2], LAMBDA d : Map(d[2], LAMBDA t :
    [cat |-> x[1], db |-> IF own THEN DbName(c, q, d[1]) ELSE d[1], tab |-> t[1], opt |-> FALSE])))))
ColItems(c, q, m, own) ==
  Flat(Map(m, LAMBDA x : Flat(Map(x[2], LAMBDA d : Flat(Map(d[2], LAMBDA t : [k \in 1..Len(t[2]) |->
    [cat |-> x[1], db |-> IF own THEN DbName(c, q, d[1]) ELSE d[1], tab |-> t[1], col |-> t[2][k][1], ty |-> t[2][k][2], nul |-> t[2][k][3], def |-> t[2][k][4],
     n |-> k, opt |-> FALSE]]))))))
Items(c, q, level) ==
  CASE level = "dbs" -> DbItems(c, q, c.decl, TRUE) \o DbItems(c, q, c.builtin, FALSE)
    [] level = "tabs" -> TabItems(c, q, c.decl, TRUE) \o TabItems(c, q, c.builtin, FALSE)
    [] level = "cols" -> ColItems(c, q, c.decl, TRUE) \o ColItems(c, q, c.builtin, FALSE)
    [] level = "vars" -> Map(c.vars, LAMBDA v : [var |-> v, opt |-> FALSE])

(* whether an item satisfies a condition for sure / possibly (the case of letters is left open) *)
Must(it, d) == CASE d.k = "eq" -> it[d.f] = d.v
                 [] d.k = "like" -> Like(d.v, it[d.f])
                 [] d.k = "ne" -> Fold(it[d.f]) # Fold(d.v)
                 [] OTHER -> ~Like(Fold(d.v), Fold(it[d.f]))
May(it, d) == CASE d.k = "eq" -> Fold(it[d.f]) = Fold(d.v)
                [] d.k = "like" -> Like(Fold(d.v), Fold(it[d.f]))
                [] d.k = "ne" -> it[d.f] # d.v
                [] OTHER -> ~Like(d.v, it[d.f])

Eq(f, v) == [f |-> f, k |-> "eq", v |-> v]
LikeC(q, f) == IF q.like = <<>> THEN <<>> ELSE <<[f |-> f, k |-> "like", v |-> q.like[1]]>>
Db(q) == IF q.db # <<>> THEN q.db ELSE q.cur
DbC(q) == IF Db(q) # <<>> THEN <<Eq("db", Db(q))>> ELSE <<>>
Level(q) == CASE q.op \in {"dbs", "tabs", "cols", "vars"} -> q.op [] q.op = "showdbs" -> "dbs" [] q.op = "showtabs" -> "tabs" [] OTHER -> "cols"
Conds(q) == CASE q.op = "showdbs" -> LikeC(q, "db")
              [] q.op = "showtabs" -> <<Eq("db", Db(q))>> \o LikeC(q, "tab")
              [] q.op \in {"showcols", "fields", "kw"} -> <<Eq("tab", q.tab)>> \o DbC(q) \o LikeC(q, "col")
              [] q.op = "vars" -> LikeC(q, "var")
              [] OTHER -> q.conds
Fields(q) == CASE q.op = "showdbs" -> <<"db">> [] q.op = "showtabs" -> <<"tab">> [] q.op = "vars" -> <<"var">>
               [] q.op = "fields" -> <<"col">> [] q.op \in {"showcols", "kw"} -> IF q.more THEN <<"col", "ty", "nul", "def">> ELSE <<"col", "ty">>
               [] OTHER -> q.fields
Key(it, fs) == [k \in 1..Len(fs) |-> it[fs[k]]]

(* the object that a SHOW names exists *)
Known(c, q) == CASE q.op = "showtabs" -> \E it \in Range1(Items(c, q, "dbs")) : it.db = Db(q)
                 [] q.op \in {"showcols", "fields", "kw"} -> \E it \in Range1(Items(c, q, "tabs")) : it.tab = q.tab /\ (Db(q) = <<>> \/ it.db = Db(q))
                 [] OTHER -> TRUE
Count(rows, v) == Cardinality({k \in 1..Len(rows) : rows[k] = v})
Rows(c, q) ==
  LET items == Items(c, q, Level(q))
      cs == Range1(Conds(q))
      fs == Fields(q)
      must == SelectSeq(items, LAMBDA it : ~it.opt /\ \A d \in cs : Must(it, d))
      may == SelectSeq(items, LAMBDA it : \A d \in cs : May(it, d))
      mustk == Map(must, LAMBDA it : Key(it, fs))
      mayk == Map(may, LAMBDA it : Key(it, fs))
      rowset == Range1(q.rows)
      mustset == Range1(mustk)
      mayset == Range1(mayk)
      single == Cardinality(mayset) = Len(mayk) /\ Cardinality(rowset) = Len(q.rows)   \* then sets say it all
      extra == IF single THEN rowset \ mayset ELSE {v \in rowset : Count(q.rows, v) > Count(mayk, v)}
      missing == IF single THEN mustset \ rowset ELSE {v \in mustset : Count(q.rows, v) < Count(mustk, v)}
      At(v) == SelectInSeq(may, LAMBDA it : Key(it, fs) = v)
  IN IF q.distinct
     THEN FirstClause(<<Need(mustset \subseteq rowset, "an entry is missing"), Need(rowset \subseteq mayset, "an entry is listed that is not there"),
                        Need(Cardinality(rowset) = Len(q.rows), "an entry is listed twice")>>)
     ELSE IF missing # {} THEN "an entry is missing"
     ELSE IF \E v \in extra : Count(mayk, v) = 0 THEN "an entry is listed that is not there or does not match"
     ELSE IF extra # {} THEN "an entry is listed twice"
     ELSE IF q.ordered /\ ~FoldLeft(LAMBDA acc, v : LET x == may[At(v)] IN
                                       [ok |-> acc.ok /\ ~(x.cat = acc.cat /\ x.db = acc.db /\ x.tab = acc.tab /\ x.n <= acc.n), cat |-> x.cat, db |-> x.db, tab |-> x.tab, n |-> x.n],
                                     [ok |-> TRUE, cat |-> <<>>, db |-> <<>>, tab |-> <<>>, n |-> 0], q.rows).ok
          THEN "columns are not in declaration order"
     \* the positions told count the columns of each table (from 1, or from 0 as this library does)
     ELSE IF q.pos # <<>> /\ \A b \in {0, 1} : \E k \in 1..Len(q.rows) : LET x == may[At(q.rows[k])] IN
                               x.db \notin BuiltinDbs(c) /\ q.pos[k] # x.n - 1 + b
          THEN "ordinal_position is not the position of the column" ELSE ""
Answer(c, q) ==
  IF q.out = "err" THEN Need((q.op = "showtabs" /\ Db(q) = <<>>) \/ ~Known(c, q), "refused")
  ELSE IF q.out # "rs" THEN "no proper answer"
  ELSE IF q.op = "showtabs" /\ Db(q) = <<>> THEN "SHOW TABLES without a database"
  ELSE IF \E d \in Range1(q.defs) : d.fixlen # 12 \/ d.left # 0 \/ ~d.def THEN "a column definition cannot be decoded"
  ELSE IF q.op = "count" THEN LET items == Items(c, q, q.level)
                                  cs == Range1(q.conds) IN
                              Need(q.n <= Cardinality({k \in 1..Len(items) : \A d \in cs : May(items[k], d)})
                                   /\ q.n >= Cardinality({k \in 1..Len(items) : ~items[k].opt /\ \A d \in cs : Must(items[k], d)}), "counted wrongly")
  ELSE Rows(c, q)
Core(c) == FirstClause(<<Need({Dbn \in Range1(c.core[1]) : Dbn \notin BuiltinDbs(c)} = {}, "a built-in database is missing"),
                         Need(\A t \in Range1(c.core[2]) : \E it \in Range1(TabItems(c, [cur |-> <<>>], c.builtin, FALSE)) : it.db = c.core[1][1] /\ it.tab = t,
                              "a built-in table is missing")>>)
Verdict(c) == LET bad == SelectInSeq(c.queries, LAMBDA q : Answer(c, q) # "") IN
              IF Core(c) # "" THEN Core(c)
              ELSE IF bad = 0 THEN "" ELSE c.queries[bad].op \o ": " \o Answer(c, c.queries[bad])
=============================================================================
