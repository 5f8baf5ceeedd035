-------------------------------- MODULE Vars --------------------------------
(* The typed, scoped store of system variables (property C14).

   The store of a session maps each name to the SET of texts the variable may have (one, except where the property leaves open what
   an odd assignment does).  Null is the text of NULL.  A literal is [k, v, i, b]: v its text; i its value as an integer, "" if it has
   none; b "1"/"0" if it spells a truth value, "" if not.  k: "int" "float" "str" "true" "false" "default" "null" "ref" (v: a
   variable's name) "complex" (an expression that the library may refuse).                                                       *)
EXTENDS Judge

Null == "\\N"
Err == "!"
Schema(c, n) == LET k == SelectInSeq(c.vars, LAMBDA x : x.n = n) IN IF k = 0 THEN [n |-> "", t |-> "", d |-> "", ro |-> TRUE] ELSE c.vars[k]

(* what assigning literal l to a variable of type t leads to: texts, or Err *)
Bool(b) == IF b = "1" THEN "1" ELSE "0"
CoerceLit(c, t, l) ==
  CASE l.k = "complex" -> {Err} \cup (IF l.i # "" /\ t = "int" THEN {l.i} ELSE IF t = "str" /\ l.v # "" THEN {l.v} ELSE {})
    [] t = "int" -> (CASE l.k = "int" -> {l.i}
                       [] l.k = "str" -> IF l.i = "" THEN {Err} ELSE IF l.i = l.v THEN {l.i} ELSE {Err, l.i}
                       [] l.k = "float" -> {Err} \cup Range1(l.near)
                       [] OTHER -> {Err, IF l.k = "true" THEN "1" ELSE "0"})
    [] t = "bool" -> (CASE l.b # "" -> {Bool(l.b)}
                        [] l.k = "str" -> {Err}
                        [] OTHER -> {Err, "1"})
    [] t = "charset" -> IF l.k = "str" /\ Has(l, "cs") /\ l.cs # "" THEN {l.cs} ELSE {Err}
    [] t = "tz" -> IF l.k = "str" /\ Has(l, "tz") /\ l.tz # "bad" THEN {l.v} \cup (IF l.tz = "edge" THEN {Err} ELSE {}) ELSE {Err}
    [] l.k \in {"true", "false"} -> {Err, IF l.k = "true" THEN "ON" ELSE "OFF", IF l.k = "true" THEN "1" ELSE "0",
                                     IF l.k = "true" THEN "True" ELSE "False", IF l.k = "true" THEN "TRUE" ELSE "FALSE"}
    [] t = "coll" -> {l.v, Err}
    [] OTHER -> {l.v}
Coerce(c, store, n, l) ==
  LET s == Schema(c, n) IN
  IF s.n = "" \/ s.ro THEN {Err}
  ELSE IF l.k \in {"default", "null"} THEN {s.d}
  ELSE IF l.k = "ref" THEN LET r == Schema(c, l.v) IN
    IF r.n = "" THEN {Err}
    ELSE UNION {IF w = Null THEN {s.d}
                ELSE IF r.t = s.t THEN {w}
                ELSE {w, Err} : w \in store[l.v]}      \* other types: the driver only reads text variables into text variables
  ELSE CoerceLit(c, s.t, l)

(* an assignment list as a sequence of [n, lit]; returns [ok: may succeed, bad: may fail, st: store after success, part: after a failure] *)
Assign(c, store, items) ==
  FoldLeft(LAMBDA a, it :
      LET w == Coerce(c, a.st, it.n, it.lit)
          good == w \ {Err}
          known == it.n \in DOMAIN store
          upd(s, also) == IF known /\ good # {} THEN [s EXCEPT ![it.n] = good \cup (IF also THEN s[it.n] ELSE {})] ELSE s IN
      [ok |-> a.ok /\ good # {}, bad |-> a.bad \/ (a.ok /\ Err \in w),
       st |-> upd(a.st, FALSE), part |-> IF a.ok THEN upd(a.part, TRUE) ELSE a.part],
    [ok |-> TRUE, bad |-> FALSE, st |-> store, part |-> store], items)

Lit(k, v) == [k |-> k, v |-> v, i |-> "", b |-> "", cs |-> v, tz |-> "", near |-> <<>>]
(* of several items for one name, the last *)
Outermost(items) == FoldLeft(LAMBDA o, k : IF \E j \in (k + 1)..Len(items) : items[j].n = items[k].n THEN o ELSE Append(o, items[k]),
                              <<>>, [k \in 1..Len(items) |-> k])
(* the variables of the special statements *)
Items(c, store, s) ==
  CASE s.op = "names" -> <<[n |-> "character_set_client", lit |-> s.lit], [n |-> "character_set_connection", lit |-> s.lit],
                           [n |-> "character_set_results", lit |-> s.lit]>>
    [] s.op = "charset" -> <<[n |-> "character_set_client", lit |-> s.lit], [n |-> "character_set_results", lit |-> s.lit],
                             [n |-> "character_set_connection", lit |-> IF s.lit.k = "default" THEN s.lit ELSE Lit("ref", "character_set_database")]>>
    [] OTHER -> s.items
Collated(c, s, st) == IF s.op = "names" THEN [st EXCEPT !["collation_connection"] =
                        IF s.lit.k = "default" THEN {Schema(c, "collation_connection").d} ELSE Range1(s.colls)] ELSE st

Render(t, how, w) ==
  IF w = Null THEN IF how = "show" THEN {Null, ""} ELSE {Null}
  ELSE IF t = "bool" /\ how = "show" THEN IF w = "1" THEN {"True", "ON", "1"} ELSE {"False", "OFF", "0"}
  ELSE {w}
(* a read of [name, text] pairs: each is a possible value, and narrows the store *)
Reads(c, store, how, got) ==
  FoldLeft(LAMBDA a, g :
     LET t == Schema(c, g[1]).t
         poss == {w \in a.st[g[1]] : g[2] \in Render(t, how, w)} IN
     IF a.v # "" THEN a
     ELSE IF poss = {} THEN [a EXCEPT !.v = g[1] \o " reads as " \o g[2] \o ", not " \o ToString(a.st[g[1]])]
     ELSE [a EXCEPT !.st = [@ EXCEPT ![g[1]] = poss]],
   [v |-> "", st |-> store], got)
Mod(a, b) == a % b
NowClause(s, off) ==
  LET secs == s.t0..s.t1
      local == {t + 60 * off : t \in (s.t0 - 1)..s.t1} IN
  FirstClause(<<Need(s.now \in local, "NOW() is not the time in time_zone"),
                Need(s.date \in {t \div 86400 : t \in local}, "CURDATE() is not the date in time_zone"),
                Need(s.time \in {Mod(t, 86400) : t \in local}, "CURTIME() is not the time in time_zone")>>)
Offset(c, w) == LET k == SelectInSeq(c.zones, LAMBDA z : z[1] = w) IN IF k = 0 THEN 0 ELSE c.zones[k][2]

Step(c, store, s) ==
  CASE s.op \in {"set", "names", "charset"} ->
         LET a == Assign(c, store, Items(c, store, s)) IN
         IF s.out = "ok" THEN [v |-> Need(a.ok, "an assignment is accepted that is none: " \o s.sql), st |-> IF a.ok THEN Collated(c, s, a.st) ELSE store]
         ELSE IF s.out = "err" THEN [v |-> Need(a.bad \/ ~a.ok \/ (s.op = "names" /\ s.colls = <<>>), "a proper assignment is refused: " \o s.sql), st |-> a.part]
         ELSE [v |-> "no answer to " \o s.sql, st |-> store]
    [] s.op = "other" -> [v |-> Need(s.out \in {"ok", "err", "rs"}, "no answer to " \o s.sql), st |-> store]
    [] s.op = "fails" -> [v |-> Need(s.out = "err", "accepted: " \o s.sql), st |-> store]
    [] s.op = "read" -> IF s.out # "rs" THEN [v |-> "variables cannot be read: " \o s.sql \o ": " \o s.out, st |-> store] ELSE Reads(c, store, "select", s.got)
    [] s.op = "show" -> IF s.out # "rs" THEN [v |-> "SHOW VARIABLES fails: " \o s.sql, st |-> store]
                        ELSE IF \E n \in Range1(s.names) : Cardinality({k \in 1..Len(s.got) : s.got[k][1] = n}) # 1
                        THEN [v |-> "SHOW VARIABLES does not list each variable once", st |-> store]
                        ELSE Reads(c, store, "show", s.got)
    [] s.op = "hint" ->
         LET all == Assign(c, store, s.items)   \* of one name only the outermost hint counts; whether an inner one is looked at is open
             a == Assign(c, store, Outermost(s.items))
             during == IF a.ok THEN a.st ELSE store
             r == Reads(c, during, "select", s.got)
             p == Reads(c, r.st, "select", s.app) IN
         [v |-> FirstClause(<<Need(s.out \in {"ok", "rs", "err"}, "no answer to " \o s.sql),
                              Need(s.out = "err" \/ a.ok, "a SET_VAR that is none is accepted: " \o s.sql),
                              Need(s.out # "err" \/ s.fail \/ a.bad \/ ~a.ok \/ all.bad \/ ~all.ok, "a statement with proper hints fails: " \o s.sql),
                              IF r.v # "" THEN "during the statement " \o r.v ELSE "",
                              IF p.v # "" THEN "in the application " \o p.v ELSE "">>),
          st |-> store]
    [] s.op = "now" ->
         LET a == Assign(c, store, s.items) IN
         IF s.out # "rs" THEN [v |-> "the time cannot be read: " \o s.sql \o ": " \o s.out, st |-> store]
         ELSE [v |-> Need(\E w \in a.st["time_zone"] : NowClause(s, Offset(c, w)) = "",
                          LET w == CHOOSE w \in a.st["time_zone"] : TRUE IN NowClause(s, Offset(c, w)) \o " " \o w), st |-> store]
    [] OTHER -> [v |-> "driver: " \o s.op, st |-> store]

InitStore(c, k) == [n \in {c.vars[j].n : j \in 1..Len(c.vars)} |->
                      IF n = "external_user" THEN {c.users[k]} ELSE {Schema(c, n).d}]
Verdict(c) ==
  IF ~c.ok THEN "the connection is not set up"
  ELSE IF \E k \in 1..Len(c.greetings) : c.greetings[k] # Schema(c, "version").d THEN "the handshake does not announce the variable version"
  ELSE FoldLeft(LAMBDA a, s : IF a.v # "" THEN a
                              ELSE LET r == Step(c, a.st[s.c], s) IN [v |-> r.v, st |-> [a.st EXCEPT ![s.c] = r.st]],
                [v |-> "", st |-> [k \in 1..Len(c.users) |-> InitStore(c, k)]], c.steps).v
=============================================================================
