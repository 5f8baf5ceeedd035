------------------------------ MODULE Binding ------------------------------
(* Prepared-statement parameters (property C06): the text the application receives is the prepared text with each placeholder
   replaced by a literal that denotes the value supplied, and nothing else.

   Values: [k |-> "str", v: code points], [k |-> "int", neg, d: digits], [k |-> "bool", v], [k |-> "float", v: IEEE bytes], [k |-> "null"].
   nums maps numerals (code points) to the IEEE bytes a correctly rounding reader makes of them.                        *)
EXTENDS Sql

StripZ(d) == IF \E k \in 1..Len(d) : d[k] # 0
             THEN LET k == CHOOSE k \in 1..Len(d) : d[k] # 0 /\ \A j \in 1..(k - 1) : d[j] = 0 IN SubSeq(d, k, Len(d))
             ELSE <<0>>
AllDigits(w) == w # <<>> /\ \A k \in 1..Len(w) : DigitCh(w[k])

(* Does the token sequence ts (from text r) denote v?  Parentheses around the literal and a sign before a number are allowed. *)
RECURSIVE Denotes(_, _, _, _)
Denotes(r, ts, v, nums) ==
  CASE Len(ts) >= 3 /\ Txt(r, ts[1]) = <<40>> /\ Txt(r, ts[Len(ts)]) = <<41>> -> Denotes(r, SubSeq(ts, 2, Len(ts) - 1), v, nums)
    [] v.k = "str" -> Len(ts) = 1 /\ ts[1].k = "str" /\ At(r, ts[1].from) = Q1 /\ StrValue(Txt(r, ts[1])) = v.v
    [] v.k = "null" -> Len(ts) = 1 /\ ts[1].k = "word" /\ Upper(Txt(r, ts[1])) = <<78, 85, 76, 76>>
    [] v.k = "bool" -> Len(ts) = 1 /\ ts[1].k = "word"
                       /\ Upper(Txt(r, ts[1])) \in (IF v.v THEN {<<84, 82, 85, 69>>, <<49>>} ELSE {<<70, 65, 76, 83, 69>>, <<48>>})
    [] v.k = "int" ->
         LET neg == Len(ts) = 2 /\ Txt(r, ts[1]) = <<45>>
             n == ts[Len(ts)]
             w == Txt(r, n)
         IN /\ Len(ts) = (IF neg THEN 2 ELSE 1) /\ n.k = "word" /\ AllDigits(w)
            /\ LET d == StripZ([k \in 1..Len(w) |-> w[k] - 48]) IN d = v.d /\ (neg = v.neg \/ d = <<0>>)
    [] v.k = "float" -> LET t == SubSeq(r, ts[1].from, ts[Len(ts)].to) IN
                        /\ Len(ts) = 1 \/ (Len(ts) = 2 /\ Txt(r, ts[1]) = <<45>>)
                        /\ ts[Len(ts)].k = "word" /\ (DigitCh(At(r, ts[Len(ts)].from)) \/ At(r, ts[Len(ts)].from) = 46)
                        /\ \E k \in 1..Len(nums) : nums[k][1] = SelectSeq(t, LAMBDA c : c # SP) /\ nums[k][2] = v.v
    [] OTHER -> FALSE

Gap(s, toks, k) == \* text between token k-1 and token k (k in 1..Len+1)
  SubSeq(s, IF k = 1 THEN 1 ELSE toks[k - 1].to + 1, IF k > Len(toks) THEN Len(s) ELSE toks[k].from - 1)
AllSp(s) == \A k \in 1..Len(s) : s[k] = SP
(* g with spaces added before and after *)
Padded(g, h) == \E j \in 0..(Len(h) - Len(g)) :
                   /\ SubSeq(h, j + 1, j + Len(g)) = g /\ AllSp(SubSeq(h, 1, j)) /\ AllSp(SubSeq(h, j + Len(g) + 1, Len(h)))
(* A literal must not touch a preceding token with which MySQL or another reader would combine it *)
Merges(r, t) == LET p == At(r, t.from - 1)  c == At(r, t.from) IN
                \/ c \in {Q1, Q2} /\ (WordCh(p) \/ p \in Quotes)
                \/ c = MINUS /\ p = MINUS
                \/ WordCh(c) /\ (WordCh(p) \/ p \in {BT, Q2, Q1})

(* How many tokens of rt, from token j on, stand for the value of the placeholder that is token i of tt: literals consist of one
   to six tokens; the shortest that denotes the value and is followed by the template's next token is taken.            *)
Bound(t, tt, r, rt, vals, nums) ==
  FoldLeft(LAMBDA a, i :
      IF a.clause # "" THEN a
      ELSE IF tt[i].k # "param"
        THEN IF a.j > Len(rt) THEN [a EXCEPT !.clause = "the text received ends before the prepared text does"]
             ELSE IF rt[a.j].k # tt[i].k \/ Txt(r, rt[a.j]) # Txt(t, tt[i])
               THEN [a EXCEPT !.clause = "text outside the placeholders is changed"]
             ELSE IF (IF i > 1 /\ tt[i - 1].k = "param" THEN ~Padded(Gap(t, tt, i), Gap(r, rt, a.j)) ELSE Gap(t, tt, i) # Gap(r, rt, a.j))
               THEN [a EXCEPT !.clause = "white space or comments outside the placeholders are changed"]
             ELSE [a EXCEPT !.j = @ + 1]
      ELSE LET n == {n \in 1..6 : /\ a.j + n - 1 <= Len(rt) /\ Denotes(r, SubSeq(rt, a.j, a.j + n - 1), vals[a.p], nums)}
           IN IF n = {} THEN [a EXCEPT !.clause = "placeholder " \o ToString(a.p) \o " is not replaced by a literal that denotes its value ("
                                                  \o vals[a.p].k \o ")"]
              ELSE IF ~Padded(Gap(t, tt, i), Gap(r, rt, a.j)) THEN [a EXCEPT !.clause = "white space or comments outside the placeholders are changed"]
              ELSE IF Merges(r, rt[a.j]) THEN [a EXCEPT !.clause = "the literal runs into the token before it"]
              ELSE [a EXCEPT !.j = @ + Min(n), !.p = @ + 1],
    [clause |-> "", j |-> 1, p |-> 1], [i \in 1..Len(tt) |-> i])

Conforms(t, r, vals, nums) ==
  LET lt == Lex(t)  lr == Lex(r)
      b == Bound(t, lt.toks, r, lr.toks, vals, nums)
  IN IF Cardinality(Params(lt.toks)) # Len(vals) THEN "driver: number of values"
     ELSE IF b.clause # "" THEN b.clause
     ELSE IF b.j # Len(lr.toks) + 1 THEN "tokens are added at the end of the text"
     ELSE IF (IF lt.toks # <<>> /\ lt.toks[Len(lt.toks)].k = "param"
              THEN ~Padded(Gap(t, lt.toks, Len(lt.toks) + 1), Gap(r, lr.toks, Len(lr.toks) + 1))
              ELSE Gap(t, lt.toks, Len(lt.toks) + 1) # Gap(r, lr.toks, Len(lr.toks) + 1)) THEN "the end of the text is changed"
     ELSE IF lt.ok /\ ~lr.ok THEN "a string or comment is left open" ELSE ""

(* Recorded case: prepared text, announced number of parameters, executions [vals, nums, got (sequence of texts received)] *)
Verdict(c) ==
  FirstClause(<<
    Need(c.announced = Cardinality(Params(Lex(c.text).toks)), "another number of parameters announced than there are placeholders")>>
    \o [k \in 1..Len(c.execs) |->
          LET e == c.execs[k] IN
          IF Len(e.got) # 1 THEN "execution " \o ToString(k) \o ": the application receives " \o ToString(Len(e.got)) \o " statements (" \o e.err \o ")"
          ELSE LET v == Conforms(c.text, e.got[1], e.vals, e.nums) IN IF v = "" THEN "" ELSE "execution " \o ToString(k) \o ": " \o v])
=============================================================================
