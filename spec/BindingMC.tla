----------------------------- MODULE BindingMC -----------------------------
(* The design: every placeholder found by the lexer is replaced by an escaped literal, set apart by spaces where it touches a
   character it could merge with.  TLC builds every template over a nasty alphabet up to MaxLen and checks that the result
   conforms (Binding.tla) for every tuple of nasty values.  Templates are printed and replayed.                        *)
EXTENDS Binding

CONSTANTS MaxLen, Alphabet
VARIABLE t

S(v) == [k |-> "str", v |-> v]
I(neg, d) == [k |-> "int", neg |-> neg, d |-> d]
Vals == {S(<<>>), S(<<Q1>>), S(<<BSL>>), S(<<QM>>), S(<<BSL, Q1>>), S(<<97, Q2>>), I(FALSE, <<1, 0>>), I(TRUE, <<5>>), [k |-> "null"]}

Esc(v) == FlattenSeq([k \in 1..Len(v) |-> IF v[k] \in {Q1, BSL} THEN <<BSL, v[k]>> ELSE <<v[k]>>])
Lit(v) == CASE v.k = "str" -> <<Q1>> \o Esc(v.v) \o <<Q1>>
            [] v.k = "int" -> (IF v.neg THEN <<45>> ELSE <<>>) \o [k \in 1..Len(v.d) |-> v.d[k] + 48]
            [] OTHER -> <<78, 85, 76, 76>>
Touchy(c) == c = QM \/ c \in Quotes \/ c = MINUS \/ WordCh(c)
Subst(s, vs) ==
  LET ps == SetToSortSeq({x.from : x \in {Lex(s).toks[k] : k \in Params(Lex(s).toks)}}, <)
      r == FoldLeft(LAMBDA a, k :
             IF k > Len(ps) THEN [a EXCEPT !.out = @ \o SubSeq(s, a.pos, Len(s))]
             ELSE LET p == ps[k] IN
                  [pos |-> p + 1,
                   out |-> a.out \o SubSeq(s, a.pos, p - 1) \o (IF Touchy(At(s, p - 1)) THEN <<SP>> ELSE <<>>) \o Lit(vs[k])
                           \o (IF Touchy(At(s, p + 1)) THEN <<SP>> ELSE <<>>)],
           [pos |-> 1, out |-> <<>>], [k \in 1..(Len(ps) + 1) |-> k])
  IN r.out
NP(s) == Cardinality(Params(Lex(s).toks))
(* texts whose tokens MySQL and Lex see alike *)
Plain(s) == Lex(s).ok /\ ~\E k \in 1..(Len(s) - 1) : s[k] = MINUS /\ s[k + 1] = MINUS /\ ~White(At(s, k + 2)) /\ k + 2 <= Len(s)

Init == t = <<>>
Next == Len(t) < MaxLen /\ \E c \in Alphabet : t' = Append(t, c)
Safe == Plain(t) /\ NP(t) \in 1..2 => \A vs \in [1..NP(t) -> Vals] : Conforms(t, Subst(t, vs), vs, <<>>) = ""
EmitPlan == Plain(t) /\ NP(t) >= 1 /\ Len(t) >= 2 => PrintT(<<"PLAN", ToJson(t)>>)
=============================================================================
