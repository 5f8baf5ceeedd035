-------------------------------- MODULE Sql --------------------------------
(* The lexical structure of SQL text (MySQL's, with backslash escapes), over sequences of code points. *)
EXTENDS Judge

Q1 == 39  Q2 == 34  BT == 96  BSL == 92  QM == 63  SP == 32  NL == 10  MINUS == 45
Quotes == {Q1, Q2, BT}
WordCh(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122 \/ c \in {95, 36, 46, 64} \/ c > 127
White(c) == c \in {9, 10, 11, 12, 13, 32}
DigitCh(c) == c \in 48..57
At(s, k) == IF k >= 1 /\ k <= Len(s) THEN s[k] ELSE -1

(* Tokens [k, from, to]: "str" (single or double quoted), "id" (backticks), "word" (identifiers, keywords, numbers), "param", "punct".
   White space and comments are not tokens.  "--" always starts a comment here; texts where MySQL disagrees are not used. *)
Tok(k, f, t) == [k |-> k, from |-> f, to |-> t]
LexStep(s, a, k) ==
  LET c == s[k]  nx == At(s, k + 1)
      Close(x) == [x EXCEPT !.m = "n", !.toks = Append(@, Tok("word", x.st, k - 1))]
      Normal(x) ==
        CASE White(c) -> x
          [] c \in Quotes -> [x EXCEPT !.m = "q", !.st = k, !.q = c, !.esc = FALSE]
          [] c = 47 /\ nx = 42 -> [x EXCEPT !.m = "b", !.skip = 1]
          [] c = 35 \/ (c = MINUS /\ nx = MINUS) -> [x EXCEPT !.m = "l"]
          [] c = QM -> [x EXCEPT !.toks = Append(@, Tok("param", k, k))]
          [] WordCh(c) -> [x EXCEPT !.m = "w", !.st = k]
          [] OTHER -> [x EXCEPT !.toks = Append(@, Tok("punct", k, k))]
  IN IF a.skip > 0 THEN [a EXCEPT !.skip = @ - 1]
     ELSE CASE a.m = "n" -> Normal(a)
            [] a.m = "w" -> IF WordCh(c) \/ (c \in {43, 45} /\ s[k - 1] \in {69, 101} /\ DigitCh(s[a.st])) THEN a
                            ELSE Normal(Close(a))
            [] a.m = "q" -> IF a.esc THEN [a EXCEPT !.esc = FALSE]
                            ELSE IF c = BSL /\ a.q # BT THEN [a EXCEPT !.esc = TRUE]
                            ELSE IF c # a.q THEN a
                            ELSE IF nx = a.q THEN [a EXCEPT !.skip = 1]
                            ELSE [a EXCEPT !.m = "n", !.toks = Append(@, Tok(IF a.q = BT THEN "id" ELSE "str", a.st, k))]
            [] a.m = "b" -> IF c = 42 /\ nx = 47 THEN [a EXCEPT !.m = "n", !.skip = 1] ELSE a
            [] OTHER -> IF c = NL THEN [a EXCEPT !.m = "n"] ELSE a
Lex(s) ==
  LET r == FoldLeft(LAMBDA a, k : LexStep(s, a, k), [m |-> "n", st |-> 0, q |-> 0, esc |-> FALSE, skip |-> 0, toks |-> <<>>],
                    [k \in 1..Len(s) |-> k])
  IN [toks |-> IF r.m = "w" THEN Append(r.toks, Tok("word", r.st, Len(s))) ELSE r.toks,
      ok |-> r.m \notin {"q", "b"}]
Txt(s, t) == SubSeq(s, t.from, t.to)
Params(toks) == {k \in 1..Len(toks) : toks[k].k = "param"}

(* Contents of a single-quoted string token *)
Unescape(c) == CASE c = 48 -> 0 [] c = 98 -> 8 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] c = 90 -> 26 [] OTHER -> c
StrValue(raw) ==
  LET r == FoldLeft(LAMBDA a, k :
             LET c == raw[k] IN
             IF a.skip THEN [a EXCEPT !.skip = FALSE]
             ELSE IF a.esc THEN [a EXCEPT !.esc = FALSE, !.v = IF c \in {37, 95} THEN @ \o <<BSL, c>> ELSE Append(@, Unescape(c))]
             ELSE IF c = BSL THEN [a EXCEPT !.esc = TRUE]
             ELSE [a EXCEPT !.v = Append(@, c), !.skip = c = raw[1]],
           [v |-> <<>>, esc |-> FALSE, skip |-> FALSE], [k \in 1..(Len(raw) - 2) |-> k + 1])
  IN r.v
Upper(s) == [k \in 1..Len(s) |-> IF s[k] \in 97..122 THEN s[k] - 32 ELSE s[k]]
=============================================================================
