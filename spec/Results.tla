------------------------------ MODULE Results ------------------------------
(* What a standard client decodes from a result set, in the text and in the binary protocol, compared with the values the
   application returned (property C05).

   A value is [k |-> "null"], or k with
     "int"   neg, d (decimal digits, no leading zeros)          "dec"  b (the decimal numeral, as bytes)
     "bytes" b (the bytes, strings being encoded in the column's character set)
     "float" b (IEEE double, little endian), b4 (IEEE single; only for FLOAT columns)
     "date"  f = <<year, month, day, hour, minute, second, microsecond>>
     "time"  neg, f = <<hours, minutes, seconds, microseconds>> *)
EXTENDS Wire

Digits0(b) == SelectSeq(b, LAMBDA x : x \notin 48..57) = <<>> /\ b # <<>>
(* number of a short digit string *)
Num(b) == FoldLeft(LAMBDA a, x : 10 * a + (x - 48), 0, b)
Strip(d) == IF \E k \in 1..Len(d) : d[k] # 0
            THEN LET k == CHOOSE k \in 1..Len(d) : d[k] # 0 /\ \A j \in 1..(k - 1) : d[j] = 0 IN SubSeq(d, k, Len(d))
            ELSE <<0>>
IsNeg(b) == Len(b) > 0 /\ b[1] = 45
Abs(b) == IF IsNeg(b) THEN Tail(b) ELSE b

(* digits * 256 + x *)
MulAdd(d, x) ==
  LET r == FoldLeft(LAMBDA acc, k : LET v == d[Len(d) + 1 - k] * 256 + acc.c IN [d |-> <<v % 10>> \o acc.d, c |-> v \div 10],
                    [d |-> <<>>, c |-> x], [k \in 1..Len(d) |-> k])
      RECURSIVE Carry(_, _)
      Carry(c, dd) == IF c = 0 THEN dd ELSE Carry(c \div 10, <<c % 10>> \o dd)
  IN Carry(r.c, r.d)
(* Little-endian bytes to decimal digits *)
UDigits(b) == Strip(FoldLeft(LAMBDA d, k : MulAdd(d, b[Len(b) + 1 - k]), <<0>>, [k \in 1..Len(b) |-> k]))
(* Two's complement *)
Negate(b) == FoldLeft(LAMBDA acc, k : LET v == (255 - b[k]) + acc.c IN [b |-> Append(acc.b, v % 256), c |-> v \div 256],
                      [b |-> <<>>, c |-> 1], [k \in 1..Len(b) |-> k]).b
SInt(b, unsigned) == IF ~unsigned /\ b[Len(b)] > 127 THEN [neg |-> TRUE, d |-> UDigits(Negate(b))]
                     ELSE [neg |-> FALSE, d |-> UDigits(b)]
SameInt(v, neg, d) == v.d = d /\ (v.d = <<0>> \/ v.neg = neg)

U4s(b, p) == b[p] + 256 * b[p+1] + 65536 * b[p+2] + (IF b[p+3] < 128 THEN 16777216 * b[p+3] ELSE 0)

(* Text: "YYYY-MM-DD[ HH:MM:SS[.f{1,6}]]" *)
Fraction(b, p) == \* microseconds from the position of the '.'
  LET f == SubSeq(b, p + 1, Len(b)) IN
  IF p > Len(b) THEN 0 ELSE IF b[p] # 46 \/ ~Digits0(f) \/ Len(f) > 6 THEN -1 ELSE Num(f) * 10 ^ (6 - Len(f))
TextDate(b) ==
  LET ok == /\ Len(b) >= 10 /\ b[5] = 45 /\ b[8] = 45 /\ Digits0(SubSeq(b, 1, 4)) /\ Digits0(SubSeq(b, 6, 7)) /\ Digits0(SubSeq(b, 9, 10))
      ymd == <<Num(SubSeq(b, 1, 4)), Num(SubSeq(b, 6, 7)), Num(SubSeq(b, 9, 10))>>
  IN IF ~ok THEN <<>>
     ELSE IF Len(b) = 10 THEN ymd \o <<0, 0, 0, 0>>
     ELSE IF Len(b) < 19 \/ b[11] \notin {32, 84} \/ b[14] # 58 \/ b[17] # 58
             \/ ~Digits0(SubSeq(b, 12, 13)) \/ ~Digits0(SubSeq(b, 15, 16)) \/ ~Digits0(SubSeq(b, 18, 19)) THEN <<>>
     ELSE ymd \o <<Num(SubSeq(b, 12, 13)), Num(SubSeq(b, 15, 16)), Num(SubSeq(b, 18, 19)), Fraction(b, 20)>>
(* Text: "[-]HH[H...]:MM:SS[.f{1,6}]" *)
TextTime(b0) ==
  LET b == Abs(b0)
      p == SelectInSeq(b, LAMBDA x : x = 58)
  IN IF p < 3 \/ Len(b) < p + 5 \/ ~Digits0(SubSeq(b, 1, p - 1)) \/ ~Digits0(SubSeq(b, p + 1, p + 2)) \/ b[p + 3] # 58
        \/ ~Digits0(SubSeq(b, p + 4, p + 5)) THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, neg |-> IsNeg(b0),
           f |-> <<Num(SubSeq(b, 1, p - 1)), Num(SubSeq(b, p + 1, p + 2)), Num(SubSeq(b, p + 4, p + 5)), Fraction(b, p + 6)>>]
SameTime(v, t) == t.ok /\ t.f = v.f /\ (t.neg = v.neg \/ \A k \in 1..4 : v.f[k] = 0)

TextCell(v, b, fobs) ==
  CASE v.k = "int" -> Digits0(Abs(b)) /\ SameInt(v, IsNeg(b), Strip([k \in 1..Len(Abs(b)) |-> Abs(b)[k] - 48]))
    [] v.k \in {"bytes", "dec"} -> b = v.b
    [] v.k = "float" -> fobs = v.b   \* a correctly rounding client's reading of the numeral (computed by the driver)
    [] v.k = "date" -> TextDate(b) = v.f
    [] v.k = "time" -> SameTime(v, TextTime(b))
    [] OTHER -> FALSE

(* Binary; b is the value's bytes, t the column's type as announced *)
BinDate(b) ==
  CASE b[1] = 0 -> <<0, 0, 0, 0, 0, 0, 0>>
    [] b[1] = 4 -> <<U2(b, 2), b[4], b[5], 0, 0, 0, 0>>
    [] b[1] = 7 -> <<U2(b, 2), b[4], b[5], b[6], b[7], b[8], 0>>
    [] OTHER -> <<U2(b, 2), b[4], b[5], b[6], b[7], b[8], U4s(b, 9)>>
BinTime(b) ==
  IF b[1] = 0 THEN [ok |-> TRUE, neg |-> FALSE, f |-> <<0, 0, 0, 0>>]
  ELSE [ok |-> b[2] \in {0, 1} /\ b[7] < 24 /\ b[8] < 60 /\ b[9] < 60, neg |-> b[2] = 1,
        f |-> <<24 * U4s(b, 3) + b[7], b[8], b[9], IF b[1] = 12 THEN U4s(b, 10) ELSE 0>>]
IntTypes == {T_TINY, T_SHORT, T_LONG, T_INT24, T_LONGLONG, T_YEAR, T_BOOL}
DateTypes == {T_DATE, T_DATETIME, T_TIMESTAMP}
LenEnc(b) == LET s == LenStr(b, 1) IN Str(b, s)
BinCell(v, b, t, flags) ==
  CASE v.k = "int" -> IF t \in IntTypes THEN LET i == SInt(b, Bit(flags, 5) \/ t = T_YEAR) IN SameInt(v, i.neg, i.d)
                      ELSE t \notin DateTypes \cup {T_TIME, T_FLOAT, T_DOUBLE, T_NULL}
                           /\ LET x == LenEnc(b) IN Digits0(Abs(x)) /\ SameInt(v, IsNeg(x), Strip([k \in 1..Len(Abs(x)) |-> Abs(x)[k] - 48]))
    [] v.k = "float" -> IF t = T_FLOAT THEN b = v.b4 ELSE t = T_DOUBLE /\ b = v.b
    [] v.k = "date" -> t \in DateTypes /\ BinDate(b) = v.f
    [] v.k = "time" -> t = T_TIME /\ SameTime(v, BinTime(b))
    [] v.k \in {"bytes", "dec"} -> t \notin IntTypes \cup DateTypes \cup {T_TIME, T_FLOAT, T_DOUBLE, T_NULL} /\ LenEnc(b) = v.b
    [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* Types a bare column name may be given, by the kind of its first non-NULL value *)
T_STRINGS == {15, 253, 254}   T_BLOBS == {249, 250, 251, 252}   T_DECIMALS == {0, 246}
Inferable(k) ==
  CASE k = "int" -> IntTypes \cup T_DECIMALS
    [] k = "float" -> {T_DOUBLE}
    [] k = "date" -> DateTypes
    [] k = "time" -> {T_TIME}
    [] k = "dec" -> T_DECIMALS \cup T_STRINGS
    [] k = "bytes" -> T_STRINGS \cup T_BLOBS \cup {245}
    [] OTHER -> 0..255
FirstKind(rows, c) == LET k == SelectInSeq(rows, LAMBDA r : r[c].k # "null") IN IF k = 0 THEN "none" ELSE rows[k][c].k

(* A recorded result: proto, dep, cols (name bytes, type or -1, charset ids or <<>>), rows, and the packets received.  For "cursor" the
   packets are those of COM_STMT_EXECUTE followed by the row packets of the fetches.                                       *)
Verdict(c) ==
  LET n == Len(c.cols)
      lc == Lenenc(c.pk[1], 1)
      defs == [k \in 1..n |-> ColDef(c.pk[1 + k], FALSE)]
      meta == IF c.dep \/ c.proto = "cursor" THEN 0 ELSE 1   \* the EOF between definitions and rows
      types == [k \in 1..n |-> defs[k].type]
      body == SubSeq(c.pk, 2 + n + meta, Len(c.pk) - (IF c.proto = "cursor" THEN 0 ELSE 1))
      RowClause(r) ==
        LET b == body[r]
            tr == TextRow(b, n)
            br == BinRow(b, types)
            ok == IF c.proto = "text" THEN tr.ok ELSE br.ok
            cells == IF c.proto = "text" THEN tr.ss ELSE br.vs
            CellOk(k) ==
              LET v == c.rows[r][k] IN
              IF cells[k].null \/ v.k = "null" THEN cells[k].null /\ v.k = "null"
              ELSE IF c.proto = "text" THEN TextCell(v, Str(b, cells[k]), IF v.k = "float" THEN c.fobs[r][k] ELSE <<>>)
              ELSE BinCell(v, Str(b, cells[k]), types[k], defs[k].flags)
        IN IF ~ok THEN "row " \o ToString(r) \o " cannot be decoded"
           ELSE LET bad == {k \in 1..n : ~CellOk(k)} IN
                IF bad = {} THEN ""
                ELSE "row " \o ToString(r) \o " column " \o ToString(Min(bad)) \o ": the client decodes another value ("
                     \o c.rows[r][Min(bad)].k \o ", type " \o ToString(types[Min(bad)]) \o ", " \o c.proto \o ")"
  IN IF c.failed # "" THEN c.proto \o ": the client gets no result: " \o c.failed
     ELSE IF Len(c.pk) < 1 + n + meta + (IF c.proto = "cursor" THEN 0 ELSE 1) THEN "the client gets no result set"
     ELSE FirstClause(<<
       Need(lc.ok /\ ~lc.null /\ lc.v = n, "another number of columns"),
       Need(\A k \in 1..n : defs[k].ok, "a column definition that cannot be decoded"),
       IF lc.ok /\ lc.v = n /\ \A k \in 1..n : defs[k].ok
       THEN FirstClause(<<
         Need(\A k \in 1..n : defs[k].name = c.cols[k].name, "other column names"),
         Need(\A k \in 1..n : c.cols[k].type >= 0 => defs[k].type = c.cols[k].type, "another column type than declared"),
         Need(\A k \in 1..n : c.cols[k].type < 0 => defs[k].type \in Inferable(FirstKind(c.rows, k)), "the inferred type does not fit"),
         Need(\A k \in 1..n : c.cols[k].cs = <<>> \/ defs[k].charset \in Range1(c.cols[k].cs), "another character set announced"),
         Need(Len(body) = Len(c.rows), "another number of rows (" \o ToString(Len(body)) \o " for " \o ToString(Len(c.rows)) \o ")"),
         IF Len(body) = Len(c.rows) THEN FirstClause([r \in 1..Len(body) |-> RowClause(r)]) ELSE "" >>)
       ELSE "" >>)
=============================================================================
