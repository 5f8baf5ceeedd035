-------------------------------- MODULE Wire --------------------------------
(* What a standard MySQL client understands: byte-level decoding of protocol values and packets.
   Byte strings are sequences of 0..255, positions are 1-based.  A decoder returns a record with ok = FALSE when the
   bytes run out or are not what the protocol prescribes.                                                          *)
EXTENDS Judge

U1(b, p) == b[p]
U2(b, p) == b[p] + 256 * b[p+1]
U3(b, p) == b[p] + 256 * b[p+1] + 65536 * b[p+2]
Bad == [ok |-> FALSE, null |-> FALSE, v |-> 0, np |-> 0]

(* Length-encoded integer; values beyond 2^31-1 are not lengths of anything a client could receive here *)
Lenenc(b, p) ==
  IF p > Len(b) THEN Bad
  ELSE LET f == b[p] IN
    CASE f < 251 -> [ok |-> TRUE, null |-> FALSE, v |-> f, np |-> p + 1]
      [] f = 251 -> [ok |-> TRUE, null |-> TRUE, v |-> 0, np |-> p + 1]
      [] f = 252 -> IF p + 2 > Len(b) THEN Bad ELSE [ok |-> TRUE, null |-> FALSE, v |-> U2(b, p+1), np |-> p + 3]
      [] f = 253 -> IF p + 3 > Len(b) THEN Bad ELSE [ok |-> TRUE, null |-> FALSE, v |-> U3(b, p+1), np |-> p + 4]
      [] f = 254 -> IF p + 8 > Len(b) \/ b[p+4] > 127 \/ \E k \in 5..8 : b[p+k] # 0 THEN Bad
                    ELSE [ok |-> TRUE, null |-> FALSE, v |-> U3(b, p+1) + 16777216 * b[p+4], np |-> p + 9]
      [] OTHER -> Bad

(* Length-encoded string: bytes from..to, next position *)
LenStr(b, p) ==
  LET l == Lenenc(b, p) IN
  IF ~l.ok THEN [ok |-> FALSE, null |-> FALSE, from |-> 1, to |-> 0, np |-> p]
  ELSE IF l.null THEN [ok |-> TRUE, null |-> TRUE, from |-> 1, to |-> 0, np |-> l.np]
  ELSE IF l.v > Len(b) - l.np + 1 THEN [ok |-> FALSE, null |-> FALSE, from |-> 1, to |-> 0, np |-> p]
  ELSE [ok |-> TRUE, null |-> FALSE, from |-> l.np, to |-> l.np + l.v - 1, np |-> l.np + l.v]
Str(b, s) == SubSeq(b, s.from, s.to)

(* n length-encoded strings one after the other, from position p on *)
LenStrs(b, p, n) ==
  FoldLeft(LAMBDA acc, k : IF ~acc.ok THEN acc
                               ELSE LET s == LenStr(b, acc.np) IN
                                    [ok |-> s.ok, np |-> s.np, ss |-> Append(acc.ss, s)],
               [ok |-> TRUE, np |-> p, ss |-> <<>>], [k \in 1..n |-> k])

-----------------------------------------------------------------------------
(* Packets *)
IsErr(b, p41) == /\ Len(b) >= 3 /\ b[1] = 255
                 /\ U2(b, 2) # 0
                 /\ p41 => /\ Len(b) >= 9 /\ b[4] = 35
                           /\ \A k \in 5..9 : b[k] \in 48..57 \/ b[k] \in 65..90

(* OK: header, affected rows, last insert id, status flags, warnings, info *)
OkBody(b) ==
  LET a == Lenenc(b, 2)
      l == IF a.ok THEN Lenenc(b, a.np) ELSE a
  IN IF ~a.ok \/ a.null \/ ~l.ok \/ l.null \/ l.np + 3 > Len(b)
     THEN [ok |-> FALSE, status |-> 0, affected |-> 0]
     ELSE [ok |-> TRUE, status |-> U2(b, l.np), affected |-> a.v]
IsOk(b) == Len(b) >= 7 /\ b[1] = 0 /\ OkBody(b).ok

(* The packet that ends metadata or rows: EOF, or an OK packet with the EOF header when EOF packets are deprecated *)
IsEofPacket(b) == Len(b) = 5 /\ b[1] = 254
IsOkEof(b) == Len(b) >= 7 /\ Len(b) < 16777215 /\ b[1] = 254 /\ OkBody(b).ok
IsTerm(b, dep) == IF dep THEN IsOkEof(b) ELSE IsEofPacket(b)
TermStatus(b, dep) == IF dep THEN OkBody(b).status ELSE U2(b, 4)
(* What a client takes for a terminator when it expects a row *)
LooksTerm(b, dep) == Len(b) >= 1 /\ b[1] = 254 /\ IF dep THEN Len(b) < 16777215 ELSE Len(b) < 9

Bit(n, k) == (n \div (2 ^ k)) % 2 = 1
LastRowSent(status) == Bit(status, 7)
CursorExists(status) == Bit(status, 6)

(* Column definition: six strings, the length of the fixed fields (12), the fixed fields *)
ColDef(b, fieldlist) ==
  LET s == LenStrs(b, 1, 6)
      f == IF s.ok THEN Lenenc(b, s.np) ELSE Bad
      e == f.np + 12   \* first position after the fixed fields
      d == IF fieldlist /\ e <= Len(b) + 1 THEN LenStr(b, e) ELSE [ok |-> FALSE, np |-> 0]
  IN IF ~s.ok \/ ~f.ok \/ f.null \/ f.v # 12 \/ e > Len(b) + 1 \/ (\E k \in 1..6 : s.ss[k].null)
       THEN [ok |-> FALSE, why |-> "fields"]
     ELSE IF Str(b, s.ss[1]) # <<100, 101, 102>> THEN [ok |-> FALSE, why |-> "catalog"]
     ELSE IF b[e-1] # 0 \/ b[e-2] # 0 THEN [ok |-> FALSE, why |-> "filler"]
     ELSE IF fieldlist /\ (~d.ok \/ d.np # Len(b) + 1) THEN [ok |-> FALSE, why |-> "default"]
     ELSE IF ~fieldlist /\ e # Len(b) + 1 THEN [ok |-> FALSE, why |-> "trailing bytes"]
     ELSE [ok |-> TRUE, why |-> "", name |-> Str(b, s.ss[5]), schema |-> Str(b, s.ss[2]), table |-> Str(b, s.ss[3]),
           charset |-> U2(b, f.np), type |-> b[f.np + 6], flags |-> U2(b, f.np + 7), decimals |-> b[f.np + 9]]

-----------------------------------------------------------------------------
(* Rows *)
TextRow(b, n) == LET s == LenStrs(b, 1, n) IN [ok |-> s.ok /\ s.np = Len(b) + 1, ss |-> s.ss]

T_DECIMAL == 0   T_TINY == 1   T_SHORT == 2   T_LONG == 3   T_FLOAT == 4   T_DOUBLE == 5   T_NULL == 6
T_TIMESTAMP == 7   T_LONGLONG == 8   T_INT24 == 9   T_DATE == 10   T_TIME == 11   T_DATETIME == 12   T_YEAR == 13
T_BOOL == 244

(* Length of a binary value of type t starting at p; -1 when it cannot be decoded *)
BinLen(b, p, t) ==
  CASE t \in {T_TINY, T_BOOL} -> 1
    [] t \in {T_SHORT, T_YEAR} -> 2
    [] t \in {T_LONG, T_INT24, T_FLOAT} -> 4
    [] t \in {T_LONGLONG, T_DOUBLE} -> 8
    [] t \in {T_DATE, T_DATETIME, T_TIMESTAMP} ->
         IF p > Len(b) \/ b[p] \notin {0, 4, 7, 11} THEN -1 ELSE 1 + b[p]
    [] t = T_TIME -> IF p > Len(b) \/ b[p] \notin {0, 8, 12} THEN -1 ELSE 1 + b[p]
    [] t = T_NULL -> -1
    [] OTHER -> LET s == LenStr(b, p) IN IF ~s.ok \/ s.null THEN -1 ELSE s.np - p

NullBytes(n) == (n + 9) \div 8
IsNullBit(b, k) == Bit(b[2 + ((k + 1) \div 8)], (k + 1) % 8)   \* k-th column (1-based), bitmap offset 2

(* Binary row over columns of the given types: header 0, null bitmap with offset 2, values *)
BinRow(b, types) ==
  LET n == Len(types)
      nb == NullBytes(n)
  IN IF Len(b) < 1 + nb \/ b[1] # 0 THEN [ok |-> FALSE, vs |-> <<>>]
     ELSE LET r == FoldLeft(
                     LAMBDA acc, k :
                       IF ~acc.ok THEN acc
                       ELSE IF IsNullBit(b, k)
                         THEN [acc EXCEPT !.vs = Append(@, [null |-> TRUE, from |-> 1, to |-> 0])]
                       ELSE LET l == BinLen(b, acc.np, types[k]) IN
                            IF l < 0 \/ acc.np + l - 1 > Len(b) THEN [acc EXCEPT !.ok = FALSE]
                            ELSE [ok |-> TRUE, np |-> acc.np + l,
                                  vs |-> Append(acc.vs, [null |-> FALSE, from |-> acc.np, to |-> acc.np + l - 1])],
                     [ok |-> TRUE, np |-> 2 + nb, vs |-> <<>>], [k \in 1..n |-> k])
          IN [ok |-> r.ok /\ r.np = Len(b) + 1, vs |-> r.vs]
=============================================================================
