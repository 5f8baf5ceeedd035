------------------------------ MODULE AttrsMC ------------------------------
(* Sender and parser of parameter blocks: TLC checks that for every small list of placeholder values and attributes, in every
   combination of capabilities and flags, parsing what a client encodes yields the same placeholders, attributes and SQL, and that
   without the capability nothing of the text is taken for a parameter block.  Every shape is printed and replayed.        *)
EXTENDS Attrs

CONSTANTS MaxN
VARIABLES cmd, qa, np, flag, items
vars == <<cmd, qa, np, flag, items>>

Types == {"str", "tiny", "utiny", "null", "long"}
Byte(ty) == CASE ty = "str" -> 253 [] ty \in {"tiny", "utiny"} -> 1 [] ty = "null" -> 253 [] OTHER -> 8
Raw(k, ty) == CASE ty = "str" -> <<2, 65, k>> [] ty \in {"tiny", "utiny"} -> <<255 - k>> [] ty = "null" -> <<>>
                [] OTHER -> <<255 - k, 255, 255, 255, 255, 255, 255, 255>>
Value(k, ty) == CASE ty = "str" -> [k |-> "str", v |-> <<65, k>>]
                  [] ty = "utiny" -> [k |-> "int", neg |-> FALSE, d |-> <<2, 5, 5 - k>>]
                  [] ty = "null" -> [k |-> "null"]
                  [] OTHER -> [k |-> "int", neg |-> TRUE, d |-> <<k + 1>>]
Name(k) == IF k <= np /\ cmd = "exec" THEN <<>> ELSE <<110, 48 + k>>
EncBlock == IF items = <<>> THEN <<>>
  ELSE <<FoldLeft(LAMBDA a, k : a + (IF items[k] = "null" THEN 2 ^ (k - 1) ELSE 0), 0, [k \in 1..Len(items) |-> k]), 1>>
       \o FlattenSeq([k \in 1..Len(items) |-> <<Byte(items[k]), IF items[k] = "utiny" THEN 128 ELSE 0>>
                                               \o (IF qa THEN <<Len(Name(k))>> \o Name(k) ELSE <<>>)])
       \o FlattenSeq([k \in 1..Len(items) |-> Raw(k, items[k])])
Sql == <<0, 1, 83, 1>>
Payload == IF cmd = "query" THEN <<3>> \o (IF qa THEN <<Len(items), 1>> \o EncBlock ELSE <<>>) \o Sql
           ELSE <<23, 1, 0, 0, 0, IF flag THEN 8 ELSE 0, 1, 0, 0, 0>> \o (IF qa /\ (np > 0 \/ flag) THEN <<Len(items)>> ELSE <<>>) \o EncBlock
Init == /\ cmd \in {"query", "exec"} /\ qa \in BOOLEAN /\ np \in 0..2 /\ flag \in BOOLEAN /\ (cmd = "query" => np = 0 /\ ~flag)
        /\ (~qa => ~flag) /\ \E n \in np..MaxN : items \in [1..n -> Types] /\ (~qa \/ (cmd = "exec" /\ np = 0 /\ ~flag) => n = np)
Next == UNCHANGED vars
Item(k) == [name |-> Name(k), v |-> Value(k, items[k])]
RoundTrip ==
  IF cmd = "query" THEN ParseQuery(Payload, qa) = [ok |-> TRUE, ps |-> [k \in 1..Len(items) |-> Item(k)], sql |-> Sql]
  ELSE LET r == ParseExecute(Payload, qa, np, {}) IN
       r = [ok |-> TRUE, params |-> [k \in 1..np |-> Item(k)], attrs |-> [k \in 1..(Len(items) - np) |-> Item(np + k)]]
EmitPlan == PrintT(<<"PLAN", ToJson([cmd |-> cmd, qa |-> qa, np |-> np, flag |-> flag, items |-> items])>>)
=============================================================================
