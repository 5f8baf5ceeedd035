------------------------------ MODULE Framing ------------------------------
(* Packet framing.  A payload travels as packets of at most MaxP bytes; the first packet shorter than MaxP ends it.
   Cut is the sender's side, Reassemble the receiver's: an incremental reader over the byte stream that is fed arbitrary
   segments.  Property C04 is that the composition is the identity whatever the lengths and the segmentation.          *)
EXTENDS Judge

(* Lengths of the packets a payload of n bytes is cut into *)
Cut(n, maxp) == [k \in 1..(n \div maxp + 1) |-> IF k <= n \div maxp THEN maxp ELSE n % maxp]

(* Lengths of the payloads a client reassembles from packets of the given lengths, and of the incomplete rest *)
Groups(lens, maxp) ==
  FoldLeft(LAMBDA acc, n : IF n = maxp THEN [acc EXCEPT !.part = @ + n, !.open = TRUE]
                           ELSE [out |-> Append(acc.out, acc.part + n), part |-> 0, open |-> FALSE],
           [out |-> <<>>, part |-> 0, open |-> FALSE], lens)

(* The incremental reader: hdr bytes of the current header, need bytes of the current packet still to come, acc the payload so
   far, out the payloads delivered.  H is the header's length; its first H-1 bytes are the little-endian packet length. *)
R0 == [hdr |-> <<>>, need |-> 0, last |-> FALSE, acc |-> <<>>, out |-> <<>>]
HdrLen(h, base) == FoldLeft(LAMBDA a, k : a * base + h[Len(h) - k], 0, [k \in 1..(Len(h) - 1) |-> k])
Feed(r, b, H, maxp, base) ==
  IF Len(r.hdr) < H
  THEN LET h == Append(r.hdr, b) IN
       IF Len(h) < H THEN [r EXCEPT !.hdr = h]
       ELSE LET n == HdrLen(h, base) IN
            IF n = 0 THEN [R0 EXCEPT !.out = Append(r.out, r.acc)]
            ELSE [r EXCEPT !.hdr = h, !.need = n, !.last = n < maxp]
  ELSE LET a == Append(r.acc, b) IN
       IF r.need > 1 THEN [r EXCEPT !.acc = a, !.need = @ - 1]
       ELSE IF r.last THEN [R0 EXCEPT !.out = Append(r.out, a)]
       ELSE [r EXCEPT !.acc = a, !.hdr = <<>>, !.need = 0]
FeedAll(r, bs, H, maxp, base) == FoldLeft(LAMBDA a, b : Feed(a, b, H, maxp, base), r, bs)

-----------------------------------------------------------------------------
(* Recorded behaviour *)
MaxP == 16777215
Seqs(c) == \A k \in 1..Len(c.packets) : c.packets[k][2] = (c.first + k - 1) % 256

(* "pack": what the server sent, as packets <<length, seq>>; want the payloads <<length, digest>> it had to send; got the
   digests of the payloads as reassembled by a standard client.                                                      *)
VPack(c) ==
  LET lens == [k \in 1..Len(c.packets) |-> c.packets[k][1]]
      g == Groups(lens, MaxP)
      want == [k \in 1..Len(c.want) |-> c.want[k][1]]
  IN FirstClause(<<
       Need(~g.open, "a payload is left without its last packet"),
       Need(c.left = 0, "bytes left over that are no packet"),
       Need(Seqs(c), "sequence numbers of the packets don't count up"),
       Need(g.out = want, "the payloads reassembled have other lengths"),
       Need(lens = FlattenSeq([k \in 1..Len(want) |-> Cut(want[k], MaxP)]), "payload cut otherwise than at 16 MiB - 1"),
       Need(c.got = [k \in 1..Len(c.want) |-> c.want[k][2]], "a payload differs from what was to be sent") >>)

(* "unpack": what the server made of a client's payload of the given length and digest *)
VUnpack(c) == FirstClause(<<
  Need(c.sent = Cut(c.len, MaxP), "driver: payload not cut as a client does"),
  Need(c.answered, "no answer to the payload"),
  Need(c.got = c.want, "the payload received differs from the one sent") >>)

(* "conv": the same client bytes in another segmentation.  segs are the segments; ref and got what was observed *)
VConv(c) == FirstClause(<<
  Need(c.small => LET r == FeedAll(R0, FlattenSeq(c.segs), 4, MaxP, 256) IN r.hdr = <<>> /\ r.out = c.payloads,
       "driver: the segments are not the packets of the conversation"),
  Need(c.got.log = c.ref.log, "the application sees something else under this segmentation"),
  Need(c.got.packets = c.ref.packets, "the client observes another conversation under this segmentation"),
  Need(c.got.left = 0 /\ c.got.closed = c.ref.closed, "the connection ends otherwise under this segmentation") >>)

Verdict(c) == CASE c.kind = "pack" -> VPack(c)
                [] c.kind = "unpack" -> VUnpack(c)
                [] c.kind = "conv" -> VConv(c)
                [] OTHER -> "unknown case"
=============================================================================
