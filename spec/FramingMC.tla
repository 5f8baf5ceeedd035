----------------------------- MODULE FramingMC -----------------------------
(* Sender, network and receiver.  The sender frames its payloads with packets of at most MP bytes; the network hands the stream
   to the receiver in segments of any size; the receiver collects them in a buffer and parses whole packets.  With Tls the
   first payload is the SSL request and everything after it is for the TLS layer, whose own (lossless) stream is modelled by
   adding 100 to each byte.  Carry says whether bytes that arrived together with the SSL request are handed on to TLS: the
   property fails without (checked by FramingMC_drop.cfg).                                                              *)
EXTENDS Framing

CONSTANTS MP, MaxLen, NPay, Tls, Carry, H, Plans

VARIABLES pay,   \* lengths of the payloads to send
          net,   \* bytes not yet delivered
          buf,   \* bytes delivered to the receiver's plain buffer, not yet parsed
          tbuf,  \* bytes in the TLS layer
          tls,   \* the switch happened
          r,     \* the incremental reader
          cuts   \* segment boundaries so far (positions in the stream)
vars == <<pay, net, buf, tbuf, tls, r, cuts>>

Data(k, n) == [j \in 1..n |-> (7 * k + j) % 10]
Frame1(k, n, j, len) == \* packet j of payload k
  [i \in 1..(H + len) |-> IF i = 1 THEN len ELSE IF i < H THEN 0 ELSE IF i = H THEN j - 1 ELSE Data(k, n)[(j - 1) * MP + i - H]]
Framed(k, n) == LET c == Cut(n, MP) IN FlattenSeq([j \in 1..Len(c) |-> Frame1(k, n, j, c[j])])
Enc(k, bs) == IF Tls /\ k > 1 THEN [i \in 1..Len(bs) |-> bs[i] + 100] ELSE bs
Stream(p) == FlattenSeq([k \in 1..Len(p) |-> Enc(k, Framed(k, p[k]))])
Want(p) == [k \in 1..Len(p) |-> Data(k, p[k])]

Init == /\ pay \in UNION {[1..n -> 0..MaxLen] : n \in 1..NPay} /\ (Tls => pay[1] \in 1..(MP - 1))
        /\ net = Stream(pay) /\ buf = <<>> /\ tbuf = <<>> /\ tls = FALSE /\ r = R0 /\ cuts = {}
Deliver ==
  \E n \in 1..Len(net) :
    /\ cuts' = IF Plans THEN cuts \cup {Len(Stream(pay)) - Len(net) + n} ELSE cuts
    /\ net' = SubSeq(net, n + 1, Len(net))
    /\ IF tls THEN tbuf' = tbuf \o SubSeq(net, 1, n) /\ UNCHANGED buf ELSE buf' = buf \o SubSeq(net, 1, n) /\ UNCHANGED tbuf
    /\ UNCHANGED <<pay, tls, r>>
ParseByte ==
  \/ /\ ~tls /\ buf # <<>> /\ ~(Tls /\ Len(r.out) = 1)
     /\ r' = Feed(r, buf[1], H, MP, 10) /\ buf' = Tail(buf) /\ UNCHANGED <<pay, net, tbuf, tls, cuts>>
  \/ /\ tls /\ tbuf # <<>>
     /\ r' = Feed(r, tbuf[1] - 100, H, MP, 10) /\ tbuf' = Tail(tbuf) /\ UNCHANGED <<pay, net, buf, tls, cuts>>
Switch == /\ Tls /\ ~tls /\ Len(r.out) = 1 /\ tls' = TRUE
          /\ tbuf' = (IF Carry THEN buf ELSE <<>>) /\ buf' = <<>> /\ UNCHANGED <<pay, net, r, cuts>>
Next == Deliver \/ ParseByte \/ Switch

Lossless == /\ r.out = SubSeq(Want(pay), 1, Len(r.out))
            /\ (net = <<>> /\ buf = <<>> /\ tbuf = <<>> /\ ~(Tls /\ ~tls) => r.out = Want(pay) /\ r.hdr = <<>>)
CutMerges == Groups(FlattenSeq([k \in 1..Len(pay) |-> Cut(pay[k], MP)]), MP) = [out |-> pay, part |-> 0, open |-> FALSE]
EmitPlan == Plans /\ net = <<>> /\ buf = <<>> /\ (\A k \in 1..Len(pay) : pay[k] = MaxLen) /\ Len(pay) = NPay
              => PrintT(<<"PLAN", ToJson(SetToSortSeq(cuts, <))>>)
=============================================================================
