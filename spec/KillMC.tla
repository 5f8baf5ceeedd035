------------------------------- MODULE KillMC -------------------------------
(* The design of kills: the target is one task; a kill sets the pending kind and cancels the task, which learns of it where it next
   waits.  KILL QUERY is accepted only while a command is executed whose final packet has not been made; KILL CONNECTION always, and
   nothing revokes it.  The task waits: for a command ("read"), inside the application ("app", any number of times), for the socket
   while rows are under way ("rows"), for the socket after the final packet was made ("term"), for the socket after an ERR ("err").
   TLC explores every program of up to Cmds commands with up to Kills kills at every point.  Checked: every command that the client
   awaits is answered exactly once; nothing unsolicited is sent while no KILL CONNECTION is under way; a KILL QUERY breaks off at most
   the command during which it is issued; KILL CONNECTION closes the session exactly once and for good.                *)
EXTENDS Judge

CONSTANTS Cmds, Kills, MaxWaits
VARIABLES ph,        \* where the task waits; "dead"
          executing, kill, cancel,   \* the design's flags: _executing, _kill, cancellation requested
          sent,      \* commands sent by the client
          ended,     \* for each command the final packets received: sequence of "ok" | "err"
          broken,    \* commands broken off by a kill: sequence of command numbers
          issued,    \* kills issued: [kind, cmd (the command under way for the client, or 0)]
          closes, waits, sched
vars == <<ph, executing, kill, cancel, sent, ended, broken, issued, closes, waits, sched>>

Init == /\ ph = "read" /\ executing = FALSE /\ kill = "none" /\ cancel = FALSE /\ sent = 0 /\ ended = <<>> /\ broken = <<>>
        /\ issued = <<>> /\ closes = 0 /\ waits = 0 /\ sched = <<>>
Awaiting == sent > Len(ended)
S(x) == sched' = Append(sched, x)

SendCmd == /\ ph # "dead" /\ ~Awaiting /\ sent < Cmds /\ sent' = sent + 1 /\ S("cmd")
           /\ UNCHANGED <<ph, executing, kill, cancel, ended, broken, issued, closes, waits>>
IssueKill(kind) ==
  /\ Len(issued) < Kills
  /\ issued' = Append(issued, [kind |-> kind, cmd |-> IF Awaiting THEN sent ELSE 0]) /\ S(kind)
  /\ IF ph = "dead" \/ kill = "CONNECTION" \/ (kind = "QUERY" /\ (kill # "none" \/ ~executing))
     THEN UNCHANGED <<kill, cancel>> ELSE kill' = kind /\ cancel' = TRUE
  /\ UNCHANGED <<ph, executing, sent, ended, broken, closes, waits>>

Go(p) == ph' = p
(* The task goes on, undisturbed *)
Run ==
  /\ ~cancel /\ S("run")
  /\ CASE ph = "read" -> /\ Awaiting /\ executing' = TRUE /\ waits' = 0 /\ Go("app") /\ UNCHANGED <<ended, kill>>
       [] ph = "app" -> \/ Go("rows") /\ UNCHANGED <<executing, ended, kill, waits>>
                        \/ waits < MaxWaits /\ waits' = waits + 1 /\ Go("app") /\ UNCHANGED <<executing, ended, kill>>
                        \/ executing' = FALSE /\ ended' = Append(ended, "err") /\ Go("err") /\ UNCHANGED <<kill, waits>>   \* the application fails
       [] ph = "rows" -> \/ executing' = FALSE /\ ended' = Append(ended, "ok") /\ Go("term") /\ UNCHANGED <<kill, waits>>
                         \/ waits < MaxWaits /\ waits' = waits + 1 /\ Go("rows") /\ UNCHANGED <<executing, ended, kill>>
       [] ph \in {"term", "err"} -> /\ executing' = FALSE /\ Go("read")
                                    /\ kill' = (IF kill = "QUERY" THEN "none" ELSE kill) /\ UNCHANGED <<ended, waits>>
       [] OTHER -> FALSE
  /\ UNCHANGED <<cancel, sent, broken, issued, closes>>
(* The task goes on with the cancellation *)
Cancelled ==
  /\ cancel /\ ph # "dead" /\ cancel' = FALSE /\ S("run")
  /\ IF kill = "QUERY"
     THEN /\ kill' = "none"
          /\ IF executing THEN ended' = Append(ended, "err") /\ broken' = Append(broken, sent) /\ Go("err") ELSE Go("read") /\ UNCHANGED <<ended, broken>>
          /\ executing' = FALSE /\ UNCHANGED closes
     ELSE /\ Go("dead") /\ closes' = closes + 1 /\ UNCHANGED <<kill, executing, ended, broken>>
  /\ UNCHANGED <<sent, issued, waits>>
Next == SendCmd \/ (\E k \in {"QUERY", "CONNECTION"} : IssueKill(k)) \/ Run \/ Cancelled

Conn == \E k \in 1..Len(issued) : issued[k].kind = "CONNECTION"
NothingUnsolicited == Len(ended) <= sent
BreaksOffItsOwn == \A k \in 1..Len(broken) : \E j \in 1..Len(issued) : issued[j].kind = "QUERY" /\ issued[j].cmd = broken[k]
AtMostOne == Len(broken) <= Cardinality({j \in 1..Len(issued) : issued[j].kind = "QUERY"}) /\ Cardinality(Range1(broken)) = Len(broken)
ClosedOnce == closes = (IF ph = "dead" THEN 1 ELSE 0)
DeadOnlyIfKilled == ph = "dead" => Conn
(* Nothing is left to do: *)
Quiet == ~ENABLED Run /\ ~ENABLED Cancelled
InTheEnd == Quiet => /\ ph = "dead" <=> Conn
                     /\ ph # "dead" => ph = "read" /\ ~Awaiting /\ kill = "none"
EmitPlan == Quiet /\ sent = Cmds /\ Len(issued) = Kills => PrintT(<<"PLAN", ToJson(sched)>>)
=============================================================================
