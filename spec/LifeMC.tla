------------------------------- MODULE LifeMC -------------------------------
(* The design: a connection is one task, registered, in nested "finally" blocks: the session is closed when the block around the command
   phase is left, then the connection is deregistered, then the socket is closed.  Faults: the client goes away (noticed by the next read, or by
   a write), a kill, an exception of the application in the call under way.  TLC explores every placement of up to Faults faults.
   Checked: at the end everything is released, and the session was closed once if and only if init had completed.
   Placements are printed and replayed.                                                                               *)
EXTENDS Judge

CONSTANTS Faults, MaxCmds
VARIABLES at, gone, cancel, inited, closes, reg, sock, cmds, faults, sched, late
vars == <<at, gone, cancel, inited, closes, reg, sock, cmds, faults, sched, late>>
(* at: "factory", "handshake", "init", "read", "app", "write", "closing", "dereg", "sockclose", "dead" *)
Init == /\ at = "factory" /\ gone = FALSE /\ cancel = FALSE /\ inited = FALSE /\ closes = 0 /\ reg = FALSE /\ sock = TRUE /\ cmds = 0
        /\ faults = 0 /\ sched = <<>> /\ late = FALSE
S(x) == sched' = Append(sched, x)
Live == at # "dead"
Quit(p) == at' = p
(* Leaving the command phase, or what comes before it, for whatever reason *)
Out == IF at \in {"read", "app", "write"} THEN "closing" ELSE IF at = "closing" THEN "dereg" ELSE IF reg THEN "dereg" ELSE "sockclose"

Raise == /\ at \in {"factory", "handshake", "init", "app", "closing"} /\ faults < Faults /\ faults' = faults + 1
         /\ S("raise") /\ Quit(IF at = "app" THEN "write" ELSE Out)
         /\ UNCHANGED <<gone, cancel, inited, closes, reg, sock, cmds, late>>
GoAway == /\ Live /\ ~gone /\ faults < Faults /\ faults' = faults + 1 /\ gone' = TRUE /\ S("gone")
          /\ UNCHANGED <<at, cancel, inited, closes, reg, sock, cmds, late>>
Kill == /\ reg /\ at \in {"handshake", "init", "read", "app", "write"} /\ ~cancel /\ faults < Faults /\ faults' = faults + 1 /\ cancel' = TRUE /\ S("kill")
        /\ UNCHANGED <<at, gone, inited, closes, reg, sock, cmds, late>>
Cancelled == /\ cancel /\ at \in {"handshake", "init", "read", "app", "write"} /\ cancel' = FALSE /\ S("step") /\ Quit(Out)
             /\ UNCHANGED <<gone, inited, closes, reg, sock, cmds, faults, late>>
Step ==
  /\ ~(cancel /\ at \in {"handshake", "init", "read", "app", "write"}) /\ Live /\ S("step") /\ UNCHANGED <<gone, cancel, faults>>
  /\ CASE at = "factory" -> at' = "handshake" /\ reg' = TRUE /\ UNCHANGED <<inited, closes, sock, cmds, late>>
       [] at = "handshake" -> at' = (IF gone THEN Out ELSE "init") /\ UNCHANGED <<inited, closes, reg, sock, cmds, late>>
       [] at = "init" -> at' = "read" /\ inited' = TRUE /\ UNCHANGED <<closes, reg, sock, cmds, late>>
       [] at = "read" -> at' = (IF gone \/ cmds = MaxCmds THEN Out ELSE "app") /\ cmds' = cmds + 1 /\ UNCHANGED <<inited, closes, reg, sock, late>>
       [] at = "app" -> at' \in {"app", "write"} /\ (at' = "app" => ~late) /\ late' = TRUE /\ UNCHANGED <<inited, closes, reg, sock, cmds>>
       [] at = "write" -> at' \in (IF gone THEN {Out, "read"} ELSE {"read"}) /\ late' = FALSE /\ UNCHANGED <<inited, closes, reg, sock, cmds>>
       [] at = "closing" -> at' = "dereg" /\ closes' = closes + 1 /\ UNCHANGED <<inited, reg, sock, cmds, late>>
       [] at = "dereg" -> at' = "sockclose" /\ reg' = FALSE /\ UNCHANGED <<inited, closes, sock, cmds, late>>
       [] at = "sockclose" -> at' = "dead" /\ sock' = FALSE /\ UNCHANGED <<inited, closes, reg, cmds, late>>
Next == Raise \/ GoAway \/ Kill \/ Cancelled \/ Step
Released == at = "dead" => /\ ~reg /\ ~sock /\ closes <= 1
                           /\ ~inited => closes = 0
                           /\ inited => closes = 1 \/ \E k \in 1..Len(sched) : sched[k] = "raise"
NotEarly == closes > 0 => at \in {"dereg", "sockclose", "dead"}
EmitPlan == at = "dead" /\ faults = Faults => PrintT(<<"PLAN", ToJson(sched)>>)
=============================================================================
