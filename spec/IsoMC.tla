------------------------------- MODULE IsoMC --------------------------------
(* The design: connections that share nothing.  A connection's command is received in two segments, may wait for the application, changes or reads the
   connection's own state, and its response may wait for the socket.  TLC explores every interleaving of the connections' steps.
   Checked: each connection's responses are what its own commands give when it is alone.  The interleavings are printed and replayed.      *)
EXTENDS Judge

CONSTANTS Conns, Kinds, Len0
VARIABLES store, phase, prog, resp, own, plan
vars == <<store, phase, prog, resp, own, plan>>
(* A command: <<"set", v>> or <<"get">>; how: "quick", "app" (waits for the application), "slow" (waits for the socket) *)
Cmd(c, n, h) == IF (c + n) % 2 = 0 THEN <<"set", 1, h>> ELSE <<"get", 0, h>>
Init == /\ store = [c \in Conns |-> 0] /\ phase = [c \in Conns |-> <<"idle">>] /\ prog = [c \in Conns |-> 0]
        /\ resp = [c \in Conns |-> <<>>] /\ own = [c \in Conns |-> <<>>] /\ plan = <<>>
Do(c, a) == plan' = Append(plan, <<c, a>>)
Begin(c) == /\ phase[c] = <<"idle">> /\ prog[c] < Len0 /\ \E h \in Kinds : phase' = [phase EXCEPT ![c] = <<"part", Cmd(c, prog[c], h)>>]
            /\ prog' = [prog EXCEPT ![c] = @ + 1] /\ Do(c, "part") /\ UNCHANGED <<store, resp, own>>
Answer(x, s) == IF x[1] = "get" THEN s ELSE -1
Effect(c, x) == /\ store' = [store EXCEPT ![c] = IF x[1] = "set" THEN x[2] + prog[c] ELSE @]
                /\ own' = [own EXCEPT ![c] = Append(@, <<x, prog[c]>>)]
                /\ resp' = [resp EXCEPT ![c] = Append(@, Answer(x, store[c]))]
Rest(c) == /\ phase[c][1] = "part" /\ Do(c, "rest")
           /\ LET x == phase[c][2] IN
              IF x[3] = "quick" THEN Effect(c, x) /\ phase' = [phase EXCEPT ![c] = <<"idle">>]
              ELSE phase' = [phase EXCEPT ![c] = <<x[3], x>>] /\ UNCHANGED <<store, resp, own>>
           /\ UNCHANGED prog
App(c) == /\ phase[c][1] = "app" /\ Do(c, "app") /\ Effect(c, phase[c][2]) /\ phase' = [phase EXCEPT ![c] = <<"idle">>] /\ UNCHANGED prog
Drain(c) == /\ phase[c][1] = "slow" /\ Do(c, "drain") /\ Effect(c, phase[c][2]) /\ phase' = [phase EXCEPT ![c] = <<"idle">>] /\ UNCHANGED prog
Next == \E c \in Conns : Begin(c) \/ Rest(c) \/ App(c) \/ Drain(c)

(* The same commands alone *)
Alone(h) == FoldLeft(LAMBDA a, e : [s |-> IF e[1][1] = "set" THEN e[1][2] + e[2] ELSE a.s, r |-> Append(a.r, Answer(e[1], a.s))],
                     [s |-> 0, r |-> <<>>], h).r
AsIfAlone == \A c \in Conns : resp[c] = Alone(own[c])
Done == \A c \in Conns : prog[c] = Len0 /\ phase[c] = <<"idle">>
EmitPlan == Done => PrintT(<<"PLAN", ToJson(plan)>>)
=============================================================================
