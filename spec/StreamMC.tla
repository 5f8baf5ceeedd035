------------------------------ MODULE StreamMC ------------------------------
(* The design: one task pulls rows from a source that never suspends into a buffer of Buf rows; a full buffer goes to the transport, whose own
   buffer stops the task above High rows until it has fallen to Low; every Batch rows the task gives way to the event loop, where another
   connection's command needs Hops turns to be answered.  The client's socket accepts rows whenever its window is open.  Since only the
   rows ahead of the socket are part of the state, TLC explores results of every size.
   Checked: the rows ahead stay below Buf + High + Buf; a command of another connection waits for at most Hops * Batch rows (and is answered
   whenever the task is stopped); with an open window the stream moves (Live).
   The orders of window changes and arrivals, with what the task is doing at the time, are printed and replayed.      *)
EXTENDS Judge

CONSTANTS Buf, High, Low, Batch, Hops, MaxEnv
VARIABLES buf, tb, win, since, turn, wait, hops, env, plan
(* turn: whose turn it is in the event loop ("task", "loop"); wait: rows pulled since the other command arrived (-1: none); hops: turns it still needs *)
vars == <<buf, tb, win, since, turn, wait, hops, env, plan>>
Max2(a, b) == IF a > b THEN a ELSE b
Init == buf = 0 /\ tb = 0 /\ win = 0 /\ since = 0 /\ turn = "task" /\ wait = -1 /\ hops = 0 /\ env = 0 /\ plan = <<>>

Paused == tb > High \/ turn = "drain"
(* The task has its turn: one row *)
Pull == /\ turn = "task" /\ since < Batch
        /\ since' = since + 1 /\ wait' = (IF wait >= 0 THEN wait + 1 ELSE wait)
        /\ IF buf + 1 < Buf THEN buf' = buf + 1 /\ UNCHANGED <<tb, win, turn>>
           ELSE LET n == IF tb = 0 THEN Min({buf + 1, win}) ELSE 0 IN
                /\ buf' = 0 /\ win' = win - n /\ tb' = tb + buf + 1 - n
                /\ turn' = IF tb' > High THEN "drain" ELSE "task"
        /\ UNCHANGED <<hops, env, plan>>
Yield == turn = "task" /\ since = Batch /\ since' = 0 /\ turn' = "loop" /\ UNCHANGED <<buf, tb, win, wait, hops, env, plan>>
(* A turn of the event loop while the task waits for it, or for the transport *)
Loop == /\ turn \in {"loop", "drain"}
        /\ \/ turn = "loop" /\ turn' = "task"
           \/ turn = "drain" /\ (turn' = IF tb <= Low THEN "task" ELSE "drain") /\ (tb <= Low \/ wait >= 0)
        /\ hops' = Max2(hops - 1, 0) /\ wait' = (IF hops <= 1 THEN -1 ELSE wait)
        /\ UNCHANGED <<buf, tb, win, since, env, plan>>
(* The socket accepts what the transport holds *)
Accept == /\ turn # "task" /\ tb > 0 /\ win > 0
          /\ LET n == Min({tb, win}) IN tb' = tb - n /\ win' = win - n
          /\ UNCHANGED <<buf, since, turn, wait, hops, env, plan>>
When == IF turn = "task" THEN "run" ELSE IF turn = "drain" THEN "stalled" ELSE "yield"
Note(e) == plan' = Append(plan, <<e, When>>) /\ env' = env + 1 /\ env < MaxEnv
Open == \E n \in {1, High + 2} : Note(IF n = 1 THEN "little" ELSE "much") /\ win' = Min({win + n, 2 * High}) /\ UNCHANGED <<buf, tb, since, turn, wait, hops>>
Shut == win > 0 /\ Note("shut") /\ win' = 0 /\ UNCHANGED <<buf, tb, since, turn, wait, hops>>
Arrive == wait < 0 /\ Note("arrive") /\ wait' = 0 /\ hops' = Hops /\ UNCHANGED <<buf, tb, win, since, turn>>
Next == Pull \/ Yield \/ Loop \/ Accept \/ Open \/ Shut \/ Arrive

Lazy == buf + tb <= High + 2 * Buf
Fair == wait <= (Hops + 1) * Batch
NoLoss == buf >= 0 /\ tb >= 0 /\ win >= 0
EmitPlan == env = MaxEnv => PrintT(<<"PLAN", ToJson(plan)>>)
(* With the window always open in the end, the task pulls again and again; a command is always answered *)
Spec == Init /\ [][Next]_vars /\ WF_vars(Pull) /\ WF_vars(Yield) /\ WF_vars(Loop) /\ WF_vars(Accept)
Answered == wait >= 0 ~> wait < 0
Live == [](win > 0 /\ tb > 0 => <>(win = 0 \/ tb = 0))
=============================================================================
