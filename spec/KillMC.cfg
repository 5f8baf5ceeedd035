INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Cmds = 2
  Kills = 2
  MaxWaits = 1
INVARIANTS NothingUnsolicited BreaksOffItsOwn AtMostOne ClosedOnce DeadOnlyIfKilled InTheEnd EmitPlan
