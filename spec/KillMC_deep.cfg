INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Cmds = 3
  Kills = 3
  MaxWaits = 1
INVARIANTS NothingUnsolicited BreaksOffItsOwn AtMostOne ClosedOnce DeadOnlyIfKilled InTheEnd
