INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Faults = 2
  MaxCmds = 3
INVARIANTS Released NotEarly EmitPlan
