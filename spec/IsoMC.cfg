INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Conns = {1, 2}
  Kinds = {"quick", "app", "slow"}
  Len0 = 2
INVARIANTS AsIfAlone EmitPlan
