INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Conns = {1, 2, 3}
  Kinds = {"quick", "app"}
  Len0 = 1
INVARIANTS AsIfAlone EmitPlan
