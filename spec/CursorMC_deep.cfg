INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Stmts = {1, 2}
  MaxN = 2
  MaxLen = 4
  Sizes = FALSE
INVARIANTS Delivers EmitPlan
