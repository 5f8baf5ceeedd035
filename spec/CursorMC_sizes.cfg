INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Stmts = {1}
  MaxN = 8
  MaxLen = 12
  Sizes = TRUE
INVARIANTS Delivers EmitPlan
