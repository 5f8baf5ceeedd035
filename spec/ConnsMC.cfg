INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Slots = 3
  MaxLen = 5
INVARIANTS Distinct SearchEnds RefusedOnlyFull EmitPlan
