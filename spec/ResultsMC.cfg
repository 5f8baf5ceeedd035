CONSTANTS MaxCols = 3
MaxRows = 3
INIT Init
NEXT Next
INVARIANTS Delivered Typing NoMoreThanNeeded EmitPlan
CHECK_DEADLOCK FALSE
