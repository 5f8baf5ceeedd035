CONSTANTS MaxLen = 3
MaxRows = 2
INIT Init
NEXT Next
INVARIANTS InStep Matches EmitPlan
CHECK_DEADLOCK FALSE
