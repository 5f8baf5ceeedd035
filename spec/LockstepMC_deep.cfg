CONSTANTS MaxLen = 3
MaxRows = 3
INIT Init
NEXT Next
INVARIANTS InStep Matches EmitPlan
CHECK_DEADLOCK FALSE
