CONSTANTS MaxN = 4
INIT Init
NEXT Next
INVARIANTS RoundTrip EmitPlan
CHECK_DEADLOCK FALSE
