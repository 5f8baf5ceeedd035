CONSTANTS MaxSel = 1 MaxText = 3
INIT Init
NEXT Next
INVARIANTS Logged Answered Selected Once EmitPlan
CHECK_DEADLOCK FALSE
