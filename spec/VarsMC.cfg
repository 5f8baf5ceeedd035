CONSTANTS MaxItems = 3
INIT Init
NEXT Next
INVARIANTS ReadOnly Restored LastAssigned EmitPlan
CHECK_DEADLOCK FALSE
