CONSTANTS MaxOps = 3
Sets = {"A", "B"}
INIT Init
NEXT Next
INVARIANTS Sound Agree EmitPlan
CHECK_DEADLOCK FALSE
