CONSTANTS MaxOps = 4
Sets = {"A", "B"}
INIT Init
NEXT Next
INVARIANTS Sound Agree
CHECK_DEADLOCK FALSE
