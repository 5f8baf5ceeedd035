CONSTANTS MaxSel = 2 MaxText = 3
INIT Init
NEXT Next
INVARIANTS Logged Answered Selected Once
CHECK_DEADLOCK FALSE
