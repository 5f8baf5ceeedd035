CONSTANTS MaxLen = 4
INIT Init
NEXT Next
INVARIANTS BindsWhatWasSent EmitPlan
CHECK_DEADLOCK FALSE
