CONSTANTS MaxLen = 5
INIT Init
NEXT Next
INVARIANTS BindsWhatWasSent EmitPlan
CHECK_DEADLOCK FALSE
